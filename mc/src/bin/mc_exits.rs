//! C05, C06: stop losses and take profits.
use juno::strategies::*;
use juno::trading::*;
use juno::utils::MidTrendPolicy;
use juno::{Advice, Candle};
use mc::tkit::*;
use mc::util::*;
use mc::*;

#[derive(Clone, Copy, Debug)]
enum Sl {
    Noop,
    Basic(f64, f64),
    Trailing(f64, f64),
    Both(f64, f64, f64, f64),
    Legacy(f64, bool),
}

#[derive(Clone, Copy, Debug)]
enum Tp {
    Noop,
    Basic(f64, f64),
    Legacy(f64),
    Trending { up: (f64, f64), down: (f64, f64), period: usize, lock: bool, easing: &'static str },
}

/// A comparison that may be too close to call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Verdict {
    Yes,
    No,
    Close,
}
use Verdict::*;

fn at_most(a: f64, b: f64, exact: bool) -> Verdict {
    if !exact && (a - b).abs() <= 1e-10 * a.abs().max(b.abs()) {
        Close
    } else if a <= b {
        Yes
    } else {
        No
    }
}

fn or(a: Verdict, b: Verdict) -> Verdict {
    match (a, b) {
        (Yes, _) | (_, Yes) => Yes,
        (Close, _) | (_, Close) => Close,
        _ => No,
    }
}

impl Sl {
    fn real(self) -> StopLossP {
        match self {
            Sl::Noop => NO_SL,
            Sl::Basic(u, d) => sl_basic(u, d),
            Sl::Trailing(u, d) => sl_trailing(u, d),
            Sl::Both(a, b, c, d) => sl_both(a, b, c, d),
            Sl::Legacy(t, trail) => sl_legacy(t, trail),
        }
    }
    /// `c`: the closes from the entry candle to the current one.
    fn hit(self, c: &[f64], long: bool) -> Verdict {
        let now = c[c.len() - 1];
        let entry = c[0];
        let best = if long {
            c.iter().copied().fold(entry, f64::max)
        } else {
            c.iter().copied().fold(entry, f64::min)
        };
        let from = |reference: f64, up: f64, down: f64| {
            let ex = few(reference) && few(up) && few(down) && few(now);
            if long {
                at_most(now, reference * (1.0 - up), ex)
            } else {
                at_most(reference * (1.0 + down), now, ex)
            }
        };
        match self {
            Sl::Noop => No,
            Sl::Basic(u, d) => from(entry, u, d),
            Sl::Trailing(u, d) => from(best, u, d),
            Sl::Both(bu, bd, tu, td) => or(from(entry, bu, bd), from(best, tu, td)),
            Sl::Legacy(t, _) if t == 0.0 => No,
            Sl::Legacy(t, false) => from(entry, t, t),
            Sl::Legacy(t, true) => from(best, t, t),
        }
    }
}

fn hlc(c: &[Candle]) -> Vec<(f64, f64, f64)> {
    c.iter().map(|x| (x.high, x.low, x.close)).collect()
}

impl Tp {
    fn real(self) -> TakeProfitP {
        match self {
            Tp::Noop => NO_TP,
            Tp::Basic(u, d) => tp_basic(u, d),
            Tp::Legacy(t) => tp_legacy(t),
            Tp::Trending { up, down, period, lock, easing } => tp_trending(up, down, period as u32, lock, easing),
        }
    }
    /// All candles seen so far and the index of the entry one.
    fn hit(self, all: &[Candle], entry: usize, long: bool) -> Verdict {
        let now = all[all.len() - 1].close;
        let e = all[entry].close;
        let from = |up: f64, down: f64, ex: bool| {
            let ex = ex && few(e) && few(up) && few(down) && few(now);
            if long {
                at_most(e * (1.0 + up), now, ex)
            } else {
                at_most(now, e * (1.0 - down), ex)
            }
        };
        match self {
            Tp::Noop => No,
            Tp::Basic(u, d) => from(u, d, true),
            Tp::Legacy(t) if t == 0.0 => No,
            Tp::Legacy(t) => from(t, t, true),
            Tp::Trending { up, down, period, lock, easing } => {
                let seen = if lock { &all[..=entry] } else { all };
                let adx = refs::adx(&hlc(seen), period).unwrap_or(0.0);
                let t = refs::easing(easing, adx / 100.0);
                let lerp = |b: (f64, f64)| {
                    if t == 0.0 {
                        b.1
                    } else if t == 1.0 {
                        b.0
                    } else {
                        b.1 + (b.0 - b.1) * t
                    }
                };
                from(lerp(up), lerp(down), easing == "Linear" && (t == 0.0 || t == 1.0))
            }
        }
    }
}

fn sls(thorough: bool) -> Vec<Sl> {
    let mut v = vec![
        Sl::Noop,
        Sl::Basic(0.25, 0.5),
        Sl::Basic(0.1, 0.3),
        Sl::Basic(0.0, 0.125),
        Sl::Basic(1.0, 1.0),
        Sl::Trailing(0.25, 0.5),
        Sl::Trailing(0.125, 0.25),
        Sl::Trailing(0.1, 0.07),
        Sl::Trailing(1.0, 0.0),
        Sl::Both(0.25, 0.125, 0.5, 0.5),
        Sl::Both(0.5, 0.5, 0.25, 0.125),
        Sl::Both(0.1, 0.4, 0.33, 0.05),
        Sl::Both(0.5, 0.5, 0.375, 0.375),
        Sl::Both(0.6, 0.9, 0.45, 0.6),
        Sl::Trailing(0.375, 0.375),
        Sl::Legacy(0.0, false),
        Sl::Legacy(0.0, true),
        Sl::Legacy(0.25, false),
        Sl::Legacy(0.25, true),
        Sl::Legacy(0.1, true),
        Sl::Legacy(0.1, false),
    ];
    if thorough {
        for a in [0.0625, 0.375, 0.2] {
            for b in [0.0625, 0.3, 0.75] {
                v.push(Sl::Basic(a, b));
                v.push(Sl::Trailing(a, b));
                v.push(Sl::Both(a, b, b, a));
            }
            v.push(Sl::Legacy(a, true));
            v.push(Sl::Legacy(a, false));
        }
    }
    v
}

fn tps() -> Vec<Tp> {
    vec![
        Tp::Noop,
        Tp::Basic(0.25, 0.5),
        Tp::Basic(0.5, 0.25),
        Tp::Basic(0.1, 0.3),
        Tp::Basic(0.0, 0.125),
        Tp::Basic(0.125, 0.0),
        Tp::Basic(9.9, 2.0),
        Tp::Legacy(0.0),
        Tp::Legacy(0.25),
        Tp::Legacy(0.1),
        Tp::Legacy(1.5),
    ]
}

fn agree(what: &str, got: bool, want: Verdict) -> Res {
    match want {
        Close => Ok(()),
        Yes => {
            ensure!(got, "{what} does not fire");
            Ok(())
        }
        No => {
            ensure!(!got, "{what} fires");
            Ok(())
        }
    }
}

const PRICES: [f64; 5] = [16.0, 12.0, 20.0, 8.0, 24.0];

fn c05(run: &mut Run) {
    run.assume("closes within 1e-10 of an inexact threshold are not judged");
    let all = sls(run.thorough());
    let depth = run.deep(6, 8);
    run.section(
        "objects",
        &format!("{} stop losses x every sequence of {depth} candles (4 closes each) x flat/entering or holding at every candle", all.len()),
        |ch| {
            let kind = *ch.of(&all);
            let mut real = kind.real().construct();
            let mut closes = vec![];
            let mut entry = 0;
            let mut script = String::new();
            for i in 0..depth {
                let close = *ch.of(&PRICES[..4]);
                let x = candle(i as u64 * HOUR, close * 1.125, close * 0.875, close);
                real.update(&x);
                closes.push(close);
                if i > 0 {
                    let since = &closes[entry..];
                    let (u, d) = (real.upside_hit(), real.downside_hit());
                    note!(ch, "{kind:?}: since entry {since:?}: long hit {u}, short hit {d}");
                    agree("stop loss of a long", u, kind.hit(since, true))?;
                    agree("stop loss of a short", d, kind.hit(since, false))?;
                    if u {
                        ch.hit("long hits");
                    }
                    if d {
                        ch.hit("short hits");
                    }
                    let hi = since.iter().copied().fold(0.0, f64::max);
                    let lo = since.iter().copied().fold(1e9, f64::min);
                    ch.state(H::new().f(since[0]).f(hi).f(lo).f(close).u(entry as u64).u(i as u64).get());
                }
                if i == 0 || ch.flag() {
                    // Flat after this candle, or entered at it.
                    real.clear(&x);
                    entry = i;
                    if ch.verbose {
                        script.push_str(&format!("clear@{i} "));
                    }
                }
            }
            note!(ch, "{script}");
            ch.trans(depth);
            ch.validated();
            Ok(())
        },
    );
    let len = run.deep(300, 1_000);
    run.section(
        "held for long",
        &format!("{} stop losses x every loop of 1 to 3 steps out of 5 (-3% to +2% and one to 3/4) over {len} candles, cleared on the first candle, on all up to the 40th, on every 150th, or two thirds on", all.len()),
        |ch| {
            let kind = *ch.of(&all);
            let entries = ch.pick(4);
            let steps: Vec<f64> = (0..1 + ch.pick(3)).map(|_| *ch.of(&STEPS)).collect();
            let closes = walk(&steps, len);
            let mut real = kind.real().construct();
            let mut entry = 0;
            for i in 0..len {
                let x = candle(i as u64 * HOUR, closes[i] * 1.125, closes[i] * 0.875, closes[i]);
                real.update(&x);
                if i > 0 {
                    let since = &closes[entry..=i];
                    let (u, d) = (real.upside_hit(), real.downside_hit());
                    note!(ch, "{kind:?}: candle {i} at {}, entered at candle {entry} at {}: long hit {u}, short hit {d}", closes[i], closes[entry]);
                    agree("stop loss of a long", u, kind.hit(since, true))?;
                    agree("stop loss of a short", d, kind.hit(since, false))?;
                    if u && i - entry > 100 {
                        ch.hit("long hits after more than 100 candles");
                    }
                    if d && i - entry > 100 {
                        ch.hit("short hits after more than 100 candles");
                    }
                    ch.state(H::new().f(closes[entry]).f(closes[i]).u(entry as u64).u(i as u64).u(u as u64).u(d as u64).get());
                }
                if entered(entries, i, len) {
                    real.clear(&x);
                    entry = i;
                }
            }
            ch.trans(len);
            ch.validated();
            Ok(())
        },
    );
    exits_in_backtests(run, &all, &[Tp::Noop]);
}

const STEPS: [f64; 5] = [1.02, 0.97, 1.0, 1.005, 0.75];

/// Closes that change by the steps in turn, turned round where they leave what is usual.
fn walk(steps: &[f64], len: usize) -> Vec<f64> {
    let (mut v, mut c, mut up) = (vec![], 100.0, true);
    for i in 0..len {
        v.push(c);
        let s = steps[i % steps.len()];
        c = if up { c * s } else { c / s };
        if !(1.0..1e4).contains(&c) {
            up = !up;
            c = c.clamp(1.0, 1e4);
        }
    }
    v
}

fn entered(kind: usize, i: usize, len: usize) -> bool {
    match kind {
        0 => i == 0,
        1 => i <= 40,
        2 => i % 150 == 0,
        _ => i == 0 || i == len / 3 * 2,
    }
}

/// Advises in the direction of the last move once that held for `n` further candles.
fn persistent(n: u32) -> StrategyParams {
    if n == 0 {
        return up_down();
    }
    StrategyParams::Sig(SigParams {
        sig: SignalParams::DoubleMA(double_ma(sma(1), sma(2))),
        persistence: n,
        mid_trend_policy: MidTrendPolicy::Current,
        buffer_interval: None,
    })
}

/// Own advice, own exits: the whole trade automaton without any of the real objects.
fn exits_in_backtests(run: &mut Run, sls: &[Sl], tps: &[Tp]) {
    let depth = run.deep(7, 9);
    let n = run.deep(4, 5);
    run.section(
        "backtests",
        &format!("{} stop losses x {} take profits x 3 position kind settings x advice held for 0, 1 or 2 further candles x every sequence of {depth} closes over {n} prices, against an independent automaton", sls.len(), tps.len()),
        |ch| {
            let sl = *ch.of(sls);
            let tp = *ch.of(tps);
            let (long, short) = *ch.of(&[(true, true), (true, false), (false, true)]);
            let hold = ch.pick(3);
            let closes: Vec<f64> = (0..depth).map(|_| *ch.of(&PRICES[..n])).collect();
            let cs = candles(0, HOUR, &closes);
            let c = Cfg { taker: 0.0, rate: 0.0, quote: 1000.0, limit: 0.5, ..Cfg::BASE };
            note!(ch, "{sl:?} {tp:?} long {long} short {short} {closes:?}");
            let p = params(persistent(hold as u32), HOUR, sl.real(), tp.real());
            let s = guarded(|| mc::tkit::run(&p, &c, &cs, long, short)).map_err(|e| Stop::Fail(format!("trading panicked: {e}")))?;
            note!(ch, "reported: {}", fail_positions(&s));
            let mut prevailing = Advice::None;
            let (mut direction, mut held) = (Advice::None, 0);
            let mut open: Option<(bool, usize)> = None;
            let mut want: Vec<Expect> = vec![];
            for i in 1..depth {
                // The direction of the last move, once it held for long enough.
                let towards = if closes[i] > closes[i - 1] {
                    Advice::Long
                } else if closes[i] < closes[i - 1] {
                    Advice::Short
                } else {
                    direction
                };
                held = if towards == direction { held + 1 } else { 0 };
                direction = towards;
                let advice = if held >= hold && direction != Advice::None { direction } else { prevailing };
                let change = advice != prevailing;
                prevailing = advice;
                if let Some((is_long, e)) = open {
                    let reason = if change && (advice == Advice::Long) != is_long {
                        Some(CloseReason::Strategy)
                    } else {
                        let (a, b) = (sl.hit(&closes[e..=i], is_long), tp.hit(&cs[..=i], e, is_long));
                        match (a, b) {
                            (Yes, _) => Some(CloseReason::StopLoss),
                            (Close, _) => return Err(Stop::Prune),
                            (No, Yes) => Some(CloseReason::TakeProfit),
                            (No, Close) => return Err(Stop::Prune),
                            (No, No) => None,
                        }
                    };
                    if let Some(reason) = reason {
                        match reason {
                            CloseReason::StopLoss => ch.hit("stop loss"),
                            CloseReason::TakeProfit => ch.hit("take profit"),
                            _ => {}
                        }
                        want.push(Expect { long: is_long, open: e, close: i, reason });
                        open = None;
                    }
                }
                if open.is_none() && change {
                    if advice == Advice::Long && long {
                        open = Some((true, i));
                    } else if advice == Advice::Short && short {
                        open = Some((false, i));
                    }
                    if open.is_some() && !want.is_empty() {
                        ch.hit("re-entries");
                    }
                }
            }
            if let Some((is_long, e)) = open {
                want.push(Expect { long: is_long, open: e, close: depth - 1, reason: CloseReason::Cancelled });
            }
            let b = Book::new(&cs, HOUR);
            for (i, raw) in s.positions.iter().enumerate() {
                let x = pos(raw);
                let got = Expect { long: x.long, open: b.at(x.open_time)?.0, close: b.at(x.close_time)?.0, reason: x.reason };
                let w = want.get(i);
                ensure!(w == Some(&got), "position {got:?} instead of {w:?}");
                ch.state(H::new().u(i as u64).u(got.open as u64).u(got.close as u64).u(got.reason as u64).u(got.long as u64).f(x.open.price).f(x.close.price).get());
            }
            ensure!(s.positions.len() == want.len(), "{} positions instead of {want:?}", s.positions.len());
            ch.trans(depth);
            ch.validated();
            Ok(())
        },
    );
}

fn c06(run: &mut Run) {
    run.assume("closes within 1e-10 of an inexact threshold are not judged");
    run.assume("interpolation is progress * first bound + (1 - progress) * second bound, as documented by the lerp test");
    let all = tps();
    let depth = run.deep(6, 8);
    run.section(
        "objects",
        &format!("{} take profits x every sequence of {depth} candles (4 closes each) x flat/entering or holding at every candle", all.len()),
        |ch| {
            let kind = *ch.of(&all);
            drive(ch, kind, depth, |ch, i| {
                let close = *ch.of(&PRICES[..4]);
                candle(i as u64 * HOUR, close * 1.125, close * 0.875, close)
            })
        },
    );
    // Trending: all easings, periods and lock settings over candles with varying directions.
    let shapes = [(18.0, 14.0, 16.0), (24.0, 18.0, 22.0), (16.0, 10.0, 10.0), (26.0, 8.0, 20.0)];
    let depth = run.deep(5, 6);
    let bounds = [((0.125, 0.5), (0.0625, 0.25)), ((0.75, 0.25), (0.5, 0.125))];
    run.section(
        "trending",
        &format!("31 easings x lock x periods 1..=3 x 2 bound pairs x every sequence of {depth} candles of 4 shapes x flat/holding"),
        |ch| {
            let easing = *ch.of(&refs::EASINGS);
            let lock = ch.flag();
            let period = 1 + ch.pick(3);
            let (up, down) = *ch.of(&bounds);
            drive(ch, Tp::Trending { up, down, period, lock, easing }, depth, |ch, i| {
                let (h, l, c) = *ch.of(&shapes);
                candle(i as u64 * HOUR, h, l, c)
            })
        },
    );
    let depth = run.deep(9, 10);
    run.section(
        "trending deep",
        &format!("easings Linear, BackInout and ElasticOut x lock x periods 1..=4 x every sequence of {depth} candles of 3 shapes, entered at every candle in turn"),
        |ch| {
            let easing = *ch.of(&["Linear", "BackInout", "ElasticOut"]);
            let lock = ch.flag();
            let period = 1 + ch.pick(4);
            let entry = ch.pick(depth - 1);
            let kind = Tp::Trending { up: (0.125, 0.5), down: (0.0625, 0.25), period, lock, easing };
            let mut real = kind.real().construct();
            let mut seen = vec![];
            for i in 0..depth {
                let (h, l, c) = *ch.of(&shapes[..3]);
                let x = candle(i as u64 * HOUR, h, l, c);
                real.update(&x);
                seen.push(x);
                if i > entry {
                    check_hits(ch, kind, real.as_ref(), &seen, entry)?;
                } else {
                    real.clear(&x);
                }
            }
            ch.trans(depth);
            ch.validated();
            Ok(())
        },
    );
    let len = run.deep(300, 1_000);
    run.section(
        "held for long",
        &format!("{} take profits x every loop of 1 to 3 steps out of 5 (-3% to +2% and one to 3/4) over {len} candles, cleared on the first candle, on all up to the 40th, on every 150th, or two thirds on; the last and every 7th hit compared", all.len()),
        |ch| {
            let kind = *ch.of(&all);
            held(ch, kind, len, len)
        },
    );
    let len = run.deep(160, 300);
    run.section(
        "trending held for long",
        &format!("4 easings x lock x periods 1, 5, 14 and 30 x every loop of 1 to 3 steps out of 3 over {len} candles, as above"),
        |ch| {
            let easing = *ch.of(&["Linear", "QuadOut", "CubicInout", "SineIn"]);
            let lock = ch.flag();
            let period = *ch.of(&[1usize, 5, 14, 30]);
            held(ch, Tp::Trending { up: (0.125, 0.5), down: (0.0625, 0.25), period, lock, easing }, len, 3)
        },
    );
    run.section("easings", "31 easings x 4001 progress values from 0 to 1 against their definitions", |ch| {
        let name = *ch.of(&refs::EASINGS);
        let chunk = ch.pick(40);
        let e = easing(name);
        for k in chunk * 100..=(chunk + 1) * 100 {
            let x = k as f64 / 4000.0;
            let got = juno::easing::tween(x, e);
            let want = refs::easing(name, x);
            note!(ch, "{name}({x}) = {got}");
            ensure!(close(got, want, 1e-9, 1e-9), "{name}({x}) = {got} instead of {want}");
            ch.state(H::new().s(name).f(x).get());
        }
        ch.trans(101);
        ch.validated();
        Ok(())
    });
    let mut for_trades = tps();
    for lock in [false, true] {
        for (period, e) in [(1, "Linear"), (2, "QuadIn"), (2, "ExpoOut")] {
            for_trades.push(Tp::Trending { up: (0.125, 0.5), down: (0.0625, 0.25), period, lock, easing: e });
        }
    }
    exits_in_backtests(run, &[Sl::Noop], &for_trades);
}

fn check_hits(ch: &mut Ch, kind: Tp, real: &dyn juno::take_profit::TakeProfit, seen: &[Candle], entry: usize) -> Res {
    let (u, d) = (real.upside_hit(), real.downside_hit());
    note!(ch, "{kind:?}: entry {entry} seen {:?}: long hit {u}, short hit {d}", hlc(seen));
    agree("take profit of a long", u, kind.hit(seen, entry, true))?;
    agree("take profit of a short", d, kind.hit(seen, entry, false))?;
    if u {
        ch.hit("long hits");
    }
    if d {
        ch.hit("short hits");
    }
    let last = seen[seen.len() - 1];
    ch.state(H::new().f(seen[entry].close).f(last.close).f(last.high).u(entry as u64).u(seen.len() as u64).u(u as u64).u(d as u64).get());
    Ok(())
}

fn held(ch: &mut Ch, kind: Tp, len: usize, steps: usize) -> Res {
    let entries = ch.pick(4);
    let steps: Vec<f64> = (0..1 + ch.pick(3)).map(|_| STEPS[ch.pick(steps.min(5))]).collect();
    let closes = walk(&steps, len);
    let mut real = kind.real().construct();
    let (mut entry, mut seen) = (0, vec![]);
    for i in 0..len {
        // Highs and lows on both sides of those of the candle before.
        let x = candle(i as u64 * HOUR, closes[i] * [1.125, 1.0625, 1.25][i % 3], closes[i] * [0.875, 0.75][i % 2], closes[i]);
        real.update(&x);
        seen.push(x);
        if i > 0 && (i % 7 == 0 || i + 3 > len || i < 5) {
            check_hits(ch, kind, real.as_ref(), &seen, entry)?;
        }
        if entered(entries, i, len) {
            real.clear(&x);
            entry = i;
        }
    }
    ch.trans(len);
    ch.validated();
    Ok(())
}

fn drive(ch: &mut Ch, kind: Tp, depth: usize, mut next: impl FnMut(&mut Ch, usize) -> Candle) -> Res {
    let mut real = kind.real().construct();
    let mut seen = vec![];
    let mut entry = 0;
    for i in 0..depth {
        let x = next(ch, i);
        real.update(&x);
        seen.push(x);
        if i > 0 {
            check_hits(ch, kind, real.as_ref(), &seen, entry)?;
        }
        if i == 0 || ch.flag() {
            real.clear(&x);
            entry = i;
        }
    }
    ch.trans(depth);
    ch.validated();
    Ok(())
}

fn main() {
    main_with(&[("C05", c05), ("C06", c06)])
}
