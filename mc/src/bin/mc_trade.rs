//! C01-C04, C07: the backtest.
use juno::trading::*;
use juno::utils::MidTrendPolicy;
use juno::strategies::*;
use juno::{Advice, Candle, Interval, Timestamp};
use mc::tkit::*;
use mc::util::*;
use mc::*;

/// Exchange and account configurations that differ in every respect that matters.
fn cfgs() -> Vec<Cfg> {
    let b = Cfg::BASE;
    vec![
        // Exact in binary: no tolerance anywhere, ties are exact.
        Cfg { taker: 0.125, maker: 0.25, bp: 0, qp: 0, quote: 1024.0, rate: 0.0625, ..b.clone() },
        Cfg { taker: 0.25, maker: 0.0, bp: 1, qp: 0, quote: 64.0, rate: 0.125, mult: 3, step: 0.5, min: 0.5, ..b.clone() },
        Cfg { taker: 0.0, maker: 0.5, bp: 0, qp: 2, quote: 96.0, rate: 0.0, step: 1.0, ..b.clone() },
        Cfg { taker: 0.03125, maker: 0.0, bp: 2, qp: 1, quote: 512.0, rate: 0.03125, limit: 20.0, mult: 2, ..b.clone() },
        // Decimal.
        b.clone(),
        Cfg { taker: 0.0123, maker: 0.0007, bp: 2, qp: 8, quote: 100.0, ..b.clone() },
        Cfg { taker: 0.0123, maker: 0.0007, bp: 8, qp: 2, quote: 100.0, interest_interval: DAY, rate: 0.01, ..b.clone() },
        Cfg { taker: 0.004, bp: 3, qp: 1, min: 0.5, max: 7.0, step: 0.1, quote: 137.77, mult: 3, ..b.clone() },
        Cfg { taker: 0.0999, bp: 0, qp: 3, quote: 1000.0, mult: 5, rate: 0.013, interest_interval: 5_400_000, ..b.clone() },
        Cfg { taker: 0.001, bp: 8, qp: 8, min: 1.0, step: 1.0, quote: 26.0, ..b.clone() },
        Cfg { taker: 0.001, bp: 8, qp: 8, limit: 0.75, mult: 2, quote: 50.0, rate: 0.02, interest_interval: 7_000_000, ..b.clone() },
        Cfg { taker: 0.0, bp: 12, qp: 11, quote: 0.3, max: 0.01, ..b.clone() },
        Cfg { taker: 0.3, bp: 4, qp: 4, quote: 33.333, mult: 4, rate: 0.2, interest_interval: 60_000, ..b.clone() },
        Cfg { taker: 0.002, bp: 5, qp: 5, quote: 20.0, mult: 1, ..b.clone() },
        Cfg { taker: 0.0015, maker: 0.001, bp: 6, qp: 2, min: 0.3, max: 3.0, step: 0.01, quote: 250.0, ..b },
    ]
}

const EXACT: [f64; 4] = [8.0, 16.0, 10.0, 7.0];
const DECIMAL: [f64; 4] = [10.01, 13.37, 7.3, 11.11];

fn check_amounts(ch: &mut Ch, longs: bool, s: &TradingSummary, cs: &[Candle], interval: u64, c: &Cfg) -> Res {
    let b = Book::new(cs, interval);
    let mut balance = c.quote;
    for (i, p) in s.positions.iter().enumerate() {
        note!(ch, "#{i} balance {balance}: {}", show(p));
        let p = pos(p);
        let largest = balance.max(p.open.size).max(p.close.size);
        if largest * 10f64.powi(c.bp.max(c.qp) as i32) > 1e13 {
            // Units of the last decimal get lost in floating point from here on.
            ch.hit("amounts beyond float resolution");
            break;
        }
        if p.long && longs {
            check_long(&p, &b, c, balance)?;
            ch.hit("longs");
            if i > 0 {
                ch.hit("longs after other positions");
            }
        } else if !p.long && !longs {
            check_short(&p, &b, c, balance)?;
            ch.hit("shorts");
            if p.borrowed == c.limit {
                ch.hit("shorts at the borrow limit");
            }
        }
        balance = balance_after(&p, balance);
        ch.state(H::new().u(i as u64).u(p.long as u64).f(balance).f(p.open.size).f(p.close.size).get());
    }
    ch.trans(cs.len());
    ch.validated();
    Ok(())
}

fn amounts(run: &mut Run, longs: bool) {
    run.assume("prices, sizes and fees are finite and non-negative; the minimum size is a multiple of the step");
    run.assume("near a rounding tie (1e-7 of a unit) both neighbours are accepted unless all factors are exact in binary");
    let all = cfgs();
    let depth = run.deep(10, 12);
    let sides: Vec<(bool, bool)> = if longs { vec![(true, true), (true, false)] } else { vec![(true, true), (false, true)] };
    run.section(
        "histories",
        &format!("15 exchange configurations x 2 position kind settings x exits none/basic x every sequence of {depth} closes over 3 prices"),
        |ch| {
            let c = ch.of(&all).clone();
            let (long, short) = *ch.of(&sides);
            let (sl, tp) = if ch.flag() { (sl_basic(0.2, 0.2), tp_basic(0.3, 0.3)) } else { (NO_SL, NO_TP) };
            let exact = c.quote == c.quote.trunc() && few(c.taker);
            let alphabet = if exact { EXACT } else { DECIMAL };
            let closes: Vec<f64> = (0..depth).map(|_| alphabet[ch.pick(3)]).collect();
            let cs = candles(0, HOUR, &closes);
            let p = params(up_down(), HOUR, sl, tp);
            note!(ch, "{c:?} closes {closes:?}");
            let s = run_guarded(&p, &c, &cs, long, short)?;
            check_amounts(ch, longs, &s, &cs, HOUR, &c)
        },
    );

    // The product of all configuration values over a fixed set of multi-position histories.
    let histories: [(&[f64], u64); 4] = [
        (&[10.0, 12.0, 11.0, 13.0, 9.0, 14.0], 0),
        (&[10.01, 9.13, 9.87, 7.77, 8.88, 8.01], 3 * HOUR + 1),
        (&[3.0, 4.0, 2.0, 5.0, 5.0, 1.0], HOUR),
        (&[100.5, 101.25, 55.75, 80.0, 79.5, 120.0], 25 * HOUR),
    ];
    let takers = run.deep(vec![0.001, 0.0, 0.0625, 0.1337, 0.00075], vec![0.001, 0.0, 0.0625, 0.1337, 0.5, 0.00075, 0.0102]);
    let precisions = run.deep(vec![8, 0, 2, 5, 3, 10], vec![8, 0, 1, 2, 3, 4, 5, 6, 10]);
    let steps = [(0.0, 0.0, 0.0), (0.01, 0.0, 0.01), (0.5, 6.0, 0.5), (0.0, 2.5, 0.0), (1.0, 0.0, 1.0)];
    let quotes = [100.0, 77.7, 12.5];
    let borrows = run.deep(
        vec![(1e9, 0.001, HOUR), (1.25, 0.01, DAY), (1e9, 0.05, 2 * HOUR)],
        vec![(1e9, 0.001, HOUR), (1.25, 0.01, DAY), (1e9, 0.05, 2 * HOUR), (0.0, 0.01, HOUR), (5.0, 0.0, HOUR), (1e9, 0.0003, 1)],
    );
    let mults = [2u32, 3, 1, 7];
    run.section(
        "parameters",
        "product of taker fees, both precisions, size filters, balances, borrow terms and multipliers x 4 multi-position histories with gaps x position kinds",
        |ch| {
            let (closes, gap) = *ch.of(&histories);
            let (min, max, step) = *ch.of(&steps);
            let c = {
                let mut c = Cfg {
                    taker: *ch.of(&takers),
                    maker: 0.017,
                    bp: *ch.of(&precisions),
                    qp: *ch.of(&precisions),
                    min,
                    max,
                    step,
                    quote: *ch.of(&quotes),
                    ..Cfg::BASE
                };
                // Long-only amounts do not depend on the borrow terms; mixed histories do.
                let (limit, rate, interest_interval) = *ch.of(&borrows);
                c.limit = limit;
                c.rate = rate;
                c.interest_interval = interest_interval;
                c.mult = *ch.of(&mults);
                c
            };
            let (long, short) = *ch.of(&sides);
            if longs && !short && (c.mult != 2 || c.limit != 1e9) {
                return Err(Stop::Prune);
            }
            let mut cs = candles(0, HOUR, closes);
            for x in cs.iter_mut().skip(3) {
                x.time = x.time + Interval(gap);
            }
            note!(ch, "{c:?} closes {closes:?} gap {gap}");
            let s = run_guarded(&params(up_down(), HOUR, NO_SL, NO_TP), &c, &cs, long, short)?;
            check_amounts(ch, longs, &s, &cs, HOUR, &c)
        },
    );

    // Holding times: every open/close candle pair around interest interval boundaries.
    if !longs {
        let intervals = [60_000u64, HOUR, 7 * HOUR, DAY];
        let interest = [1u64, 59_999, 60_000, HOUR - 1, HOUR, HOUR + 1, 3 * HOUR, DAY, 30 * DAY];
        let starts = [0u64, 60_000, 17 * HOUR, 1_600_000_000_000 / 60_000 * 60_000];
        let max_hold = run.deep(30, 120);
        run.section(
            "interest",
            &format!("4 candle intervals x 9 interest intervals x 4 start times x 1..={max_hold} candles held x 4 rates"),
            |ch| {
                let interval = *ch.of(&intervals);
                let c = Cfg {
                    interest_interval: *ch.of(&interest),
                    rate: *ch.of(&[0.0001, 0.0, 0.03125, 0.00777]),
                    taker: *ch.of(&[0.0, 0.001]),
                    bp: *ch.of(&[8, 3]),
                    ..Cfg::BASE
                };
                let start = *ch.of(&starts);
                let hold = 1 + ch.pick(max_hold);
                let mut closes = vec![10.0, 9.0];
                closes.extend(std::iter::repeat(9.0).take(hold - 1));
                closes.push(11.0);
                let cs = candles(start, interval, &closes);
                note!(ch, "{c:?} interval {interval} start {start} hold {hold}");
                let s = run_guarded(&params(up_down(), interval, NO_SL, NO_TP), &c, &cs, false, true)?;
                ensure!(s.positions.len() == 1, "expected one position, got {}", s.positions.len());
                ensure!(pos(&s.positions[0]).duration == hold as u64 * interval, "held {} instead of {hold}", pos(&s.positions[0]).duration);
                check_amounts(ch, false, &s, &cs, interval, &c)
            },
        );
    }

    // Long runs: prefix + loop, up to hundreds of positions.
    let len = run.deep(150, 400);
    run.section(
        "lassos",
        &format!("15 configurations x every prefix of 2 and loop of 4 closes over 4 prices, repeated to {len} candles"),
        |ch| {
            let c = ch.of(&all).clone();
            let alphabet = if few(c.taker) && few(c.quote) { EXACT } else { DECIMAL };
            let mut closes = vec![alphabet[ch.pick(4)], alphabet[ch.pick(4)]];
            let l: Vec<f64> = (0..4).map(|_| alphabet[ch.pick(4)]).collect();
            while closes.len() < len {
                closes.extend(&l);
            }
            let cs = candles(DAY * 17, HOUR, &closes);
            note!(ch, "{c:?} loop {l:?}");
            let s = run_guarded(&params(up_down(), HOUR, NO_SL, NO_TP), &c, &cs, true, true)?;
            check_amounts(ch, longs, &s, &cs, HOUR, &c)
        },
    );
    let len = run.deep(2_500, 10_000);
    run.section(
        "long",
        &format!("15 configurations x exits none/basic x every loop of 3 closes over 4 prices, repeated to {len} candles"),
        |ch| {
            let c = ch.of(&all).clone();
            let (sl, tp) = if ch.flag() { (sl_basic(0.2, 0.2), tp_basic(0.3, 0.3)) } else { (NO_SL, NO_TP) };
            let alphabet = if few(c.taker) && few(c.quote) { EXACT } else { DECIMAL };
            let l: Vec<f64> = (0..3).map(|_| alphabet[ch.pick(4)]).collect();
            let closes: Vec<f64> = (0..len).map(|i| l[i % 3]).collect();
            let cs = candles(DAY * 17, HOUR, &closes);
            note!(ch, "{c:?} loop {l:?}");
            let s = run_guarded(&params(up_down(), HOUR, sl, tp), &c, &cs, true, true)?;
            if s.positions.len() > 500 {
                ch.hit("more than 500 positions");
            }
            check_amounts(ch, longs, &s, &cs, HOUR, &c)
        },
    );
    // Prices, balances, fees and rates of other orders of magnitude.
    let depth = run.deep(7, 8);
    let (prices, quotes) = ([1e-8, 3e-5, 0.01, 1.0, 137.0, 9e4, 2e7], [1e-3, 1.0, 1e3, 7.77e6]);
    run.section(
        "magnitudes",
        &format!("prices around 7 magnitudes (1e-8 to 2e7) x balances of 4 (0.001 to 7.77e6) x 6 precisions x 4 fees and rates x 3 multipliers x every sequence of {depth} closes over 3 prices"),
        |ch| {
            let scale = *ch.of(&prices);
            let (bp, qp) = *ch.of(&[(8, 8), (0, 0), (8, 2), (2, 8), (4, 5), (12, 12)]);
            let (taker, rate) = *ch.of(&[(0.001, 0.001), (1e-7, 1e-6), (0.75, 0.5), (0.999, 3.0)]);
            let c = Cfg { quote: *ch.of(&quotes), bp, qp, taker, rate, limit: 1e12, mult: *ch.of(&[2, 5, 100]), ..Cfg::BASE };
            if longs && c.mult != 2 {
                return Err(Stop::Prune);
            }
            let closes: Vec<f64> = (0..depth).map(|_| [1.013, 1.5, 0.77][ch.pick(3)] * scale).collect();
            let cs = candles(DAY, HOUR, &closes);
            note!(ch, "{c:?} closes {closes:?}");
            let s = run_guarded(&params(up_down(), HOUR, NO_SL, NO_TP), &c, &cs, longs, !longs)?;
            check_amounts(ch, longs, &s, &cs, HOUR, &c)
        },
    );
}

fn run_guarded(p: &TradingParams, c: &Cfg, cs: &[Candle], long: bool, short: bool) -> Result<TradingSummary, Stop> {
    guarded(|| mc::tkit::run(p, c, cs, long, short)).map_err(|e| Stop::Fail(format!("trading panicked: {e}")))
}

fn c01(run: &mut Run) {
    amounts(run, true)
}
fn c02(run: &mut Run) {
    amounts(run, false)
}

fn stop_losses() -> Vec<StopLossP> {
    vec![
        NO_SL,
        sl_basic(0.15, 0.15),
        sl_trailing(0.2, 0.1),
        sl_both(0.3, 0.25, 0.1, 0.15),
        sl_legacy(0.12, true),
    ]
}
fn take_profits() -> Vec<TakeProfitP> {
    vec![
        NO_TP,
        tp_basic(0.25, 0.2),
        tp_legacy(0.15),
        tp_trending((0.1, 0.4), (0.05, 0.3), 1, false, "QuadOut"),
    ]
}

// ---------------------------------------------------------------- C03

fn check_lifecycle(
    ch: &mut Ch,
    s: &TradingSummary,
    cs: &[Candle],
    interval: u64,
    quote: f64,
    long: bool,
    short: bool,
) -> Res {
    if cs.is_empty() {
        ensure!(s.positions.is_empty(), "positions without candles");
        ensure!(s.quote == quote, "starting balance {}", s.quote);
        ch.validated();
        return Ok(());
    }
    let first = cs[0].time.0;
    let end = cs[cs.len() - 1].time.0 + interval;
    want("summary start", s.start.0, first)?;
    want("summary end", s.end.0, end)?;
    want("starting balance", s.quote, quote)?;
    let b = Book::new(cs, interval);
    let last = cs.len() - 1;
    let mut prev_close: Option<usize> = None;
    for (n, raw) in s.positions.iter().enumerate() {
        note!(ch, "#{n} {}", show(raw));
        let p = pos(raw);
        ensure!(if p.long { long } else { short }, "opened a position of a kind that is not allowed");
        let (oi, oc) = b.at(p.open_time)?;
        let (ci, cc) = b.at(p.close_time)?;
        ensure!(p.open.price == oc, "opened at {} while the candle closed at {oc}", p.open.price);
        ensure!(p.close.price == cc, "closed at {} while the candle closed at {cc}", p.close.price);
        want("duration", p.duration, p.close_time - p.open_time)?;
        if p.reason == CloseReason::Cancelled {
            ensure!(n == s.positions.len() - 1, "a position before the last one is cancelled");
            ensure!(ci == last, "cancelled at candle {ci} and not at the last one");
            ensure!(oi <= ci, "closed before it opened");
            ch.hit("cancelled");
            if oi == ci {
                ch.hit("opened on the last candle");
            }
        } else {
            ensure!(oi < ci, "opened at candle {oi} and closed at {ci}");
        }
        if let Some(pc) = prev_close {
            ensure!(oi >= pc, "opened at candle {oi} before the previous position closed at {pc}");
            if oi == pc {
                ch.hit("reversed on the same candle");
            }
        }
        prev_close = Some(ci);
        ch.state(H::new().u(n as u64).u(p.long as u64).u(oi as u64).u(ci as u64).u(p.reason as u64).u(cs.len() as u64).f(oc).f(cc).get());
    }
    ch.trans(cs.len());
    ch.validated();
    Ok(())
}

fn c03(run: &mut Run) {
    let cfg = vec![Cfg::BASE, Cfg { min: 1.0, step: 1.0, quote: 25.0, taker: 0.05, ..Cfg::BASE }];
    let strategies = strategies();
    let sls = stop_losses();
    let tps = take_profits();
    let prices = [10.0, 13.0, 8.0];
    let depth = run.deep(7, 9);
    run.section(
        "histories",
        &format!("11 strategies x 5 stop losses x 4 take profits x 4 position kind settings x 2 configurations x all sequences of up to {depth} closes over 3 prices"),
        |ch| {
            let len = depth - ch.pick(2);
            let (_, strategy) = *ch.of(&strategies);
            let sl = *ch.of(&sls);
            let tp = *ch.of(&tps);
            let c = ch.of(&cfg).clone();
            let (long, short) = *ch.of(&[(true, true), (true, false), (false, true), (false, false)]);
            let closes: Vec<f64> = (0..len).map(|_| *ch.of(&prices)).collect();
            let cs = candles(0, HOUR, &closes);
            note!(ch, "{strategy:?} {sl:?} {tp:?} long {long} short {short} {closes:?}");
            let p = params(strategy, HOUR, sl, tp);
            let s = run_guarded(&p, &c, &cs, long, short)?;
            check_lifecycle(ch, &s, &cs, HOUR, c.quote, long, short)
        },
    );
    let intervals = [60_000u64, HOUR, DAY, 604_800_000];
    let starts = [0u64, 1, HOUR, 1_234_567_890_123];
    let gaps = [0u64, 1, HOUR, 7 * DAY];
    let depth = run.deep(6, 8);
    run.section(
        "clocks",
        &format!("4 intervals x 4 start times x 4 gap lengths at every place x all sequences of 0..={depth} closes over 3 prices x exits"),
        |ch| {
            let len = ch.pick(depth + 1);
            let interval = *ch.of(&intervals);
            let start = *ch.of(&starts);
            let gap = *ch.of(&gaps);
            let at = if gap == 0 || len == 0 { 0 } else { 1 + ch.pick(len) };
            let (sl, tp) = *ch.of(&[(NO_SL, NO_TP), (sl_basic(0.15, 0.15), tp_basic(0.2, 0.2))]);
            let (long, short) = *ch.of(&[(true, true), (true, false), (false, true)]);
            let closes: Vec<f64> = (0..len).map(|_| *ch.of(&prices)).collect();
            let mut cs = candles(start, interval, &closes);
            for (i, x) in cs.iter_mut().enumerate() {
                if gap > 0 && i >= at {
                    x.time = Timestamp(x.time.0 + gap);
                }
            }
            note!(ch, "interval {interval} start {start} gap {gap}@{at} {closes:?}");
            let s = run_guarded(&params(up_down(), interval, sl, tp), &Cfg::BASE, &cs, long, short)?;
            check_lifecycle(ch, &s, &cs, interval, Cfg::BASE.quote, long, short)
        },
    );
    let len = run.deep(2_500, 10_000);
    run.section(
        "long",
        &format!("11 strategies x 5 stop losses x 4 take profits x every loop of 3 closes over 3 prices, repeated to {len} candles, with and without a gap after every 100"),
        |ch| {
            let (_, strategy) = *ch.of(&strategies);
            let sl = *ch.of(&sls);
            let tp = *ch.of(&tps);
            let gap = *ch.of(&[0u64, 3 * HOUR]);
            let l: Vec<f64> = (0..3).map(|_| *ch.of(&prices)).collect();
            let closes: Vec<f64> = (0..len).map(|i| l[i % 3]).collect();
            let mut cs = candles(DAY, HOUR, &closes);
            for (i, x) in cs.iter_mut().enumerate() {
                x.time = Timestamp(x.time.0 + (i / 100) as u64 * gap);
            }
            note!(ch, "{strategy:?} {sl:?} {tp:?} loop {l:?} gap {gap}");
            let c = Cfg { quote: 1e9, taker: 1e-4, ..Cfg::BASE };
            let s = run_guarded(&params(strategy, HOUR, sl, tp), &c, &cs, true, true)?;
            check_lifecycle(ch, &s, &cs, HOUR, c.quote, true, true)
        },
    );
}

// ---------------------------------------------------------------- C04

fn check_automaton(
    ch: &mut Ch,
    p: &TradingParams,
    c: &Cfg,
    cs: &[Candle],
    long: bool,
    short: bool,
) -> Res {
    let interval = p.trader.interval;
    let s = run_guarded(p, c, cs, long, short)?;
    note!(ch, "reported: {}", fail_positions(&s));
    let mut strategy = p.strategy.construct(&StrategyMeta { interval });
    let mut sl = p.stop_loss.construct();
    let mut tp = p.take_profit.construct();
    let mut a = Automaton::new();
    // Balance before each position, from the reported fills.
    let mut balances = vec![c.quote];
    for x in &s.positions {
        let x = pos(x);
        balances.push(balance_after(&x, *balances.last().unwrap()));
    }
    for (i, x) in cs.iter().enumerate() {
        if a.stopped {
            break;
        }
        sl.update(x);
        tp.update(x);
        strategy.update(x);
        let advice = strategy.advice();
        let change = if advice == Advice::None || advice == a.prevailing {
            None
        } else {
            a.prevailing = advice;
            Some(advice)
        };
        let mut exited = false;
        if let Some((is_long, opened)) = a.open {
            let against = match change {
                Some(Advice::Liquidate) => true,
                Some(Advice::Short) => is_long,
                Some(Advice::Long) => !is_long,
                _ => false,
            };
            let (sh, th) = if is_long {
                (sl.upside_hit(), tp.upside_hit())
            } else {
                (sl.downside_hit(), tp.downside_hit())
            };
            let reason = if against {
                Some(CloseReason::Strategy)
            } else if sh {
                Some(CloseReason::StopLoss)
            } else if th {
                Some(CloseReason::TakeProfit)
            } else {
                None
            };
            if against as u8 + sh as u8 + th as u8 > 1 {
                ch.hit("several exits on one candle");
            }
            if let Some(reason) = reason {
                a.done.push(Expect { long: is_long, open: opened, close: i, reason });
                a.open = None;
                exited = true;
            }
        }
        if a.open.is_none() {
            let side = match change {
                Some(Advice::Long) if long => Some(true),
                Some(Advice::Short) if short => Some(false),
                _ => None,
            };
            if let Some(is_long) = side {
                let balance = balances.get(a.done.len()).copied().unwrap_or(f64::NAN);
                match affordable(balance, x.close, c) {
                    Some(true) => {
                        a.open = Some((is_long, i));
                        if exited {
                            ch.hit("reversed");
                        }
                    }
                    Some(false) => {
                        a.stopped = true;
                        ch.hit("stopped for lack of balance");
                    }
                    None => return Err(Stop::Prune),
                }
            }
            sl.clear(x);
            tp.clear(x);
        }
        ch.state(a.hash(H::new().f(x.close).u(i as u64)).f(balances.get(a.done.len()).copied().unwrap_or(0.0)).get());
        note!(ch, "candle {i} close {} advice {advice:?} change {change:?} -> {:?} stopped {}", x.close, a.open, a.stopped);
    }
    if let Some((is_long, opened)) = a.open {
        a.done.push(Expect { long: is_long, open: opened, close: cs.len() - 1, reason: CloseReason::Cancelled });
    }
    let b = Book::new(cs, interval.0);
    let mut got = vec![];
    for x in &s.positions {
        let x = pos(x);
        got.push(Expect {
            long: x.long,
            open: b.at(x.open_time)?.0,
            close: b.at(x.close_time)?.0,
            reason: x.reason,
        });
    }
    for e in &got {
        match e.reason {
            CloseReason::StopLoss => ch.hit("stop loss"),
            CloseReason::TakeProfit => ch.hit("take profit"),
            CloseReason::Strategy => ch.hit("strategy"),
            CloseReason::Cancelled => ch.hit("cancelled"),
        }
    }
    ensure!(got == a.done, "positions {got:?} instead of {:?}", a.done);
    ch.trans(cs.len());
    ch.validated();
    Ok(())
}

fn c04(run: &mut Run) {
    run.assume("advice and exit signals are those of the real strategy, stop loss and take profit objects fed with the same candles (their own correctness is C05, C06, C12)");
    let cfg = vec![
        Cfg::BASE,
        Cfg { min: 1.0, step: 1.0, quote: 21.0, taker: 0.05, bp: 2, qp: 2, ..Cfg::BASE },
        Cfg { taker: 0.2, quote: 40.0, min: 0.0, step: 0.5, mult: 3, bp: 0, qp: 0, ..Cfg::BASE },
    ];
    let strategies = strategies();
    let sls = stop_losses();
    let tps = take_profits();
    let prices = [10.0, 13.0, 8.0, 9.0];
    let depth = run.deep(7, 8);
    let flags = [(true, true), (true, false), (false, true), (false, false)];
    run.section(
        "histories",
        &format!("11 strategies x 5 stop losses x 4 take profits x 4 position kind settings x 3 configurations x all sequences of {depth} closes over 4 prices"),
        |ch| {
            let (_, strategy) = *ch.of(&strategies);
            let sl = *ch.of(&sls);
            let tp = *ch.of(&tps);
            let ci = ch.pick(cfg.len());
            let (long, short) = *ch.of(&flags);
            if ci == 2 && (long, short) == (false, false) {
                return Err(Stop::Prune);
            }
            let closes: Vec<f64> = (0..depth).map(|_| *ch.of(&prices)).collect();
            let cs = candles(0, HOUR, &closes);
            note!(ch, "{strategy:?} {sl:?} {tp:?} long {long} short {short} {:?} {closes:?}", cfg[ci]);
            check_automaton(ch, &params(strategy, HOUR, sl, tp), &cfg[ci], &cs, long, short)
        },
    );
    let depth = run.deep(12, 14);
    run.section(
        "deep",
        &format!("up/down strategy, four-week rule and stochastic-filtered one with stop loss and take profit x all sequences of {depth} closes over 3 prices"),
        |ch| {
            let (_, strategy) = strategies[[0, 1, 3][ch.pick(3)]];
            let (sl, tp) = *ch.of(&[(sl_basic(0.2, 0.2), tp_basic(0.25, 0.15)), (sl_trailing(0.15, 0.15), tp_legacy(0.5))]);
            let ci = ch.pick(2);
            let (long, short) = *ch.of(&flags[..3]);
            let closes: Vec<f64> = (0..depth).map(|_| *ch.of(&prices[..3])).collect();
            let cs = candles(0, HOUR, &closes);
            note!(ch, "{strategy:?} {sl:?} {tp:?} long {long} short {short} {:?} {closes:?}", cfg[ci]);
            check_automaton(ch, &params(strategy, HOUR, sl, tp), &cfg[ci], &cs, long, short)
        },
    );
    let len = run.deep(120, 300);
    run.section(
        "lassos",
        &format!("11 strategies x 5 stop losses x 4 take profits x 2 configurations x prefix 2 + loop 4 over 3 prices, repeated to {len} candles"),
        |ch| {
            let (_, strategy) = *ch.of(&strategies);
            let sl = *ch.of(&sls);
            let tp = *ch.of(&tps);
            let ci = ch.pick(2);
            let mut closes: Vec<f64> = (0..2).map(|_| *ch.of(&prices[..3])).collect();
            let l: Vec<f64> = (0..4).map(|_| *ch.of(&prices[..3])).collect();
            while closes.len() < len {
                closes.extend(&l);
            }
            let cs = candles(0, HOUR, &closes);
            note!(ch, "{strategy:?} {sl:?} {tp:?} {:?} loop {l:?}", cfg[ci]);
            check_automaton(ch, &params(strategy, HOUR, sl, tp), &cfg[ci], &cs, true, true)
        },
    );
    let len = run.deep(2_500, 10_000);
    run.section(
        "long",
        &format!("11 strategies x 5 stop losses x 4 take profits x every loop of 3 closes over 3 prices, repeated to {len} candles"),
        |ch| {
            let (_, strategy) = *ch.of(&strategies);
            let sl = *ch.of(&sls);
            let tp = *ch.of(&tps);
            let l: Vec<f64> = (0..3).map(|_| *ch.of(&prices[..3])).collect();
            let closes: Vec<f64> = (0..len).map(|i| l[i % 3]).collect();
            let cs = candles(0, HOUR, &closes);
            note!(ch, "{strategy:?} {sl:?} {tp:?} loop {l:?}");
            let c = Cfg { quote: 1e9, taker: 1e-4, ..Cfg::BASE };
            check_automaton(ch, &params(strategy, HOUR, sl, tp), &c, &cs, true, true)
        },
    );
}

// ---------------------------------------------------------------- C07

fn more_strategies() -> Vec<(&'static str, StrategyParams)> {
    let mut v = strategies();
    let dm = SignalParams::DoubleMA(double_ma(sma(1), sma(2)));
    for (name, n) in [("buffered 2h", 2), ("buffered 3h", 3), ("buffered 24h", 24)] {
        v.push((
            name,
            StrategyParams::Sig(SigParams {
                sig: dm,
                persistence: 0,
                mid_trend_policy: MidTrendPolicy::Current,
                buffer_interval: Some(Interval(n * HOUR)),
            }),
        ));
    }
    v
}

fn check_prefixes(ch: &mut Ch, p: &TradingParams, c: &Cfg, cs: &[Candle], full: &TradingSummary) -> Res {
    let interval = p.trader.interval.0;
    let full_prints: Vec<Vec<u64>> = full.positions.iter().map(pos_print).collect();
    for k in 1..cs.len() {
        let s = run_guarded(p, c, &cs[..k], true, true)?;
        let cut = cs[k - 1].time.0 + interval;
        note!(ch, "cut after {k}: {}", fail_positions(&s));
        for (i, x) in s.positions.iter().enumerate() {
            let q = pos(x);
            if q.reason != CloseReason::Cancelled {
                ensure!(i < full_prints.len() && full_prints[i] == pos_print(x), "position {i} differs when the history is cut after {k} candles: {} instead of {}", show(x), full.positions.get(i).map(show).unwrap_or_default());
            } else {
                ensure!(i == s.positions.len() - 1 && q.close_time == cut, "cancelled before the cut");
                ensure!(i < full.positions.len(), "a position is open at the cut after {k} that the whole history never opens");
                let f = pos(&full.positions[i]);
                ensure!(
                    f.long == q.long && f.open_time == q.open_time && f.open.size.to_bits() == q.open.size.to_bits()
                        && f.open.quote.to_bits() == q.open.quote.to_bits() && f.open.fee.to_bits() == q.open.fee.to_bits()
                        && f.collateral.to_bits() == q.collateral.to_bits() && f.borrowed.to_bits() == q.borrowed.to_bits(),
                    "the position open at the cut after {k} differs: {} instead of {}", show(x), show(&full.positions[i])
                );
                ensure!(f.close_time > cut, "open at the cut after {k} candles, but closed by then in the whole history");
                ch.hit("cuts with an open position");
            }
        }
        for (i, x) in full.positions.iter().enumerate() {
            let f = pos(x);
            if f.open_time <= cut {
                ensure!(i < s.positions.len(), "position {i} is missing when the history is cut after {k} candles");
            }
        }
    }
    Ok(())
}

fn c07(run: &mut Run) {
    run.assume("time shifts are whole weeks for strategies that aggregate candles and whole days otherwise");
    let strategies = more_strategies();
    let sls = stop_losses();
    let tps = take_profits();
    let cfg = vec![Cfg::BASE, Cfg { min: 1.0, step: 1.0, quote: 21.0, taker: 0.05, bp: 2, qp: 2, ..Cfg::BASE }];
    let prices = [10.0, 13.0, 8.0];
    let depth = run.deep(8, 9);
    run.section(
        "prefixes",
        &format!("14 strategies x 5 stop losses x 4 take profits x 2 configurations x all sequences of {depth} closes over 3 prices x every cut"),
        |ch| {
            let (_, strategy) = *ch.of(&strategies);
            let sl = *ch.of(&sls);
            let tp = *ch.of(&tps);
            let c = ch.of(&cfg).clone();
            let closes: Vec<f64> = (0..depth).map(|_| *ch.of(&prices)).collect();
            let cs = candles(0, HOUR, &closes);
            let p = params(strategy, HOUR, sl, tp);
            note!(ch, "{p:?} {closes:?}");
            let full = run_guarded(&p, &c, &cs, true, true)?;
            check_prefixes(ch, &p, &c, &cs, &full)?;
            ch.state(full.positions.iter().flat_map(pos_print).fold(H::new(), |h, v| h.u(v)).get());
            ch.trans(cs.len() * cs.len() / 2);
            ch.validated();
            Ok(())
        },
    );
    let len = run.deep(60, 120);
    run.section(
        "prefixes of lassos",
        &format!("14 strategies x 5 stop losses x 4 take profits x prefix 1 + loop 3 over 3 prices to {len} candles x every cut"),
        |ch| {
            let (_, strategy) = *ch.of(&strategies);
            let sl = *ch.of(&sls);
            let tp = *ch.of(&tps);
            let mut closes: Vec<f64> = vec![*ch.of(&prices)];
            let l: Vec<f64> = (0..3).map(|_| *ch.of(&prices)).collect();
            while closes.len() < len {
                closes.extend(&l);
            }
            let cs = candles(0, HOUR, &closes);
            let p = params(strategy, HOUR, sl, tp);
            note!(ch, "{p:?} loop {l:?}");
            let full = run_guarded(&p, &Cfg::BASE, &cs, true, true)?;
            check_prefixes(ch, &p, &Cfg::BASE, &cs, &full)?;
            ch.trans(cs.len() * cs.len() / 2);
            ch.validated();
            Ok(())
        },
    );
    // Time shifts.
    let shifts = [DAY, 7 * DAY, 52 * 7 * DAY, 19_000 * DAY / (7 * DAY) * 7 * DAY, 365 * DAY];
    run.section(
        "shifts",
        &format!("14 strategies x 5 stop losses x 4 take profits x 5 shifts x all sequences of {depth} closes over 3 prices"),
        |ch| {
            let (name, strategy) = *ch.of(&strategies);
            let sl = *ch.of(&sls);
            let tp = *ch.of(&tps);
            let shift = *ch.of(&shifts);
            if name.starts_with("buffered") && shift % (7 * DAY) != 0 {
                return Err(Stop::Prune);
            }
            let closes: Vec<f64> = (0..depth).map(|_| *ch.of(&prices)).collect();
            let p = params(strategy, HOUR, sl, tp);
            note!(ch, "{p:?} {closes:?} shift {shift}");
            let a = run_guarded(&p, &Cfg::BASE, &candles(0, HOUR, &closes), true, true)?;
            let b = run_guarded(&p, &Cfg::BASE, &candles(shift, HOUR, &closes), true, true)?;
            want("shifted start", b.start.0, a.start.0 + shift)?;
            want("shifted end", b.end.0, a.end.0 + shift)?;
            want("number of positions", b.positions.len(), a.positions.len())?;
            for (x, y) in a.positions.iter().zip(&b.positions) {
                let (mut u, v) = (pos_print(x), pos_print(y));
                u[1] += shift;
                u[2] += shift;
                ensure!(u == v, "shifted position {} instead of {}", show(y), show(x));
            }
            ch.state(H::new().u(shift).u(a.positions.len() as u64).f(closes[depth - 1]).get());
            ch.trans(2 * cs_len(&closes));
            ch.validated();
            Ok(())
        },
    );
    // Repetition, with every other backtest in between: nothing leaks from one to the next.
    let short = [10.0, 13.0, 8.0];
    run.section(
        "repetition",
        "every ordered pair out of 14 strategies x 3 exits x 9 histories: A, B, A again, and A again on two other threads at once",
        |ch| {
            let mut choose = |ch: &mut Ch| {
                let (_, strategy) = *ch.of(&strategies);
                let (sl, tp) = *ch.of(&[(NO_SL, NO_TP), (sl_trailing(0.2, 0.1), tp_legacy(0.15)), (sl_legacy(0.12, true), tp_trending((0.1, 0.4), (0.05, 0.3), 1, true, "BackIn"))]);
                let l: Vec<f64> = (0..2).map(|_| *ch.of(&short)).collect();
                let mut closes = vec![9.0];
                for _ in 0..12 {
                    closes.extend(&l);
                    closes.push(11.0);
                }
                (params(strategy, HOUR, sl, tp), candles(0, HOUR, &closes))
            };
            let (pa, ca) = choose(ch);
            let (pb, cb) = choose(ch);
            note!(ch, "A {pa:?} B {pb:?}");
            let first = fingerprint(&run_guarded(&pa, &Cfg::BASE, &ca, true, true)?);
            let _ = run_guarded(&pb, &cfg[1], &cb, true, false)?;
            let again = fingerprint(&run_guarded(&pa, &Cfg::BASE, &ca, true, true)?);
            ensure!(first == again, "the same backtest differs after another one");
            ch.state(first.iter().fold(H::new(), |h, v| h.u(*v)).get());
            ch.trans(3 * ca.len());
            ch.validated();
            Ok(())
        },
    );
    // Concurrent runs: free-running threads (the backtest has no synchronisation of its own).
    run.section_n("concurrency", "14 strategies x 5 stop losses x 4 take profits: 8 free-running threads each, compared with the sequential run", 1, |ch| {
        let (_, strategy) = *ch.of(&strategies);
        let sl = *ch.of(&sls);
        let tp = *ch.of(&tps);
        let closes: Vec<f64> = (0..90).map(|i| [10.0, 13.0, 8.0, 9.5, 12.0][(i * i + i / 3) % 5]).collect();
        let p = params(strategy, HOUR, sl, tp);
        let cs = candles(0, HOUR, &closes);
        note!(ch, "{p:?}");
        let first = fingerprint(&run_guarded(&p, &Cfg::BASE, &cs, true, true)?);
        let bad = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| s.spawn(|| guarded(|| fingerprint(&mc::tkit::run(&p, &Cfg::BASE, &cs, true, true)))))
                .collect();
            hs.into_iter().filter(|_| true).map(|h| h.join().unwrap()).any(|r| r.as_ref() != Ok(&first))
        });
        ensure!(!bad, "a concurrent run differs from the sequential one");
        ch.state(first.iter().fold(H::new(), |h, v| h.u(*v)).get());
        ch.trans(9 * cs.len());
        ch.validated();
        Ok(())
    });
    processes(run);
}

/// A backtest and everything it depends on.
struct Case {
    params: TradingParams,
    cfg: Cfg,
    candles: Vec<Candle>,
    sides: (bool, bool),
}

/// The values that differ from `v` in a single leaf.
fn neighbours_of(v: &serde_json::Value) -> Vec<serde_json::Value> {
    use serde_json::{json, Value};
    match v {
        Value::Number(n) => match n.as_u64() {
            Some(n) => vec![json!(n + 1), json!(n.saturating_sub(1)), json!(2 * n)],
            None => {
                let f = n.as_f64().unwrap();
                vec![json!(f * 1.25), json!(f * 0.5)]
            }
        },
        Value::Bool(b) => vec![json!(!b)],
        Value::Array(a) => (0..a.len())
            .flat_map(|i| {
                neighbours_of(&a[i]).into_iter().map(move |x| {
                    let mut a = a.clone();
                    a[i] = x;
                    Value::Array(a)
                })
            })
            .collect(),
        Value::Object(o) => o
            .iter()
            .flat_map(|(k, x)| {
                neighbours_of(x).into_iter().map(move |x| {
                    let mut o = o.clone();
                    o.insert(k.clone(), x);
                    Value::Object(o)
                })
            })
            .collect(),
        Value::String(s) => match s.as_str() {
            "Enforce" => vec![json!("Prevent")],
            "Current" => vec![json!("Ignore")],
            "Ignore" => vec![json!("Current")],
            "BackIn" => vec![json!("Linear"), json!("BackOut"), json!("BackInOut")],
            _ => vec![],
        },
        Value::Null => vec![json!(2)],
    }
}

fn cases() -> Vec<Case> {
    use serde_json::{from_value, json, to_value};
    let mut closes = vec![];
    for i in 0..160usize {
        // Waves of many lengths, so that small differences in parameters show.
        closes.push(10.0 + 2.0 * (i as f64 / 3.0).sin() + 1.5 * (i as f64 / 1.7).sin() + (i as f64 * i as f64 / 7.0).sin());
    }
    let cs = candles(0, HOUR, &closes);
    let mut bases: Vec<serde_json::Value> = vec![];
    for (_, s) in more_strategies() {
        bases.push(to_value(params(s, HOUR, sl_both(0.3, 0.3, 0.2, 0.2), tp_legacy(0.4))).unwrap());
    }
    let with_ma = |ma: serde_json::Value| {
        let mut v = to_value(params(up_down(), HOUR, NO_SL, NO_TP)).unwrap();
        v["strategy"] = json!({"type": "SingleMA", "ma": ma});
        v
    };
    for ma in [
        json!({"type": "Alma", "period": 4, "offset": 0.85, "sigma": 2}),
        json!({"type": "Alma", "period": 5, "offset": 0.6, "sigma": null}),
        json!({"type": "Dema", "period": 3}),
        json!({"type": "Ema", "period": 3, "smoothing": null}),
        json!({"type": "Ema", "period": 3, "smoothing": 0.4}),
        json!({"type": "Ema2", "period": 3}),
        json!({"type": "Kama", "period": 3}),
        json!({"type": "Sma", "period": 3}),
        json!({"type": "Smma", "period": 3}),
    ] {
        bases.push(with_ma(ma));
    }
    for sl in stop_losses() {
        bases.push(to_value(params(up_down(), HOUR, sl, NO_TP)).unwrap());
    }
    for tp in take_profits() {
        bases.push(to_value(params(up_down(), HOUR, NO_SL, tp)).unwrap());
    }
    bases.push(to_value(params(up_down(), HOUR, NO_SL, tp_trending((0.1, 0.4), (0.05, 0.3), 3, true, "BackIn"))).unwrap());
    let mut all: Vec<serde_json::Value> = vec![];
    for b in bases {
        all.push(b.clone());
        for n in neighbours_of(&b) {
            // The interval is that of the candles.
            if n["trader"]["interval"] == b["trader"]["interval"] {
                all.push(n);
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    all.retain(|v| seen.insert(v.to_string()));
    let mut out: Vec<Case> = vec![];
    for v in all {
        let Ok(params) = from_value::<TradingParams>(v) else { continue };
        out.push(Case { params, cfg: Cfg { taker: 0.01, ..Cfg::BASE }, candles: cs.clone(), sides: (true, true) });
    }
    let p = || params(up_down(), HOUR, NO_SL, NO_TP);
    let mut more = cfgs();
    more.push(Cfg { mult: 3, ..Cfg::BASE });
    more.push(Cfg { interest_interval: 2 * HOUR, ..Cfg::BASE });
    for cfg in more {
        for sides in [(true, true), (true, false), (false, true)] {
            out.push(Case { params: p(), cfg: cfg.clone(), candles: cs.clone(), sides });
        }
    }
    for shift in [DAY, 3 * HOUR + 1] {
        out.push(Case { params: p(), cfg: Cfg::BASE, candles: candles(shift, HOUR, &closes), sides: (true, true) });
    }
    for n in [0, 1, 159] {
        out.push(Case { params: p(), cfg: Cfg::BASE, candles: cs[..n].to_vec(), sides: (true, true) });
    }
    out
}

fn outcome(c: &Case) -> u64 {
    let s = mc::tkit::run(&c.params, &c.cfg, &c.candles, c.sides.0, c.sides.1);
    fingerprint(&s).iter().fold(H::new(), |h, v| h.u(*v)).get()
}

/// The outcome of one case, in a process that runs nothing else.
fn fresh(k: usize) -> Result<u64, String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--fresh", &k.to_string()])
        .output()
        .map_err(|e| e.to_string())?;
    String::from_utf8_lossy(&o.stdout).trim().parse().map_err(|_| String::from_utf8_lossy(&o.stderr).to_string())
}

fn processes(run: &mut Run) {
    let all = cases();
    // What cannot be constructed is no backtest.
    let able: Vec<usize> = (0..all.len()).filter(|&k| guarded(|| outcome(&all[k])).is_ok()).collect();
    let n = able.len();
    let alone: Vec<std::sync::OnceLock<Result<u64, String>>> = all.iter().map(|_| Default::default()).collect();
    let (all, alone, able) = (&all, &alone, &able);
    let bound = format!("every ordered pair of {n} backtests (30 strategies, averages and exits and all that differ from one of them in a single parameter; 17 account configurations, sides, histories): the second after the first on one thread of a process that has run many others, compared with a process of its own that runs nothing else");
    run.section("processes", &bound, |ch| {
        let (a, b) = (*ch.of(able), *ch.of(able));
        let expected = alone[b].get_or_init(|| fresh(b)).clone().map_err(|e| Stop::Fail(format!("a process of its own does not complete it: {e}")))?;
        let first = std::thread::scope(|s| {
            s.spawn(|| {
                let _ = guarded(|| outcome(&all[a]));
                guarded(|| outcome(&all[b]))
            })
            .join()
            .unwrap()
        });
        note!(ch, "{:?} {:?} after {:?} {:?}", all[b].params, all[b].cfg, all[a].params, all[a].cfg);
        ensure!(first == Ok(expected), "the backtest differs from the same one in a process of its own");
        ch.state(expected);
        ch.trans(all[a].candles.len() + all[b].candles.len());
        ch.validated();
        Ok(())
    });
}

fn cs_len(c: &[f64]) -> usize {
    c.len()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--fresh") {
        println!("{}", outcome(&cases()[args[2].parse::<usize>().unwrap()]));
        return;
    }
    main_with(&[("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C07", c07)])
}
