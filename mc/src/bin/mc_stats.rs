//! C15–C17: statistics of trading summaries.
use juno::statistics::*;
use juno::trading::*;
use juno::{Fill, Interval, Timestamp};
use mc::tkit::*;
use mc::util::*;
use mc::*;
use std::collections::HashMap;

const YEAR: f64 = 31_556_952_000.0;
const REASONS: [CloseReason; 4] = [CloseReason::Strategy, CloseReason::StopLoss, CloseReason::TakeProfit, CloseReason::Cancelled];

fn fill(price: f64, size: f64, quote: f64, fee: f64) -> [Fill; 1] {
    [Fill { price, size, quote, fee }]
}

/// A position with the given profit; the fees are part of it.
fn position(long: bool, profit: f64, times: (u64, u64), reason: CloseReason, k: usize) -> Position {
    let (open_time, close_time) = (Timestamp(times.0), Timestamp(times.1));
    let quote = [8.0, 3.0, 16.0][k % 3];
    if long {
        Position::Long(LongPosition {
            open_time,
            open_fills: fill(2.0, quote / 2.0, quote, 0.25),
            close_time,
            close_fills: fill(2.0, quote / 2.0 - 0.25, quote + profit + 0.5, 0.5),
            close_reason: reason,
        })
    } else {
        Position::Short(ShortPosition {
            open_time,
            collateral: 6.0,
            borrowed: 1.5,
            open_fills: fill(4.0, 1.5, quote, 0.5),
            close_time,
            close_fills: fill(4.0, 1.75, quote - 0.5 - profit, 0.25),
            close_reason: reason,
        })
    }
}

/// Profit of a position, from its fills.
fn flow(p: &Pos) -> f64 {
    balance_after(p, 0.0)
}

fn same(what: &str, got: f64, want: f64) -> Res {
    ensure!(got == want && got.is_finite() || got.is_nan() == want.is_nan() && close(got, want, 1e-9, 1e-12), "{what} is {got} instead of {want}");
    Ok(())
}

fn annual(duration: u64, roi: f64) -> Option<f64> {
    if duration == 0 {
        return Some(0.0);
    }
    let v = (1.0 + roi).powf(YEAR / duration as f64) - 1.0;
    if 1.0 + roi < 0.0 {
        // The root of a loss of more than everything is undefined unless its exponent is whole.
        return (!v.is_nan()).then_some(f64::NAN).map_or(Some(0.0), |_| None);
    }
    Some(if v.is_nan() { 0.0 } else { v })
}

fn check_annual(what: &str, got: f64, duration: u64, roi: f64) -> Res {
    match annual(duration, roi) {
        None => Ok(()),
        // A large exponent amplifies the error of its base.
        Some(w) => {
            let amplify = YEAR / duration.max(1) as f64;
            ensure!(
                got == w || close(got, w, 1e-9 + 1e-14 * amplify, 1e-9) || amplify > 1e9,
                "{what} is {got} instead of {w}"
            );
            Ok(())
        }
    }
}

fn check_core(s: &TradingSummary) -> Res {
    let c = guarded(|| CoreStatistics::compose(s)).map_err(|e| Stop::Fail(format!("panicked: {e}")))?;
    let ps: Vec<Pos> = s.positions.iter().map(pos).collect();
    let flows: Vec<f64> = ps.iter().map(flow).collect();
    let profit: f64 = flows.iter().sum();
    let n = ps.len();
    want("start", c.start, s.start)?;
    want("end", c.end, s.end)?;
    want("duration", c.duration.0, s.end.0 - s.start.0)?;
    same("cost", c.cost, s.quote)?;
    same("profit", c.profit, profit)?;
    same("gain", c.gain, s.quote + profit)?;
    same("return", c.roi, profit / s.quote)?;
    check_annual("annualised return", c.annualized_roi, s.end.0 - s.start.0, profit / s.quote)?;
    same("mean profit", c.mean_position_profit, if n == 0 { 0.0 } else { profit / n as f64 })?;
    let total: u64 = ps.iter().map(|p| p.close_time - p.open_time).sum();
    let mean = if n == 0 { 0.0 } else { total as f64 / n as f64 };
    ensure!((c.mean_position_duration.0 as f64 - mean).abs() < 1.0, "mean duration is {} instead of {mean}", c.mean_position_duration.0);
    want("number of positions", c.num_positions as usize, n)?;
    // A profit that is zero but for rounding may count as either.
    let clear = flows.iter().all(|f| *f == 0.0 && few(s.quote) || f.abs() > 1e-9);
    if clear {
        want("positions in profit", c.num_positions_in_profit as usize, flows.iter().filter(|f| **f >= 0.0).count())?;
        want("positions in loss", c.num_positions_in_loss as usize, flows.iter().filter(|f| **f < 0.0).count())?;
    }
    want("winners and losers", c.num_positions_in_profit + c.num_positions_in_loss, c.num_positions)?;
    want("stop losses", c.num_stop_losses as usize, ps.iter().filter(|p| p.reason == CloseReason::StopLoss).count())?;
    want("take profits", c.num_take_profits as usize, ps.iter().filter(|p| p.reason == CloseReason::TakeProfit).count())?;
    // Balance after each position; drawdown from the highest so far.
    let balances: Vec<f64> = (0..=n).map(|k| s.quote + flows[..k].iter().sum::<f64>()).collect();
    let dd: Vec<f64> = (1..=n)
        .map(|k| {
            let peak = balances[..=k].iter().cloned().fold(f64::MIN, f64::max);
            (peak - balances[k]) / peak
        })
        .collect();
    let max = dd.iter().cloned().fold(0.0, f64::max);
    same("maximum drawdown", c.max_drawdown, max)?;
    same("mean drawdown", c.mean_drawdown, if n == 0 { 0.0 } else { dd.iter().sum::<f64>() / n as f64 })?;
    if max == 0.0 || max > 1e-6 {
        same("return over maximum drawdown", c.return_over_max_drawdown, if max == 0.0 { 0.0 } else { profit / s.quote / max })?;
    }
    ensure!(c.max_drawdown >= 0.0, "maximum drawdown {}", c.max_drawdown);

    for (p, x) in s.positions.iter().zip(&ps) {
        let st = guarded(|| PositionStatistics::compose(p)).map_err(|e| Stop::Fail(format!("panicked: {e}")))?;
        check_position(p, x, &st)?;
    }
    Ok(())
}
fn check_position(p: &Position, x: &Pos, st: &PositionStatistics) -> Res {
    {
        let cost = if x.long { x.open.quote } else { x.collateral };
        ensure!(matches!(st.type_, PositionType::Long) == x.long, "kind of {}", show(p));
        want("open time", st.open_time.0, x.open_time)?;
        want("close time", st.close_time.0, x.close_time)?;
        want("duration of a position", st.duration.0, x.close_time - x.open_time)?;
        want("close reason", st.close_reason, x.reason)?;
        same("cost of a position", st.cost, cost)?;
        same("profit of a position", st.profit, flow(x))?;
        same("gain of a position", st.gain, cost + flow(x))?;
        same("return of a position", st.roi, flow(x) / cost)?;
        check_annual("annualised return of a position", st.annualized_roi, x.close_time - x.open_time, flow(x) / cost)?;
    }
    Ok(())
}

/// The whole: core statistics, and those of every position in order.
fn check_whole(s: &TradingSummary) -> Res {
    check_core(s)?;
    let days = ((s.end.0 / DAY) - s.start.0 / DAY) as usize;
    let prices = HashMap::from([("aa".to_string(), vec![2.0; days + 1]), ("bbb".to_string(), vec![1.0; days + 1])]);
    let all = guarded(|| Statistics::compose(s, SYMBOL, &prices, Interval(DAY))).map_err(|e| Stop::Fail(format!("panicked: {e}")))?;
    ensure!(all.core == CoreStatistics::compose(s) || all.core.annualized_roi.is_nan(), "the core statistics {:?} are other than {:?}", all.core, CoreStatistics::compose(s));
    want("statistics of positions", all.positions.len(), s.positions.len())?;
    for (st, p) in all.positions.iter().zip(&s.positions) {
        check_position(p, &pos(p), st)?;
    }
    Ok(())
}

fn summary(start: u64, end: u64, quote: f64, positions: Vec<Position>) -> TradingSummary {
    let mut s = TradingSummary::new(Timestamp(start), Timestamp(end), quote);
    s.positions = positions;
    s
}

fn show_all(s: &TradingSummary) -> String {
    format!("{}..{} from {}: {}", s.start.0, s.end.0, s.quote, s.positions.iter().map(show).collect::<Vec<_>>().join("; "))
}

fn digest_core(ch: &mut Ch, s: &TradingSummary) {
    let h = s.positions.iter().map(pos).fold(H::new(), |h, p| h.f(flow(&p)).u(p.reason as u64).u(p.long as u64));
    ch.state(h.get());
    ch.trans(s.positions.len());
    ch.validated();
}

/// Real runs: every sequence of closes with some strategies and exits.
fn traded(ch: &mut Ch, depth: usize) -> Result<(TradingSummary, Vec<juno::Candle>, u64), Stop> {
    let interval = *ch.of(&[6 * HOUR, 12 * HOUR, DAY]);
    let (_, strategy) = *ch.of(&strategies()[..4]);
    let sl = *ch.of(&[NO_SL, sl_basic(0.15, 0.15), sl_both(0.3, 0.25, 0.1, 0.15)]);
    let tp = *ch.of(&[NO_TP, tp_basic(0.25, 0.2)]);
    let start = 18_000 * DAY + *ch.of(&[0, 1, 3]) * interval;
    let c = ch.of(&[Cfg::BASE, Cfg { taker: 0.3, ..Cfg::BASE }]).clone();
    let closes: Vec<f64> = (0..depth).map(|_| *ch.of(&[10.0, 14.0, 7.0])).collect();
    let cs = candles(start, interval, &closes);
    let p = params(strategy, interval, sl, tp);
    note!(ch, "{p:?} {closes:?}");
    let s = guarded(|| run(&p, &c, &cs, true, true)).map_err(Stop::Fail)?;
    Ok((s, cs, interval))
}

fn c15(run: &mut Run) {
    run.assume("the starting balance is positive; the annualised loss of more than everything is only judged when undefined");
    let profits = [0.0, 1.0, -1.0, 4.0, -2.5];
    let depth = run.deep(5, 6);
    run.section("profits", &format!("every list of up to {depth} long or short positions with profits out of 5, from balances 4 (ruin) and 32"), |ch| {
        let n = ch.pick(depth + 1);
        let quote = *ch.of(&[4.0, 32.0]);
        let ps = (0..n)
            .map(|k| {
                let profit = *ch.of(&profits);
                let t = 1000 + k as u64 * 3_600_001;
                position(ch.flag(), profit, (t, t + 1 + k as u64 * 7), CloseReason::Strategy, k)
            })
            .collect();
        let s = summary(0, n as u64 * 86_400_000 + 5, quote, ps);
        note!(ch, "{}", show_all(&s));
        check_core(&s)?;
        digest_core(ch, &s);
        Ok(())
    });
    let rd = run.deep(3, 4);
    run.section("reasons and times", &format!("every list of up to {rd} positions with 4 close reasons, 4 durations, 3 profits, 2 kinds; run durations from none to years"), |ch| {
        let n = ch.pick(rd + 1);
        let mut t = *ch.of(&[0, 1_577_836_800_000]);
        let start = t;
        let mut ps = vec![];
        for k in 0..n {
            let d = *ch.of(&[1, 60_000, DAY, 40_000_000_000]);
            let (profit, reason, long) = (*ch.of(&[0.0, 2.0, -2.0]), *ch.of(&REASONS), ch.flag());
            ps.push(position(long, profit, (t, t + d), reason, k));
            t += d;
        }
        let s = summary(start, t + *ch.of(&[0, 31_556_952_000]), 16.0, ps);
        note!(ch, "{}", show_all(&s));
        check_core(&s)?;
        digest_core(ch, &s);
        Ok(())
    });
    let td = run.deep(8, 10);
    run.section("traded", &format!("summaries of real runs: 4 strategies x 3 stop losses x 2 take profits x 3 intervals x 2 fees x every sequence of {td} closes out of 3"), |ch| {
        let (s, _, _) = traded(ch, td)?;
        note!(ch, "{}", show_all(&s));
        check_core(&s)?;
        digest_core(ch, &s);
        Ok(())
    });
    let most = run.deep(300, 2000);
    run.section("long", &format!("lists of 1 to {most} positions that repeat every stem of up to 1 and loop of up to 3 out of 3 profits, 2 kinds, 2 reasons and durations by their place, with the positions reported one by one"), |ch| {
        let n = *ch.of(&[1, 2, 3, 7, 40, 127, 128, 129, most]);
        let shape: Vec<(f64, bool, CloseReason, u64)> = (0..1 + ch.pick(3)).map(|k| (*ch.of(&[1.0, -0.5, 0.0]), ch.flag(), *ch.of(&[REASONS[k], REASONS[k + 1]]), [DAY, 7 * HOUR + 1, 50 * HOUR][k])).collect();
        let first = *ch.of(&[None, Some((64.0, 40 * DAY)), Some((-2.0, HOUR))]);
        let mut t = 17_000 * DAY + 5;
        let start = t;
        let mut ps = vec![];
        for k in 0..n {
            let (profit, long, reason, d) = shape[k % shape.len()];
            let (profit, d) = if k == 0 { first.unwrap_or((profit, d)) } else { (profit, d) };
            ps.push(position(long, profit, (t, t + d), reason, k));
            t += d + (k as u64 % 3) * HOUR;
        }
        let s = summary(start, t + HOUR, 2048.0, ps);
        note!(ch, "{n} of {shape:?} after {first:?}");
        check_whole(&s)?;
        digest_core(ch, &s);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// Equity at the start and at every period close, from the fills.
fn curve(s: &TradingSummary, base: &[f64], quote: &[f64], interval: u64) -> Vec<f64> {
    let first = s.start.0 - s.start.0 % interval;
    let periods = (s.end.0 - s.end.0 % interval - first) / interval;
    let mut v = vec![s.quote * quote[0]];
    for k in 1..=periods {
        let until = first + k * interval;
        let (mut b, mut q) = (0.0, s.quote);
        for p in s.positions.iter().map(pos) {
            if p.open_time < until {
                if p.long {
                    q -= p.open.quote;
                    b += p.open.size - p.open.fee;
                } else {
                    q += p.open.quote - p.open.fee;
                    b -= p.borrowed;
                }
            }
            if p.close_time < until {
                if p.long {
                    q += p.close.quote - p.close.fee;
                    b -= p.close.size;
                } else {
                    q -= p.close.quote;
                    b += p.borrowed;
                }
            }
        }
        v.push(b * base[k as usize] + q * quote[k as usize]);
    }
    v
}

fn deviation(v: &[f64]) -> f64 {
    let m = v.iter().sum::<f64>() / v.len() as f64;
    (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / v.len() as f64).sqrt()
}

enum Ratio {
    Zero,
    /// And what rounding may make of it.
    Value(f64, f64),
    /// The risk is zero but for rounding.
    Unclear,
}

fn ratio(returns: &[f64], risky: &[f64]) -> Ratio {
    let sum: f64 = returns.iter().sum();
    let size: f64 = returns.iter().map(|x| x.abs()).sum();
    if returns.is_empty() || !sum.is_finite() || risky.is_empty() || size == 0.0 {
        return Ratio::Zero;
    }
    if risky.iter().all(|x| *x == risky[0]) && risky.len().is_power_of_two() {
        return Ratio::Zero;
    }
    let dev = deviation(risky);
    let scale = risky.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    if dev < 1e-6 * scale {
        return Ratio::Unclear;
    }
    let of = |sum: f64| 365.0 * sum / returns.len() as f64 / (365f64.sqrt() * dev);
    Ratio::Value(of(sum), of(1e-12 * size) + 1e-9)
}

fn check_ratio(what: &str, got: f64, want: &Ratio) -> Res {
    ensure!(got.is_finite(), "the {what} is {got}");
    match want {
        Ratio::Zero => ensure!(got == 0.0, "the {what} is {got} though its risk is zero or undefined"),
        Ratio::Value(v, e) => ensure!(close(got, *v, 1e-7, *e), "the {what} is {got} instead of {v}"),
        Ratio::Unclear => {}
    }
    Ok(())
}

struct Case {
    s: TradingSummary,
    prices: HashMap<String, Vec<f64>>,
    interval: u64,
}

impl Case {
    fn new(s: TradingSummary, base: Vec<f64>, quote: Vec<f64>, interval: u64) -> Self {
        let mut prices = HashMap::with_capacity(3);
        // Prices of another asset, of another length, must not matter.
        prices.insert("zzz".to_string(), vec![3.0]);
        prices.insert("aa".to_string(), base);
        prices.insert("bbb".to_string(), quote);
        Case { s, prices, interval }
    }
    fn returns(&self) -> (Vec<f64>, Vec<f64>) {
        let e = curve(&self.s, &self.prices["aa"], &self.prices["bbb"], self.interval);
        let r = e.windows(2).map(|w| (w[1] / w[0]).ln()).collect();
        (e, r)
    }
}

const SYMBOL: &str = "aa-bbb";

fn check_extended(ch: &mut Ch, c: &Case) -> Res {
    let x = guarded(|| ExtendedStatistics::compose(&c.s, SYMBOL, &c.prices, Interval(c.interval))).map_err(|e| Stop::Fail(format!("panicked: {e}")))?;
    let (e, r) = c.returns();
    note!(ch, "{} | prices {:?} | equity {e:?} | annualised {} sharpe {} sortino {}", show_all(&c.s), c.prices, x.annualized_return, x.sharpe_ratio, x.sortino_ratio);
    let n = r.len() as f64;
    let sum: f64 = r.iter().sum();
    // Equity that is nothing but for rounding decides between finite and infinite.
    let unclear = e.iter().any(|v| v.abs() < 1e-9 * c.s.quote && *v != 0.0);
    if unclear {
        ch.hit("wiped out but for rounding");
        check_ratio("Sharpe ratio", x.sharpe_ratio, &Ratio::Unclear)?;
        check_ratio("Sortino ratio", x.sortino_ratio, &Ratio::Unclear)?;
    } else {
        if !r.is_empty() {
            let want = 365.0 * sum / n;
            let size: f64 = r.iter().map(|x| x.abs()).sum();
            ensure!(
                x.annualized_return == want || x.annualized_return.is_nan() && want.is_nan() || close(x.annualized_return, want, 1e-9, 1e-9 * size.max(1e-3)),
                "the annualised return is {} instead of {want}", x.annualized_return
            );
        }
        let neg: Vec<f64> = r.iter().cloned().filter(|v| *v < 0.0).collect();
        // A return that is zero but for rounding may count as negative.
        let tiny = r.iter().any(|v| *v != 0.0 && v.abs() < 1e-12);
        let sharpe = ratio(&r, &r);
        let sortino = if tiny { Ratio::Unclear } else { ratio(&r, &neg) };
        check_ratio("Sharpe ratio", x.sharpe_ratio, &sharpe)?;
        check_ratio("Sortino ratio", x.sortino_ratio, &sortino)?;
        match sharpe {
            Ratio::Zero => ch.hit("no Sharpe ratio"),
            Ratio::Value(..) => ch.hit("Sharpe ratio"),
            Ratio::Unclear => ch.hit("unclear Sharpe ratio"),
        }
        match sortino {
            Ratio::Zero => ch.hit("no Sortino ratio"),
            Ratio::Value(..) => ch.hit("Sortino ratio"),
            Ratio::Unclear => ch.hit("unclear Sortino ratio"),
        }
    }
    ch.state(e.iter().fold(H::new(), |h, v| h.f(*v)).get());
    ch.trans(e.len());
    ch.validated();
    Ok(())
}

fn check_fast(ch: &mut Ch, c: &Case) -> Res {
    let i = Interval(c.interval);
    let full = guarded(|| Statistics::compose(&c.s, SYMBOL, &c.prices, i)).map_err(|e| Stop::Fail(format!("full statistics panicked: {e}")))?;
    let profit = guarded(|| get_profit(&c.s)).map_err(|e| Stop::Fail(format!("profit panicked: {e}")))?;
    let rodd = guarded(|| get_return_over_max_drawdown(&c.s)).map_err(|e| Stop::Fail(format!("return over drawdown panicked: {e}")))?;
    let sharpe = guarded(|| get_sharpe_ratio(&c.s, SYMBOL, &c.prices, i)).map_err(|e| Stop::Fail(format!("Sharpe ratio panicked: {e}")))?;
    let sortino = guarded(|| get_sortino_ratio(&c.s, SYMBOL, &c.prices, i)).map_err(|e| Stop::Fail(format!("Sortino ratio panicked: {e}")))?;
    note!(ch, "{} | prices {:?} | quick: {profit} {rodd} {sharpe} {sortino}", show_all(&c.s), c.prices);
    ensure!(close(profit, full.core.profit, 1e-12, 1e-12), "quick profit {profit}, reported {}", full.core.profit);
    ensure!(close(rodd, full.core.return_over_max_drawdown, 1e-9, 1e-12) || full.core.max_drawdown.abs() < 1e-9 && full.core.max_drawdown != 0.0,
        "quick return over maximum drawdown {rodd}, reported {}", full.core.return_over_max_drawdown);
    ensure!(rodd.is_finite(), "the return over maximum drawdown is {rodd}");
    let (e, r) = c.returns();
    let unclear = e.iter().any(|v| v.abs() < 1e-9 * c.s.quote && *v != 0.0);
    let neg: Vec<f64> = r.iter().cloned().filter(|v| *v < 0.0).collect();
    let tiny = r.iter().any(|v| *v != 0.0 && v.abs() < 1e-12);
    for (what, fast, full, r) in [
        ("Sharpe ratio", sharpe, full.extended.sharpe_ratio, ratio(&r, &r)),
        ("Sortino ratio", sortino, full.extended.sortino_ratio, if tiny { Ratio::Unclear } else { ratio(&r, &neg) }),
    ] {
        ensure!(fast.is_finite() && full.is_finite(), "the {what} is {fast}, reported {full}");
        if matches!(r, Ratio::Unclear) || unclear {
            ch.hit("risk zero but for rounding");
            continue;
        }
        let e = if let Ratio::Value(_, e) = r { e } else { 1e-12 };
        ensure!(close(fast, full, 1e-9, e), "the quick {what} is {fast}, reported {full}");
        ch.hit(if fast == 0.0 { "zero" } else { "ratio" });
    }
    ch.state(H::new().f(profit).f(rodd).f(sharpe).f(sortino).get());
    ch.trans(e.len());
    ch.validated();
    Ok(())
}

/// Made-up positions over a few periods; ticks of half a period.
fn made_up(ch: &mut Ch, max_positions: usize, max_periods: usize) -> Result<Case, Stop> {
    let periods = ch.pick(max_periods + 1);
    let interval = *ch.of(&[DAY, 10]);
    let first = 17_000 * DAY;
    let half = interval / 2;
    let start_off = ch.pick(2) as u64 * half;
    let end_off = ch.pick(2) as u64 * half;
    let (start, end) = (first + start_off, first + periods as u64 * interval + end_off);
    if end < start {
        return Err(Stop::Prune);
    }
    let mut base = vec![2.0];
    for _ in 0..periods {
        base.push(*ch.of(&[2.0, 4.0, 1.5]));
    }
    let quote = match ch.pick(2) {
        0 => vec![1.0; periods + 1],
        _ => (0..=periods).map(|k| [3.0, 4.0, 2.5, 3.5][k % 4]).collect(),
    };
    let ticks = (end - start) / half;
    let mut t = 0;
    let mut ps = vec![];
    // The next position opens at or after the previous close.
    for k in 0..max_positions {
        if t >= ticks || !ch.flag() {
            break;
        }
        let open = t + ch.pick((ticks - t) as usize) as u64;
        let close = open + 1 + ch.pick((ticks - open) as usize) as u64;
        t = close;
        let (long, profit) = *ch.of(&[(true, 4.0), (true, -3.0), (false, 3.0), (false, -4.0), (true, 0.0), (false, -16.0)]);
        ps.push(position(long, profit, (start + open * half, start + close * half), CloseReason::Strategy, k));
    }
    Ok(Case::new(summary(start, end, 16.0, ps), base, quote, interval))
}

fn traded_case(ch: &mut Ch, depth: usize) -> Result<Case, Stop> {
    let (s, cs, interval) = traded(ch, depth)?;
    let first = s.start.0 - s.start.0 % DAY;
    let days = (s.end.0 - s.end.0 % DAY - first) / DAY;
    let mut base = vec![cs[0].open];
    for d in 0..days {
        // Close of the last candle that ends within the day.
        let end = first + (d + 1) * DAY;
        let c = cs.iter().rev().find(|c| c.time.0 + interval <= end).unwrap_or(&cs[0]);
        base.push(c.close);
    }
    let quote = (0..=days).map(|k| [1.0, 1.25, 0.75][k as usize % 3]).collect();
    Ok(Case::new(s, base, quote, DAY))
}

/// No positions: the curve is that of the quote asset.
fn idle(ch: &mut Ch, depth: usize) -> Case {
    let n = ch.pick(depth + 1);
    let mut quote = vec![1.0];
    for _ in 0..n {
        let last = quote[quote.len() - 1];
        quote.push(last * *ch.of(&[1.0, 2.0, 0.5, 0.9]));
    }
    let rest = *ch.of(&[0, 1, DAY - 1]);
    Case::new(summary(50 * DAY, (50 + n as u64) * DAY + rest, 7.0, vec![]), vec![1.0; n + 1], quote, DAY)
}

fn ext(run: &mut Run, check: fn(&mut Ch, &Case) -> Res) {
    run.assume("one price per period and one for the opening; a ratio whose risk is zero but for rounding only has to be finite; without a single full period only the ratios are judged");
    let (mp, pp) = run.deep((2, 4), (3, 4));
    run.section("made up", &format!("up to {mp} positions (6 kinds) at every half period of 0..={pp} periods, aligned or not, x base prices out of 3 per period x steady or moving quote prices"), |ch| {
        let c = made_up(ch, mp, pp)?;
        check(ch, &c)
    });
    let td = run.deep(8, 10);
    run.section("traded", &format!("real runs: 4 strategies x 3 stop losses x 2 take profits x 3 intervals x 3 offsets x 2 fees x every sequence of {td} closes out of 3"), |ch| {
        let c = traded_case(ch, td)?;
        check(ch, &c)
    });
    run.section("instants", "periods of 10 ms: a run from any ms to any ms of 3 periods, one position (6 kinds) from any ms to any ms of it", |ch| {
        let first = 17_000 * DAY;
        let (start, end) = (ch.pick(10) as u64, ch.pick(30) as u64);
        if end < start {
            return Err(Stop::Prune);
        }
        let n = (end / 10) as usize;
        let open = start + ch.pick((end - start) as usize + 1) as u64;
        let close = open + ch.pick((end - open) as usize + 1) as u64;
        let (long, profit) = *ch.of(&[(true, 4.0), (true, -3.0), (false, 3.0), (false, -4.0), (true, 0.0), (false, -16.0)]);
        let p = position(long, profit, (first + open, first + close), CloseReason::Strategy, 0);
        let c = Case::new(summary(first + start, first + end, 16.0, vec![p]), vec![2.0, 4.0, 1.5][..=n].to_vec(), vec![3.0, 4.0, 2.5][..=n].to_vec(), 10);
        check(ch, &c)
    });
    let long: &[usize] = if run.thorough() { &[30, 365, 366, 1100] } else { &[30, 366] };
    run.section("long", &format!("runs of {long:?} days with a position every few days, repeating every loop of up to 3 of 4 kinds, 3 durations and 2 gaps, over prices that move or stay"), |ch| {
        let days = *ch.of(long);
        let shape: Vec<(bool, f64, u64, u64)> = (0..1 + ch.pick(3))
            .map(|_| {
                let (long, profit) = *ch.of(&[(true, 0.5), (true, -0.25), (false, 0.25), (false, -0.5)]);
                (long, profit, *ch.of(&[6 * HOUR, 30 * HOUR, 5 * DAY]), *ch.of(&[0, 25 * HOUR]))
            })
            .collect();
        let start = 17_000 * DAY + 7 * HOUR;
        let end = start + days as u64 * DAY;
        let (mut t, mut ps) = (start, vec![]);
        for k in 0.. {
            let (long, profit, d, gap) = shape[k % shape.len()];
            if t + d > end {
                break;
            }
            ps.push(position(long, profit, (t, t + d), CloseReason::Strategy, k));
            t += d + gap;
        }
        let moving = ch.flag();
        let base = (0..=days).map(|d| if moving { [2.0, 2.5, 1.75, 2.25, 1.5][d % 5] } else { 2.0 }).collect();
        let quote = (0..=days).map(|d| if moving { [1.0, 1.0, 1.25, 0.875][d % 4] } else { 1.0 }).collect();
        let c = Case::new(summary(start, end, 1024.0, ps), base, quote, DAY);
        check(ch, &c)
    });
    let d = run.deep(8, 9);
    run.section("idle", &format!("no positions: every sequence of up to {d} relative quote prices out of 4"), |ch| {
        let c = idle(ch, d);
        check(ch, &c)
    });
}

fn c16(run: &mut Run) {
    ext(run, check_extended)
}

fn c17(run: &mut Run) {
    ext(run, check_fast)
}

fn main() {
    main_with(&[("C15", c15), ("C16", c16), ("C17", c17)])
}
