//! Shared pieces for checks that run `juno::trading::trade`.
use crate::explore::*;
use crate::util::*;
use crate::{ensure, fail};
use juno::filters::{Price, Size};
use juno::indicators::*;
use juno::strategies::*;
use juno::trading::*;
use juno::utils::MidTrendPolicy;
use juno::{stop_loss, take_profit};
use juno::{Advice, BorrowInfo, Candle, Fees, Fill, Filters, Interval, Timestamp};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub maker: f64,
    pub taker: f64,
    pub min: f64,
    pub max: f64,
    pub step: f64,
    pub bp: u32,
    pub qp: u32,
    pub interest_interval: u64,
    pub rate: f64,
    pub limit: f64,
    pub mult: u32,
    pub quote: f64,
}

pub const HOUR: u64 = 3_600_000;
pub const DAY: u64 = 86_400_000;

impl Cfg {
    pub const BASE: Cfg = Cfg {
        maker: 0.02,
        taker: 0.001,
        min: 0.0,
        max: 0.0,
        step: 0.0,
        bp: 8,
        qp: 8,
        interest_interval: HOUR,
        rate: 0.0001,
        limit: 1e9,
        mult: 2,
        quote: 100.0,
    };
    pub fn fees(&self) -> Fees {
        Fees { maker: self.maker, taker: self.taker }
    }
    pub fn filters(&self) -> Filters {
        Filters {
            // The price filter plays no role in a backtest; make it reject everything.
            price: Price { min: 1e6, max: 1e7, step: 1e3 },
            size: Size { min: self.min, max: self.max, step: self.step },
            base_precision: self.bp,
            quote_precision: self.qp,
        }
    }
    pub fn borrow(&self) -> BorrowInfo {
        BorrowInfo {
            interest_interval: self.interest_interval,
            interest_rate: self.rate,
            limit: self.limit,
        }
    }
}

/// Representable with few bits, so that sums and products of a few of them are exact.
pub fn few(v: f64) -> bool {
    let s = v * 1024.0;
    s == s.trunc() && s.abs() < (1u64 << 30) as f64
}

/// Is `r` equal to `v` rounded down to `p` decimals? Only within float noise of a tie (and never
/// when all inputs are exact) both neighbours are accepted.
pub fn down_ok(r: f64, v: f64, p: u32, exact: bool) -> bool {
    let f = 10f64.powi(p as i32);
    let (x, y) = (v * f, r * f);
    let k = y.round();
    if (y - k).abs() > 1e-6 + k.abs() * 8e-16 {
        return false;
    }
    let eps = if exact && p <= 6 { 0.0 } else { 1e-7 + x.abs() * 8e-15 };
    k <= x + eps && k > x - 1.0 - eps
}

pub fn half_up_ok(r: f64, v: f64, p: u32, exact: bool) -> bool {
    let f = 10f64.powi(p as i32);
    let (x, y) = (v * f, r * f);
    let k = y.round();
    if (y - k).abs() > 1e-6 + k.abs() * 8e-16 {
        return false;
    }
    let eps = if exact && p <= 6 { 0.0 } else { 1e-7 + x.abs() * 8e-15 };
    k - 0.5 <= x + eps && x < k + 0.5 + eps
}

/// Is `r` what the size filter allows of `v`?
pub fn size_ok(r: f64, v: f64, c: &Cfg, exact: bool) -> bool {
    let near_min = !exact && (v - c.min).abs() <= 1e-12 * v.abs().max(c.min);
    if v < c.min || near_min {
        if r == 0.0 {
            return true;
        }
        if !near_min {
            return false;
        }
    }
    let w = if c.max > 0.0 { v.min(c.max) } else { v };
    if c.step > 0.0 {
        let (x, y) = (w / c.step, r / c.step);
        let k = y.round();
        let exact = exact && few(c.step) && few(w) && few(x) && x * c.step == w;
        let eps = if exact { 0.0 } else { 1e-9 + x.abs() * 8e-15 };
        (y - k).abs() <= 1e-9 + k.abs() * 8e-16 && k <= x + eps && k > x - 1.0 - eps
    } else {
        close(r, w, 1e-13, 0.0)
    }
}

/// A candle whose opening price and volume, which must not matter, vary with the rest of it (but
/// not with the day).
pub fn candle(time: u64, h: f64, l: f64, c: f64) -> Candle {
    let mut x = time % 86_400_000 / 60_000;
    for v in [h, l, c] {
        x = (x ^ v.to_bits()).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        x ^= x >> 29;
    }
    let open = [c, l, h, c][(x % 4) as usize];
    let volume = [1.0, 0.0, 7.5, 0.0, 1e6][(x / 4 % 5) as usize];
    Candle { time: Timestamp(time), open, high: h, low: l, close: c, volume }
}

/// Candles with the given closes; small wicks that depend on the close so that ranges vary.
pub fn candles(start: u64, interval: u64, closes: &[f64]) -> Vec<Candle> {
    closes
        .iter()
        .enumerate()
        .map(|(i, &c)| candle(start + i as u64 * interval, c * 1.125, c * 0.875, c))
        .collect()
}

pub fn sma(n: u32) -> MAParams {
    MAParams::Sma(SmaParams { period: n })
}
pub fn ema(n: u32) -> MAParams {
    MAParams::Ema(EmaParams { period: n, smoothing: None })
}
pub fn double_ma(a: MAParams, b: MAParams) -> DoubleMAParams {
    DoubleMAParams { mas: (a, b) }
}
pub fn stoch_params(k: u32, ks: u32, ds: u32, up: f64, down: f64) -> StochParams {
    StochParams {
        k_period: k,
        k_sma_period: ks,
        d_sma_period: ds,
        up_threshold: up,
        down_threshold: down,
    }
}

/// The filter's type is not exported by the crate.
pub fn sig_osc(
    sig: SignalParams,
    osc: OscillatorParams,
    filter: &str,
    persistence: u32,
    mid_trend_policy: MidTrendPolicy,
) -> SigOscParams {
    SigOscParams {
        sig,
        osc,
        osc_filter: serde_json::from_value(serde_json::Value::String(filter.into())).unwrap(),
        persistence,
        mid_trend_policy,
    }
}

/// Up: long, down: short, unchanged: as before.
pub fn up_down() -> StrategyParams {
    StrategyParams::DoubleMA(double_ma(sma(1), sma(2)))
}

pub fn strategies() -> Vec<(&'static str, StrategyParams)> {
    use StrategyParams as S;
    let dm = SignalParams::DoubleMA(double_ma(sma(1), sma(2)));
    vec![
        ("double_ma", up_down()),
        ("four_week", S::FourWeekRule(FourWeekRuleParams { period: 2, ma: sma(2) })),
        ("triple_ma", S::TripleMA(TripleMAParams { mas: (sma(1), sma(2), sma(3)) })),
        (
            "double_ma_stoch",
            S::DoubleMAStoch(DoubleMAStochParams {
                double_ma: double_ma(sma(1), sma(2)),
                stoch: stoch_params(2, 1, 1, 60.0, 30.0),
            }),
        ),
        ("macd", S::Macd(MacdParams { periods: (1, 2), signal_period: 2 })),
        ("single_ma", S::SingleMA(SingleMAParams { ma: ema(2) })),
        (
            "double_ma_2",
            S::DoubleMA2(DoubleMA2Params {
                neg_threshold: -0.5,
                pos_threshold: 0.5,
                mas: (sma(1), ema(2)),
            }),
        ),
        (
            "sig_four_week_ignore",
            S::Sig(SigParams {
                sig: SignalParams::FourWeekRule(FourWeekRuleParams { period: 1, ma: sma(2) }),
                persistence: 0,
                mid_trend_policy: MidTrendPolicy::Ignore,
                buffer_interval: None,
            }),
        ),
        (
            "sig_persistence",
            S::Sig(SigParams {
                sig: dm,
                persistence: 1,
                mid_trend_policy: MidTrendPolicy::Current,
                buffer_interval: None,
            }),
        ),
        (
            "sig_osc_prevent",
            S::SigOsc(sig_osc(
                dm,
                OscillatorParams::Rsi(RsiParams {
                    period: 1,
                    up_threshold: 90.0,
                    down_threshold: 10.0,
                }),
                "Prevent",
                0,
                MidTrendPolicy::Current,
            )),
        ),
        (
            "sig_osc_enforce",
            S::SigOsc(sig_osc(
                dm,
                OscillatorParams::Stoch(stoch_params(2, 1, 1, 60.0, 40.0)),
                "Enforce",
                0,
                MidTrendPolicy::Previous,
            )),
        ),
    ]
}

pub const NO_SL: StopLossP = StopLossP::Noop(stop_loss::NoopParams {});
pub const NO_TP: TakeProfitP = TakeProfitP::Noop(take_profit::NoopParams {});
pub use juno::stop_loss::StopLossParams as StopLossP;
pub use juno::take_profit::TakeProfitParams as TakeProfitP;

pub fn sl_basic(up: f64, down: f64) -> StopLossP {
    StopLossP::Basic(stop_loss::BasicParams { up_threshold: up, down_threshold: down })
}
pub fn sl_trailing(up: f64, down: f64) -> StopLossP {
    StopLossP::Trailing(stop_loss::TrailingParams { up_threshold: up, down_threshold: down })
}
pub fn sl_both(bu: f64, bd: f64, tu: f64, td: f64) -> StopLossP {
    StopLossP::BasicPlusTrailing(stop_loss::BasicPlusTrailingParams {
        basic: stop_loss::BasicParams { up_threshold: bu, down_threshold: bd },
        trailing: stop_loss::TrailingParams { up_threshold: tu, down_threshold: td },
    })
}
pub fn sl_legacy(t: f64, trail: bool) -> StopLossP {
    StopLossP::Legacy(stop_loss::LegacyParams { threshold: t, trail })
}
pub fn tp_basic(up: f64, down: f64) -> TakeProfitP {
    TakeProfitP::Basic(take_profit::BasicParams { up_threshold: up, down_threshold: down })
}
pub fn tp_legacy(t: f64) -> TakeProfitP {
    TakeProfitP::Legacy(take_profit::LegacyParams { threshold: t })
}
pub fn easing(name: &str) -> juno::easing::Easing {
    serde_json::from_value(serde_json::Value::String(name.into())).unwrap()
}
pub fn tp_trending(up: (f64, f64), down: (f64, f64), period: u32, lock: bool, e: &str) -> TakeProfitP {
    TakeProfitP::Trending(take_profit::TrendingParams {
        up_thresholds: up,
        down_thresholds: down,
        period,
        lock_threshold: lock,
        easing: easing(e),
    })
}

pub fn params(
    strategy: StrategyParams,
    interval: u64,
    stop_loss: StopLossP,
    take_profit: TakeProfitP,
) -> TradingParams {
    TradingParams {
        strategy,
        trader: TraderParams { interval: Interval(interval) },
        stop_loss,
        take_profit,
    }
}

pub fn run(p: &TradingParams, c: &Cfg, cs: &[Candle], long: bool, short: bool) -> TradingSummary {
    trade(
        p,
        &TradeInput {
            candles: cs,
            fees: &c.fees(),
            filters: &c.filters(),
            borrow_info: &c.borrow(),
            margin_multiplier: c.mult,
            quote: c.quote,
            long,
            short,
        },
    )
}

#[derive(Clone, Copy)]
pub struct Pos<'a> {
    pub long: bool,
    pub open_time: u64,
    pub close_time: u64,
    pub open: &'a Fill,
    pub close: &'a Fill,
    pub reason: CloseReason,
    pub collateral: f64,
    pub borrowed: f64,
    pub cost: f64,
    pub gain: f64,
    pub profit: f64,
    pub duration: u64,
}

pub fn pos(p: &Position) -> Pos<'_> {
    match p {
        Position::Long(p) => Pos {
            long: true,
            open_time: p.open_time.0,
            close_time: p.close_time.0,
            open: &p.open_fills[0],
            close: &p.close_fills[0],
            reason: p.close_reason,
            collateral: 0.0,
            borrowed: 0.0,
            cost: p.cost(),
            gain: p.gain(),
            profit: p.profit(),
            duration: p.duration().0,
        },
        Position::Short(p) => Pos {
            long: false,
            open_time: p.open_time.0,
            close_time: p.close_time.0,
            open: &p.open_fills[0],
            close: &p.close_fills[0],
            reason: p.close_reason,
            collateral: p.collateral,
            borrowed: p.borrowed,
            cost: p.cost(),
            gain: p.gain(),
            profit: p.profit(),
            duration: p.duration().0,
        },
    }
}

pub fn show(p: &Position) -> String {
    let p = pos(p);
    format!(
        "{} {}..{} {:?} open(p={} s={} q={} f={}) close(p={} s={} q={} f={}) collateral={} borrowed={}",
        if p.long { "long" } else { "short" },
        p.open_time, p.close_time, p.reason,
        p.open.price, p.open.size, p.open.quote, p.open.fee,
        p.close.price, p.close.size, p.close.quote, p.close.fee,
        p.collateral, p.borrowed,
    )
}

/// Bit for bit rendering of a summary.
pub fn fingerprint(s: &TradingSummary) -> Vec<u64> {
    let mut v = vec![s.start.0, s.end.0, s.quote.to_bits(), s.positions.len() as u64];
    for p in &s.positions {
        v.extend(pos_print(p));
    }
    v
}
pub fn pos_print(p: &Position) -> Vec<u64> {
    let p = pos(p);
    vec![
        p.long as u64,
        p.open_time,
        p.close_time,
        p.reason as u64,
        p.collateral.to_bits(),
        p.borrowed.to_bits(),
        p.open.price.to_bits(),
        p.open.size.to_bits(),
        p.open.quote.to_bits(),
        p.open.fee.to_bits(),
        p.close.price.to_bits(),
        p.close.size.to_bits(),
        p.close.quote.to_bits(),
        p.close.fee.to_bits(),
    ]
}

/// The flow of the balance through a position, from its fills.
pub fn balance_after(p: &Pos, balance: f64) -> f64 {
    if p.long {
        balance - p.open.quote + (p.close.quote - p.close.fee)
    } else {
        balance + (p.open.quote - p.open.fee) - p.close.quote
    }
}

pub struct Book<'a> {
    pub close_at: HashMap<u64, (usize, f64)>,
    pub candles: &'a [Candle],
    pub interval: u64,
}

impl<'a> Book<'a> {
    pub fn new(candles: &'a [Candle], interval: u64) -> Self {
        Book {
            close_at: candles
                .iter()
                .enumerate()
                .map(|(i, c)| (c.time.0 + interval, (i, c.close)))
                .collect(),
            candles,
            interval,
        }
    }
    pub fn at(&self, time: u64) -> Result<(usize, f64), Stop> {
        self.close_at
            .get(&time)
            .copied()
            .ok_or_else(|| Stop::Fail(format!("nothing ends at {time}")))
    }
}

/// C01: amounts of a long position.
pub fn check_long(p: &Pos, b: &Book, c: &Cfg, balance: f64) -> Res {
    let (_, open_price) = b.at(p.open_time)?;
    let (_, close_price) = b.at(p.close_time)?;
    let o = p.open;
    ensure!(o.price == open_price, "bought at {} instead of {open_price}", o.price);
    let exact = few(balance) && few(open_price) && few(balance / open_price)
        && (balance / open_price) * open_price == balance;
    let want = balance / open_price;
    ensure!(size_ok(o.size, want, c, exact), "bought {} while balance {balance} buys {want}", o.size);
    ensure!(o.size > 0.0, "bought nothing");
    let ex = few(o.size) && few(o.price);
    ensure!(down_ok(o.quote, o.price * o.size, c.qp, ex), "paid {} for {} at {}", o.quote, o.size, o.price);
    let ex = few(o.size) && few(c.taker);
    ensure!(half_up_ok(o.fee, o.size * c.taker, c.bp, ex), "base fee {} for {}", o.fee, o.size);
    ensure!(
        o.quote <= balance * (1.0 + 1e-12),
        "position costs {} with a balance of {balance}",
        o.quote
    );
    let x = p.close;
    ensure!(x.price == close_price, "sold at {} instead of {close_price}", x.price);
    let have = o.size - o.fee;
    let ex = few(o.size) && few(o.fee);
    ensure!(size_ok(x.size, have, c, ex), "sold {} of {have}", x.size);
    let ex = few(x.size) && few(x.price);
    ensure!(down_ok(x.quote, x.price * x.size, c.qp, ex), "got {} for {} at {}", x.quote, x.size, x.price);
    let ex = few(x.quote) && few(c.taker);
    ensure!(half_up_ok(x.fee, x.quote * c.taker, c.qp, ex), "quote fee {} for {}", x.fee, x.quote);
    ensure!(close(p.cost, o.quote, 1e-14, 0.0), "cost {} is not {}", p.cost, o.quote);
    let gain = x.quote - x.fee;
    ensure!(close(p.gain, gain, 1e-13, 1e-13), "gain {} is not {gain}", p.gain);
    ensure!(
        close(p.profit, gain - o.quote, 1e-12, 1e-12),
        "profit {} is not {}",
        p.profit,
        gain - o.quote
    );
    ensure!(p.duration == p.close_time - p.open_time, "duration {}", p.duration);
    Ok(())
}

/// C02: amounts of a short position.
pub fn check_short(p: &Pos, b: &Book, c: &Cfg, balance: f64) -> Res {
    let (_, open_price) = b.at(p.open_time)?;
    let (_, close_price) = b.at(p.close_time)?;
    let o = p.open;
    ensure!(o.price == open_price, "sold at {} instead of {open_price}", o.price);
    ensure!(
        close(p.collateral, balance, 1e-12, 1e-12),
        "collateral {} of a balance of {balance}",
        p.collateral
    );
    ensure!(
        p.borrowed <= c.limit,
        "borrowed {} with a limit of {}",
        p.borrowed,
        c.limit
    );
    let want = balance / open_price;
    let m = (c.mult - 1) as f64;
    if p.borrowed == c.limit {
        // What was not limited has to have reached the limit.
        let w = if c.max > 0.0 { want.min(c.max) } else { want };
        ensure!(
            w * m * (1.0 + 1e-12) >= c.limit,
            "borrowed the limit {} for {want} and multiplier {}",
            c.limit,
            c.mult
        );
    } else if c.mult > 1 {
        let exact = few(balance) && few(open_price) && few(want) && want * open_price == balance;
        ensure!(
            size_ok(p.borrowed / m, want, c, exact),
            "borrowed {} while balance {balance} buys {want}, multiplier {}",
            p.borrowed,
            c.mult
        );
        ensure!(p.borrowed > 0.0, "borrowed nothing");
    } else {
        ensure!(p.borrowed == 0.0, "borrowed {} with multiplier 1", p.borrowed);
    }
    ensure!(o.size == p.borrowed, "sold {} of {}", o.size, p.borrowed);
    let ex = few(o.size) && few(o.price);
    ensure!(down_ok(o.quote, o.price * o.size, c.qp, ex), "got {} for {} at {}", o.quote, o.size, o.price);
    let ex = few(o.quote) && few(c.taker);
    ensure!(half_up_ok(o.fee, o.quote * c.taker, c.qp, ex), "quote fee {} for {}", o.fee, o.quote);

    let x = p.close;
    ensure!(x.price == close_price, "bought at {} instead of {close_price}", x.price);
    let d = p.close_time - p.open_time;
    let periods = d / c.interest_interval + (d % c.interest_interval != 0) as u64;
    // The fill's size is borrowed + interest + fee; undo the fee first.
    let before_fee = x.size - x.fee;
    let interest = before_fee - p.borrowed;
    let due = p.borrowed * c.rate * periods as f64;
    let noise = 1e-13 * x.size.abs().max(1e-3);
    ensure!(
        interest_ok(interest, due, c.bp, noise, few(p.borrowed) && few(c.rate)),
        "interest {interest} for {} over {periods} intervals",
        p.borrowed
    );
    let ex = few(before_fee) && few(c.taker) && few(x.size);
    ensure!(half_up_ok(x.fee, before_fee * c.taker, c.bp, ex), "base fee {} for {before_fee}", x.fee);
    let ex = few(x.size) && few(x.price);
    ensure!(down_ok(x.quote, x.price * x.size, c.qp, ex), "paid {} for {} at {}", x.quote, x.size, x.price);

    ensure!(close(p.cost, p.collateral, 1e-14, 0.0), "cost {} is not {}", p.cost, p.collateral);
    let gain = o.quote - o.fee + p.collateral - x.quote;
    ensure!(close(p.gain, gain, 1e-12, 1e-10), "gain {} is not {gain}", p.gain);
    ensure!(
        close(p.profit, gain - p.collateral, 1e-12, 1e-10),
        "profit {} is not {}",
        p.profit,
        gain - p.collateral
    );
    ensure!(p.duration == d, "duration {}", p.duration);
    Ok(())
}

fn interest_ok(interest: f64, due: f64, bp: u32, noise: f64, exact: bool) -> bool {
    let f = 10f64.powi(bp as i32);
    let (x, y) = (due * f, interest * f);
    let k = y.round();
    if (y - k).abs() > 1e-6 + noise * f {
        return false;
    }
    let eps = if exact && bp <= 6 { 0.0 } else { 1e-7 + x.abs() * 8e-15 };
    k - 0.5 <= x + eps && x < k + 0.5 + eps
}

/// Could this balance open a position at this price? None: too close to call.
pub fn affordable(balance: f64, price: f64, c: &Cfg) -> Option<bool> {
    let v = balance / price;
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 * a.abs().max(b.abs());
    if v < c.min && !near(v, c.min) {
        return Some(false);
    }
    if near(v, c.min) && v != c.min {
        return None;
    }
    if v < c.min {
        return Some(false);
    }
    let w = if c.max > 0.0 { v.min(c.max) } else { v };
    if c.step > 0.0 {
        if near(w, c.step) && w != c.step {
            return None;
        }
        return Some(w >= c.step);
    }
    Some(w != 0.0)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Expect {
    pub long: bool,
    pub open: usize,
    pub close: usize,
    pub reason: CloseReason,
}

/// The advice/exit automaton (C04), driven by the advice and exit signals of each candle.
pub struct Automaton {
    pub prevailing: Advice,
    pub open: Option<(bool, usize)>,
    pub stopped: bool,
    pub done: Vec<Expect>,
}

impl Automaton {
    pub fn new() -> Self {
        Automaton { prevailing: Advice::None, open: None, stopped: false, done: vec![] }
    }
    pub fn hash(&self, h: H) -> H {
        h.u(self.prevailing as u64)
            .u(match self.open {
                None => 0,
                Some((l, i)) => 1 + l as u64 + 2 * i as u64,
            })
            .u(self.stopped as u64)
            .u(self.done.len() as u64)
    }
}

pub fn fail_positions(s: &TradingSummary) -> String {
    s.positions.iter().map(show).collect::<Vec<_>>().join("; ")
}

pub fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, expected: T) -> Res {
    if got != expected {
        fail!("{what}: got {got:?}, expected {expected:?}");
    }
    Ok(())
}
