//! C32: parameters, contexts and market data as JSON.
use juno::genetics::Chromosome;
use juno::indicators::*;
use juno::strategies::*;
use juno::trading::*;
use juno::utils::MidTrendPolicy;
use juno::*;
use mc::rng::*;
use mc::tkit::*;
use mc::util::*;
use mc::*;
use rand::prelude::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------------------------------------
// The documented shapes, written down once more by hand.

/// Averages of every kind, with and without what is optional.
fn averages() -> Vec<MAParams> {
    vec![
        MAParams::Alma(AlmaParams { offset: 0.85, period: 2, sigma: None }),
        MAParams::Alma(AlmaParams { offset: 0.5, period: 3, sigma: Some(2) }),
        MAParams::Dema(DemaParams { period: 2 }),
        MAParams::Ema(EmaParams { period: 3, smoothing: None }),
        MAParams::Ema(EmaParams { period: 2, smoothing: Some(0.25) }),
        MAParams::Ema2(Ema2Params { period: 2 }),
        MAParams::Kama(KamaParams { period: 2 }),
        MAParams::Sma(SmaParams { period: 2 }),
        MAParams::Smma(SmmaParams { period: 2 }),
    ]
}
fn with_period(m: MAParams, by: u32) -> MAParams {
    match m {
        MAParams::Alma(p) => MAParams::Alma(AlmaParams { period: p.period + by, ..p }),
        MAParams::Dema(p) => MAParams::Dema(DemaParams { period: p.period + by }),
        MAParams::Ema(p) => MAParams::Ema(EmaParams { period: p.period + by, ..p }),
        MAParams::Ema2(p) => MAParams::Ema2(Ema2Params { period: p.period + by }),
        MAParams::Kama(p) => MAParams::Kama(KamaParams { period: p.period + by }),
        MAParams::Sma(p) => MAParams::Sma(SmaParams { period: p.period + by }),
        MAParams::Smma(p) => MAParams::Smma(SmmaParams { period: p.period + by }),
    }
}
fn j_ma(m: &MAParams) -> Value {
    match m {
        MAParams::Alma(p) => json!({"type": "Alma", "offset": p.offset, "period": p.period, "sigma": p.sigma}),
        MAParams::Dema(p) => json!({"type": "Dema", "period": p.period}),
        MAParams::Ema(p) => json!({"type": "Ema", "period": p.period, "smoothing": p.smoothing}),
        MAParams::Ema2(p) => json!({"type": "Ema2", "period": p.period}),
        MAParams::Kama(p) => json!({"type": "Kama", "period": p.period}),
        MAParams::Sma(p) => json!({"type": "Sma", "period": p.period}),
        MAParams::Smma(p) => json!({"type": "Smma", "period": p.period}),
    }
}
fn tag(t: &str, mut v: Value) -> Value {
    v["type"] = json!(t);
    v
}
fn name(x: &impl Debug) -> Value {
    json!(format!("{x:?}"))
}
fn j_double_ma(p: &DoubleMAParams) -> Value {
    json!({"mas": [j_ma(&p.mas.0), j_ma(&p.mas.1)]})
}
fn j_stoch(p: &StochParams) -> Value {
    json!({"k_period": p.k_period, "k_sma_period": p.k_sma_period, "d_sma_period": p.d_sma_period, "up_threshold": p.up_threshold, "down_threshold": p.down_threshold})
}
fn j_double_ma_2(p: &DoubleMA2Params) -> Value {
    json!({"mas": [j_ma(&p.mas.0), j_ma(&p.mas.1)], "neg_threshold": p.neg_threshold, "pos_threshold": p.pos_threshold})
}
fn j_double_ma_stoch(p: &DoubleMAStochParams) -> Value {
    json!({"double_ma": j_double_ma(&p.double_ma), "stoch": j_stoch(&p.stoch)})
}
fn j_four_week(p: &FourWeekRuleParams) -> Value {
    json!({"period": p.period, "ma": j_ma(&p.ma)})
}
fn j_macd(p: &MacdParams) -> Value {
    json!({"periods": [p.periods.0, p.periods.1], "signal_period": p.signal_period})
}
fn j_single_ma(p: &SingleMAParams) -> Value {
    json!({"ma": j_ma(&p.ma)})
}
fn j_triple_ma(p: &TripleMAParams) -> Value {
    json!({"mas": [j_ma(&p.mas.0), j_ma(&p.mas.1), j_ma(&p.mas.2)]})
}
fn j_signal(s: &SignalParams) -> Value {
    match s {
        SignalParams::DoubleMA(p) => tag("DoubleMA", j_double_ma(p)),
        SignalParams::DoubleMA2(p) => tag("DoubleMA2", j_double_ma_2(p)),
        SignalParams::DoubleMAStoch(p) => tag("DoubleMAStoch", j_double_ma_stoch(p)),
        SignalParams::FourWeekRule(p) => tag("FourWeekRule", j_four_week(p)),
        SignalParams::Macd(p) => tag("Macd", j_macd(p)),
        SignalParams::SingleMA(p) => tag("SingleMA", j_single_ma(p)),
        SignalParams::TripleMA(p) => tag("TripleMA", j_triple_ma(p)),
    }
}
fn j_strategy(s: &StrategyParams) -> Value {
    match s {
        StrategyParams::DoubleMA(p) => tag("DoubleMA", j_double_ma(p)),
        StrategyParams::DoubleMA2(p) => tag("DoubleMA2", j_double_ma_2(p)),
        StrategyParams::DoubleMAStoch(p) => tag("DoubleMAStoch", j_double_ma_stoch(p)),
        StrategyParams::FourWeekRule(p) => tag("FourWeekRule", j_four_week(p)),
        StrategyParams::Macd(p) => tag("Macd", j_macd(p)),
        StrategyParams::SingleMA(p) => tag("SingleMA", j_single_ma(p)),
        StrategyParams::TripleMA(p) => tag("TripleMA", j_triple_ma(p)),
        StrategyParams::Sig(p) => tag(
            "Sig",
            json!({"sig": j_signal(&p.sig), "persistence": p.persistence, "mid_trend_policy": name(&p.mid_trend_policy),
                "buffer_interval": p.buffer_interval.map(|i| i.0)}),
        ),
        StrategyParams::SigOsc(p) => tag(
            "SigOsc",
            json!({"sig": j_signal(&p.sig),
                "osc": match &p.osc {
                    OscillatorParams::Rsi(p) => json!({"type": "Rsi", "period": p.period, "up_threshold": p.up_threshold, "down_threshold": p.down_threshold}),
                    OscillatorParams::Stoch(p) => tag("Stoch", j_stoch(p)),
                },
                "osc_filter": name(&p.osc_filter), "persistence": p.persistence, "mid_trend_policy": name(&p.mid_trend_policy)}),
        ),
    }
}
fn j_stop_loss(s: &StopLossP) -> Value {
    match s {
        StopLossP::Basic(p) => json!({"type": "Basic", "up_threshold": p.up_threshold, "down_threshold": p.down_threshold}),
        StopLossP::Trailing(p) => json!({"type": "Trailing", "up_threshold": p.up_threshold, "down_threshold": p.down_threshold}),
        StopLossP::BasicPlusTrailing(p) => json!({"type": "BasicPlusTrailing",
            "basic": {"up_threshold": p.basic.up_threshold, "down_threshold": p.basic.down_threshold},
            "trailing": {"up_threshold": p.trailing.up_threshold, "down_threshold": p.trailing.down_threshold}}),
        StopLossP::Legacy(p) => json!({"type": "Legacy", "threshold": p.threshold, "trail": p.trail}),
        StopLossP::Noop(_) => json!({"type": "Noop"}),
    }
}
fn j_take_profit(s: &TakeProfitP) -> Value {
    match s {
        TakeProfitP::Basic(p) => json!({"type": "Basic", "up_threshold": p.up_threshold, "down_threshold": p.down_threshold}),
        TakeProfitP::Legacy(p) => json!({"type": "Legacy", "threshold": p.threshold}),
        TakeProfitP::Noop(_) => json!({"type": "Noop"}),
        TakeProfitP::Trending(p) => json!({"type": "Trending", "up_thresholds": [p.up_thresholds.0, p.up_thresholds.1],
            "down_thresholds": [p.down_thresholds.0, p.down_thresholds.1], "period": p.period, "lock_threshold": p.lock_threshold,
            "easing": name(&p.easing)}),
    }
}
fn j_params(p: &TradingParams) -> Value {
    json!({"strategy": j_strategy(&p.strategy), "trader": {"interval": p.trader.interval.0}, "stop_loss": j_stop_loss(&p.stop_loss), "take_profit": j_take_profit(&p.take_profit)})
}

fn signal(kind: usize, a: MAParams, b: MAParams, c: u32) -> SignalParams {
    let f = c as f64;
    let dm = DoubleMAParams { mas: (a, with_period(b, 3)) };
    match kind {
        0 => SignalParams::DoubleMA(dm),
        1 => SignalParams::DoubleMA2(DoubleMA2Params { neg_threshold: -0.25 - f / 16.0, pos_threshold: 0.5 + f / 16.0, mas: dm.mas }),
        2 => SignalParams::DoubleMAStoch(DoubleMAStochParams { double_ma: dm, stoch: stoch_params(2 + c, 1 + c, 2, 60.0 + f, 40.0 - f) }),
        3 => SignalParams::FourWeekRule(FourWeekRuleParams { period: 2 + c, ma: a }),
        4 => SignalParams::Macd(MacdParams { periods: (2 + c, 4 + c), signal_period: 2 + c }),
        5 => SignalParams::SingleMA(SingleMAParams { ma: a }),
        _ => SignalParams::TripleMA(TripleMAParams { mas: (a, with_period(b, 2), with_period(a, 4 + c)) }),
    }
}
fn strategy(kind: usize, a: MAParams, b: MAParams, c: u32) -> StrategyParams {
    let s = signal(kind % 7, a, b, c);
    let policy = [MidTrendPolicy::Current, MidTrendPolicy::Previous, MidTrendPolicy::Ignore][c as usize % 3];
    match kind / 7 {
        0 => match s {
            SignalParams::DoubleMA(p) => StrategyParams::DoubleMA(p),
            SignalParams::DoubleMA2(p) => StrategyParams::DoubleMA2(p),
            SignalParams::DoubleMAStoch(p) => StrategyParams::DoubleMAStoch(p),
            SignalParams::FourWeekRule(p) => StrategyParams::FourWeekRule(p),
            SignalParams::Macd(p) => StrategyParams::Macd(p),
            SignalParams::SingleMA(p) => StrategyParams::SingleMA(p),
            SignalParams::TripleMA(p) => StrategyParams::TripleMA(p),
        },
        1 => StrategyParams::Sig(SigParams {
            sig: s,
            persistence: c,
            mid_trend_policy: policy,
            buffer_interval: [None, Some(Interval(4 * HOUR)), Some(Interval(8 * HOUR))][c as usize % 3],
        }),
        n => {
            let osc = match n {
                2 => OscillatorParams::Rsi(RsiParams { period: 2 + c, up_threshold: 65.5, down_threshold: 30.0 + c as f64 }),
                _ => OscillatorParams::Stoch(stoch_params(3, 1 + c, 1, 70.0, 20.0 + c as f64)),
            };
            StrategyParams::SigOsc(sig_osc(s, osc, ["Enforce", "Prevent"][c as usize % 2], c, policy))
        }
    }
}
fn stop_loss(kind: usize, c: u32) -> StopLossP {
    let f = c as f64 / 64.0;
    match kind {
        0 => sl_both(0.125 + f, 0.12, 0.15, 0.25 + f),
        1 => sl_basic(0.125 + f, 0.2),
        2 => sl_legacy(0.125 + f, c % 2 == 1),
        3 => NO_SL,
        _ => sl_trailing(0.13, 0.125 + f),
    }
}
fn take_profit(kind: usize, c: u32) -> TakeProfitP {
    let f = c as f64 / 64.0;
    match kind {
        0 => tp_basic(0.1875 + f, 0.3),
        1 => tp_legacy(0.1875 + f),
        2 => NO_TP,
        _ => tp_trending((0.1, 0.5 + f), (0.0625 + f, 0.4), 2 + c, c % 2 == 0, refs::EASINGS[(c as usize * 7) % 31]),
    }
}

/// Hourly candles with swings of several sizes.
fn swings() -> Vec<Candle> {
    let closes: Vec<f64> = (0..144).map(|i| 10.0 + ((i * i * 7 + i * 3) % 17) as f64 * 0.5 + if (i / 9) % 2 == 0 { 3.0 } else { 0.0 }).collect();
    candles(DAY * 1000, HOUR, &closes)
}

fn read<T: DeserializeOwned>(v: &Value) -> Result<T, String> {
    serde_json::from_str(&v.to_string()).map_err(|e| e.to_string())
}

fn same_reading<T: DeserializeOwned + Debug>(what: &str, text: &str, want: &str) -> Res {
    let got: T = serde_json::from_str(text).map_err(|e| Stop::Fail(format!("{what} {text} is refused: {e}")))?;
    ensure!(format!("{got:?}") == want, "{what} {text} is read as {got:?} instead of {want}");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Kinds of values, by where they stand.

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// A structure or a variant with parameters.
    Part,
    Tag,
    Whole,
    Number,
    Yes,
    Name,
    List,
    OptionalWhole,
    OptionalNumber,
    OptionalInterval,
    Interval,
    /// May be left out, then 0.
    Zero,
}
fn kind_of(at: &str, v: &Value) -> Kind {
    let key = at.rsplit('/').next().unwrap();
    match key {
        "type" => Kind::Tag,
        "sigma" => Kind::OptionalWhole,
        "smoothing" => Kind::OptionalNumber,
        "buffer_interval" => Kind::OptionalInterval,
        "interval" => Kind::Interval,
        "persistence" if v["strategy"]["type"] == "Sig" => Kind::Zero,
        "persistence" | "period" | "signal_period" | "k_period" | "k_sma_period" | "d_sma_period" => Kind::Whole,
        "trail" | "lock_threshold" => Kind::Yes,
        "mid_trend_policy" | "osc_filter" | "easing" => Kind::Name,
        "mas" | "periods" | "up_thresholds" | "down_thresholds" => Kind::List,
        _ => match v.pointer(at).unwrap() {
            Value::Object(_) => Kind::Part,
            _ if at.contains("/periods/") => Kind::Whole,
            _ => Kind::Number,
        },
    }
}
fn places(v: &Value) -> Vec<String> {
    fn go(v: &Value, at: String, out: &mut Vec<String>) {
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| {
                out.push(format!("{at}/{k}"));
                go(x, format!("{at}/{k}"), out)
            }),
            Value::Array(a) => a.iter().enumerate().for_each(|(k, x)| {
                out.push(format!("{at}/{k}"));
                go(x, format!("{at}/{k}"), out)
            }),
            _ => {}
        }
    }
    let mut out = vec![];
    go(v, String::new(), &mut out);
    out
}
fn parent(at: &str) -> (&str, &str) {
    at.rsplit_once('/').unwrap()
}
fn without(v: &Value, at: &str) -> Value {
    let mut v = v.clone();
    let (p, k) = parent(at);
    match v.pointer_mut(p).unwrap() {
        Value::Object(m) => {
            m.remove(k);
        }
        Value::Array(a) => {
            a.remove(k.parse().unwrap());
        }
        _ => unreachable!(),
    }
    v
}

/// What stands at the place if this is put there; None if that is an error.
fn reading(k: Kind, x: &Value) -> Option<Value> {
    let whole = |x: &Value| x.as_u64().filter(|n| *n <= u32::MAX as u64).map(|n| json!(n));
    let number = |x: &Value| x.as_f64().map(|f| json!(f));
    let interval = |x: &Value| match x {
        Value::String(s) => s.parse::<Interval>().ok().map(|i| json!(i.0)),
        x => x.as_u64().map(|n| json!(n)),
    };
    let optional = |f: &dyn Fn(&Value) -> Option<Value>| if x.is_null() { Some(Value::Null) } else { f(x) };
    match k {
        Kind::Part | Kind::Tag | Kind::Name | Kind::List => None,
        Kind::Whole | Kind::Zero => whole(x),
        Kind::Number => number(x),
        Kind::Yes => x.as_bool().map(|b| json!(b)),
        Kind::OptionalWhole => optional(&whole),
        Kind::OptionalNumber => optional(&number),
        Kind::OptionalInterval => optional(&interval),
        Kind::Interval => interval(x),
    }
}
fn omitted(k: Kind) -> Option<Value> {
    match k {
        Kind::OptionalWhole | Kind::OptionalNumber | Kind::OptionalInterval => Some(Value::Null),
        Kind::Zero => Some(json!(0)),
        _ => None,
    }
}

/// Whole numbers and fractions compare by value.
fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_u64(), y.as_u64()) {
            (Some(x), Some(y)) => x == y,
            _ => x.as_f64() == y.as_f64(),
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| equal(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, x)| y.get(k).is_some_and(|y| equal(x, y))),
        _ => a == b,
    }
}

/// Parameters and structures that list fields: reading `v` has to give what `want` says.
fn judge<T: DeserializeOwned + Serialize>(what: &str, v: &Value, want: Option<&Value>) -> Res {
    match (read::<T>(v), want) {
        (Ok(got), Some(want)) => {
            let got = serde_json::to_value(got).unwrap();
            ensure!(equal(&got, want), "{what}: {v} is read as {got} instead of {want}");
        }
        (Ok(got), None) => fail!("{what}: {v} is accepted, as {}", serde_json::to_value(got).unwrap()),
        (Err(e), Some(_)) => fail!("{what}: {v} is refused: {e}"),
        (Err(_), None) => {}
    }
    Ok(())
}

fn mistakes() -> Vec<Value> {
    vec![
        json!(null),
        json!(true),
        json!(false),
        json!(0),
        json!(7),
        json!(-1),
        json!(0.5),
        json!(1.5),
        json!(2.0),
        json!(u32::MAX),
        json!(u32::MAX as u64 + 1),
        json!(u64::MAX),
        json!(1e300),
        json!(""),
        json!("3"),
        json!("0.5"),
        json!("1d"),
        json!("2h30m"),
        json!("1x"),
        json!("-1d"),
        json!("true"),
        json!("None"),
        json!("nonsense"),
        json!([]),
        json!({}),
        json!([null]),
    ]
}

fn base(kind: usize, c: u32, variant: usize) -> TradingParams {
    let mas = averages();
    params(
        strategy(kind, mas[variant % mas.len()], mas[(variant * 4 + 1) % mas.len()], c),
        HOUR,
        stop_loss((kind + variant) % 5, c),
        take_profit((kind + variant) % 4, c),
    )
}

// ---------------------------------------------------------------------------------------------
// Numbers

static LAST_BIT: AtomicU64 = AtomicU64::new(0);

/// Can the shortest text of the number be read with one rounding: at most 15 digits, scaled by a
/// power of ten that is a double?
fn short(x: f64) -> bool {
    let s = format!("{x:e}");
    let (m, e) = s.split_once('e').unwrap();
    let m = m.trim_start_matches('-').replace('.', "");
    let m = m.trim_end_matches('0');
    let exponent = e.parse::<i32>().unwrap() - (m.len() as i32 - 1);
    m.len() <= 15 && exponent.abs() <= 22
}

/// Is `got` what was written as `want`? Numbers with long texts may be off by the last bit
/// (and are counted); see the known findings.
fn same_number(want: f64, got: f64) -> bool {
    if want == got || (want.is_nan() && got.is_nan()) {
        return true;
    }
    let (a, b) = (want.to_bits() as i64, got.to_bits() as i64);
    if !short(want) && want.signum() == got.signum() && (a - b).abs() == 1 {
        LAST_BIT.fetch_add(1, Ordering::Relaxed);
        return true;
    }
    false
}
fn same_values(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => same_number(x.as_f64().unwrap(), y.as_f64().unwrap()),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_values(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, x)| y.get(k).is_some_and(|y| same_values(x, y))),
        _ => a == b,
    }
}

fn c32(run: &mut Run) {
    run.assume("structures given as lists and variants given by number are not judged");
    let market = swings();
    let market = &market;
    let cfg = Cfg { maker: 0.001, ..Cfg::BASE };
    let cfg = &cfg;

    let colours = run.deep(3, 6);
    run.section("variants", &format!("7 signals, plain, wrapped and with each oscillator x 9 x 9 averages x 5 stop losses x 4 take profits x {colours} sets of values: written, read and traded"), |ch| {
        let mas = averages();
        let kind = ch.pick(28);
        let a = *ch.of(&mas);
        let b = if [3, 4, 5].contains(&(kind % 7)) { a } else { *ch.of(&mas) };
        let c = ch.pick(colours) as u32;
        let p = params(strategy(kind, a, b, c), [HOUR, 2 * HOUR, 4 * HOUR][c as usize % 3], stop_loss(ch.pick(5), c), take_profit(ch.pick(4), c));
        let debug = format!("{p:?}");
        let shape = j_params(&p);
        let written = serde_json::to_string(&p).unwrap();
        note!(ch, "{written}");
        ensure!(equal(&serde_json::from_str(&written).unwrap(), &shape), "{debug} is written as {written} instead of {shape}");
        same_reading::<TradingParams>("what was written,", &written, &debug)?;
        same_reading::<TradingParams>("the documented shape", &shape.to_string(), &debug)?;
        let from_value: TradingParams = serde_json::from_value(shape.clone()).map_err(|e| Stop::Fail(format!("{shape} is refused as a value: {e}")))?;
        ensure!(format!("{from_value:?}") == debug, "the value {shape} is read as {from_value:?} instead of {debug}");
        let back: TradingParams = serde_json::from_str(&written).unwrap();
        let trading = |p: &TradingParams| {
            let cs: Vec<Candle> = market.iter().step_by([1, 2, 4][c as usize % 3]).copied().collect();
            guarded(|| run_on(p, cfg, &cs)).map(|s| fingerprint(&s))
        };
        let (x, y) = (trading(&p), trading(&back));
        match (&x, &y) {
            (Ok(x), Ok(y)) => ensure!(x == y, "{written} trades differently after it was read"),
            (x, y) => ensure!(x.is_err() == y.is_err(), "{written}: {x:?} before and {y:?} after it was read"),
        }
        ch.hit(match &x { Ok(s) if s.len() > 4 => "traded", Ok(_) => "idle", Err(_) => "refused" });
        ch.state(H::new().s(&written).get());
        ch.trans(4);
        ch.validated();
        Ok(())
    });

    run.section("fields", "every kind of strategy x 9 variants of the rest: each place, lists and averages included, left out, or with each of 26 other values there, or one more entry", |ch| {
        let kind = ch.pick(28);
        let p = base(kind, ch.pick(3) as u32, ch.pick(9));
        let v = j_params(&p);
        let all = places(&v);
        let at = ch.of(&all).clone();
        let k = kind_of(&at, &v);
        let m = mistakes();
        let in_list = v.pointer(parent(&at).0).is_some_and(Value::is_array);
        match ch.pick(m.len() + 2) {
            0 => {
                let given = without(&v, &at);
                let want = if in_list { None } else { omitted(k).map(|x| genes::replaced(&v, &at, &x)) };
                judge::<TradingParams>(&format!("without {at}"), &given, want.as_ref())?;
                ch.hit(if want.is_some() { "optional" } else { "required" });
            }
            1 => {
                let mut given = v.clone();
                match given.pointer_mut(&at).unwrap() {
                    Value::Array(a) => {
                        a.push(a[0].clone());
                        judge::<TradingParams>(&format!("{at} one longer"), &given, None)?;
                        ch.hit("too long");
                    }
                    _ => return Err(Stop::Prune),
                }
            }
            n => {
                let x = &m[n - 2];
                if k == Kind::Tag && x.is_u64() {
                    return Err(Stop::Prune);
                }
                let want = reading(k, x).map(|x| genes::replaced(&v, &at, &x));
                judge::<TradingParams>(&format!("{x} as {at}"), &genes::replaced(&v, &at, x), want.as_ref())?;
                ch.hit(if want.is_some() { "accepted" } else { "refused" });
            }
        }
        ch.state(H::new().u(kind as u64).s(&at).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });

    run.section("names", "every name of every kind of choice, as it is, in other spellings, and in the place of another", |ch| {
        fn check<T: DeserializeOwned + Serialize + Debug>(ch: &mut Ch, names: &[&str], others: &[&str]) -> Res {
            let all: Vec<String> = names.iter().map(|s| s.to_string()).collect();
            let n = ch.pick(names.len());
            let x: T = read(&json!(names[n])).map_err(|e| Stop::Fail(format!("{} is refused: {e}", names[n])))?;
            ensure!(format!("{x:?}") == names[n] || std::any::type_name::<T>().ends_with("CandleType"), "{} is read as {x:?}", names[n]);
            ensure!(serde_json::to_value(&x).unwrap() == json!(names[n]), "{x:?} is written as {}", serde_json::to_value(&x).unwrap());
            let s = names[n];
            let spellings = [s.to_lowercase(), s.to_uppercase(), format!("{s} "), format!(" {s}"), s[1..].to_string(), format!("{s}{s}"), String::new()];
            let spelling = ch.of(&spellings).clone();
            if !all.contains(&spelling) {
                ensure!(read::<T>(&json!(spelling)).is_err(), "{spelling:?} is accepted");
            }
            for o in others {
                if !all.iter().any(|a| a == o) {
                    ensure!(read::<T>(&json!(o)).is_err(), "{o:?} is accepted among {all:?}");
                }
            }
            Ok(())
        }
        let others = ["None", "Long", "Linear", "Current", "Enforce", "Profit", "Strategy", "regular", "QuadInOut", "Elastic"];
        let which = ch.pick(6);
        match which {
            0 => check::<juno::easing::Easing>(ch, &refs::EASINGS, &others)?,
            1 => check::<MidTrendPolicy>(ch, &genes::POLICIES, &others)?,
            2 => check::<CloseReason>(ch, &["Strategy", "StopLoss", "TakeProfit", "Cancelled"], &others)?,
            3 => check::<CandleType>(ch, &["regular", "heikin-ashi"], &others)?,
            4 => {
                #[derive(serde::Deserialize, serde::Serialize)]
                #[serde(transparent)]
                struct S(EvaluationStatistic);
                impl Debug for S {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        f.write_str(match self.0 {
                            EvaluationStatistic::Profit => "Profit",
                            EvaluationStatistic::ReturnOverMaxDrawdown => "ReturnOverMaxDrawdown",
                            EvaluationStatistic::SharpeRatio => "SharpeRatio",
                            EvaluationStatistic::SortinoRatio => "SortinoRatio",
                        })
                    }
                }
                check::<S>(ch, &["Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio"], &others)?
            }
            _ => {
                #[derive(serde::Deserialize, serde::Serialize)]
                #[serde(transparent)]
                struct A(EvaluationAggregation);
                impl Debug for A {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        f.write_str(match self.0 {
                            EvaluationAggregation::Linear => "Linear",
                            EvaluationAggregation::Log10 => "Log10",
                            EvaluationAggregation::Log10Factored => "Log10Factored",
                        })
                    }
                }
                check::<A>(ch, &["Linear", "Log10", "Log10Factored"], &others)?
            }
        }
        ch.state(which as u64);
        ch.trans(1);
        ch.validated();
        Ok(())
    });

    run.section("tags", "every kind of part: each name of any part, in any spelling, as its variant", |ch| {
        let part = *ch.of(&["/strategy", "/strategy/sig", "/strategy/osc", "/stop_loss", "/take_profit", "/strategy/ma"]);
        let kind = match part {
            "/strategy/sig" => 7 + ch.pick(7),
            "/strategy/osc" => 14 + ch.pick(14),
            "/strategy/ma" => 5,
            _ => ch.pick(28),
        };
        let known: &[&str] = match part {
            "/strategy" => &genes::STRATEGIES,
            "/strategy/sig" => &genes::SIGNALS,
            "/strategy/osc" => &genes::OSCILLATORS,
            "/stop_loss" => &genes::STOP_LOSSES,
            "/take_profit" => &genes::TAKE_PROFITS,
            _ => &genes::MAS,
        };
        let mut names: BTreeSet<String> = [&genes::STRATEGIES[..], &genes::OSCILLATORS, &genes::STOP_LOSSES, &genes::TAKE_PROFITS, &genes::MAS].concat().iter().map(|s| s.to_string()).collect();
        for s in names.clone() {
            names.extend([s.to_lowercase(), s.to_uppercase(), format!("{s}Params"), format!("{s} ")]);
        }
        names.extend(["None".to_string(), String::new()]);
        let names: Vec<String> = names.into_iter().collect();
        let t = ch.of(&names).clone();
        let v = j_params(&base(kind, 1, kind));
        let given = genes::replaced(&v, &format!("{part}/type"), &json!(t));
        if !known.contains(&t.as_str()) {
            ensure!(read::<TradingParams>(&given).is_err(), "{t:?} is accepted as the variant of {part}: {given}");
        } else if let Ok(p) = read::<TradingParams>(&given) {
            let got = j_params(&p);
            ensure!(got.pointer(&format!("{part}/type")) == Some(&json!(t)), "{given} is read as {got}");
        }
        ch.state(H::new().s(part).s(&t).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });

    run.section("times", "intervals and times as numbers and as text, in every place that takes one", |ch| {
        let intervals: [(Value, Option<u64>); 22] = [
            (json!(0), Some(0)),
            (json!(1), Some(1)),
            (json!(3_600_000), Some(HOUR)),
            (json!(u64::MAX), Some(u64::MAX)),
            (json!("0ms"), Some(0)),
            (json!("1h"), Some(HOUR)),
            (json!("3600s"), Some(HOUR)),
            (json!("3600000ms"), Some(HOUR)),
            (json!("1d12h"), Some(36 * HOUR)),
            (json!("1w"), Some(7 * DAY)),
            (json!("1M"), Some(2_629_746_000)),
            (json!("1y1ms"), Some(31_556_952_001)),
            (json!("1m"), Some(60_000)),
            (json!(""), None),
            (json!("3600000"), None),
            (json!("1h "), None),
            (json!("1 h"), None),
            (json!("-1h"), None),
            (json!("1.5h"), None),
            (json!(-1), None),
            (json!(1.5), None),
            (json!(["1h"]), None),
        ];
        let times: [(Value, Option<u64>); 18] = [
            (json!(0), Some(0)),
            (json!(1_546_300_800_000u64), Some(1_546_300_800_000)),
            (json!("2019-01-01"), Some(1_546_300_800_000)),
            (json!("2019-01-01T00:00:00Z"), Some(1_546_300_800_000)),
            (json!("2019-01-01T01:00:00+01:00"), Some(1_546_300_800_000)),
            (json!("2019-01-01T00:00:00.250Z"), Some(1_546_300_800_250)),
            (json!("1970-01-01"), Some(0)),
            (json!("2020-02-29"), Some(1_582_934_400_000)),
            (json!("2019-02-29"), None),
            (json!("2019-13-01"), None),
            (json!("2019-1-1"), None),
            (json!("2019"), None),
            (json!("1546300800000"), None),
            (json!(""), None),
            (json!(-1), None),
            (json!(1.5), None),
            (json!(null), None),
            (json!({"time": 1}), None),
        ];
        if ch.flag() {
            let (x, want) = ch.of(&intervals).clone();
            let want = want.map(|w| json!(w));
            let place = ch.pick(5);
            let v = j_params(&base(7, 1, 0));
            match place {
                0 => judge::<Interval>("interval", &x, want.as_ref())?,
                1 => judge::<TradingParams>("traded interval", &genes::replaced(&v, "/trader/interval", &x), want.map(|w| genes::replaced(&v, "/trader/interval", &w)).as_ref())?,
                2 => judge::<TradingParams>("aggregated interval", &genes::replaced(&v, "/strategy/buffer_interval", &x), want.map(|w| genes::replaced(&v, "/strategy/buffer_interval", &w)).as_ref())?,
                3 => judge::<TraderParamsContext>("offered interval", &json!({"intervals": [7, x]}), want.map(|w| json!({"intervals": [7, w]})).as_ref())?,
                _ => {
                    let c = json!({"strategy": {"type": "Sig", "buffer_interval": x}, "trader": {"intervals": [3_600_000]}});
                    match (read::<TradingParamsContext>(&c), want) {
                        (Ok(ctx), Some(w)) => {
                            let p = text(&TradingParams::generate(&mut StdRng::seed_from_u64(3), &ctx));
                            ensure!(p["strategy"]["buffer_interval"] == w, "{c} gives {p}");
                        }
                        (Ok(_), None) => fail!("{c} is accepted"),
                        (Err(e), Some(_)) => fail!("{c} is refused: {e}"),
                        _ => {}
                    }
                }
            }
            ch.state(H::new().u(place as u64).s(&x.to_string()).get());
        } else {
            let (x, want) = ch.of(&times).clone();
            let want = want.map(|w| json!(w));
            match ch.pick(2) {
                0 => judge::<Timestamp>("time", &x, want.as_ref())?,
                _ => {
                    let c = json!({"time": 5, "open": 1.0, "high": 2.0, "low": 0.5, "close": 1.5, "volume": 0.0});
                    judge::<Candle>("time of a candle", &genes::replaced(&c, "/time", &x), want.map(|w| genes::replaced(&c, "/time", &w)).as_ref())?;
                }
            }
            ch.state(H::new().s(&x.to_string()).get());
        }
        ch.trans(1);
        ch.validated();
        Ok(())
    });

    run.section("market data", "exchange descriptions, candles, fills and positions: written and read; each field left out or mistyped", |ch| {
        let what = ch.pick(4);
        let v = match what {
            0 => json!({
                "assets": {"__default__": {"precision": 8}, "btc": {"precision": 7}},
                "fees": {"eth-btc": {"maker": 0.001, "taker": 0.002}, "__default__": {"maker": 0.0, "taker": 0.5}},
                "filters": {"eth-btc": {"price": {"min": 0.01, "max": 100.0, "step": 0.25}, "size": {"min": 0.5, "max": 9000.0, "step": 0.125},
                    "base_precision": 8, "quote_precision": 6}},
                "borrow_info": {"eth-btc": {"eth": {"interest_interval": 3_600_000, "interest_rate": 0.0001, "limit": 1e6}}, "__default__": {}},
            }),
            1 => json!({"time": 5, "open": 1.25, "high": 2.0, "low": 0.5, "close": 1.5, "volume": 10.0}),
            2 => json!({"type": "Long", "open_time": 5, "open_fills": [{"price": 1.0, "size": 2.0, "quote": 2.0, "fee": 0.5}], "close_time": 7,
                "close_fills": [{"price": 3.0, "size": 1.5, "quote": 4.5, "fee": 0.25}], "close_reason": "StopLoss"}),
            _ => json!({"type": "Short", "open_time": 5, "collateral": 10.0, "borrowed": 2.0, "open_fills": [{"price": 1.0, "size": 2.0, "quote": 2.0, "fee": 0.5}],
                "close_time": 7, "close_fills": [{"price": 3.0, "size": 1.5, "quote": 4.5, "fee": 0.25}], "close_reason": "Cancelled"}),
        };
        let check = |label: &str, given: &Value, want: Option<&Value>| match what {
            0 => judge::<ExchangeInfo>(label, given, want),
            1 => judge::<Candle>(label, given, want),
            _ => judge::<Position>(label, given, want),
        };
        check("as documented", &v, Some(&v))?;
        let all = places(&v);
        let at = ch.of(&all).clone();
        // Entries of maps come and go.
        let entry = what == 0 && (at.ends_with("__default__") || at.ends_with("/btc") || at.ends_with("/eth-btc") || at.ends_with("/eth"));
        if entry {
            let less = without(&v, &at);
            check(&format!("without {at}"), &less, Some(&less))?;
        } else {
            check(&format!("without {at}"), &without(&v, &at), None)?;
            let was = v.pointer(&at).unwrap();
            for x in mistakes() {
                let key = at.rsplit('/').next().unwrap();
                let ok = match was {
                    Value::Object(_) => what == 0 && x == json!({}) && ["assets", "fees", "filters", "borrow_info"].contains(&key),
                    Value::Array(_) => false,
                    Value::Bool(_) => x.is_boolean(),
                    Value::String(_) => false,
                    _ if was.is_f64() => x.is_number(),
                    _ if key.ends_with("time") => x.is_u64(),
                    _ if key == "interest_interval" => x.is_u64(),
                    _ => x.as_u64().is_some_and(|n| n <= u32::MAX as u64),
                };
                if key == "type" && x.is_u64() {
                    continue;
                }
                let given = genes::replaced(&v, &at, &x);
                check(&format!("{x} as {at}"), &given, ok.then_some(&given))?;
            }
        }
        ch.state(H::new().u(what as u64).s(&at).get());
        ch.trans(27);
        ch.validated();
        Ok(())
    });

    run.section("positions", "the positions of every kind of strategy, written and read", |ch| {
        let kind = ch.pick(28);
        let p = params(base(kind, 0, ch.pick(9)).strategy, HOUR, stop_loss(ch.pick(5), 0), take_profit(ch.pick(4), 0));
        let s = run_on(&p, cfg, market);
        for x in &s.positions {
            let written = serde_json::to_string(x).unwrap();
            let back: Position = serde_json::from_str(&written).map_err(|e| Stop::Fail(format!("{written} is refused: {e}")))?;
            let (a, b) = (serde_json::from_str::<Value>(&written).unwrap(), serde_json::to_value(&back).unwrap());
            ensure!(same_values(&a, &b), "{written} is read as {b}");
            let (a, b) = (pos(x), pos(&back));
            ensure!(
                a.long == b.long && a.open_time == b.open_time && a.close_time == b.close_time && a.reason == b.reason
                    && same_number(a.open.price, b.open.price) && same_number(a.close.size, b.close.size)
                    && same_number(a.open.fee, b.open.fee) && same_number(a.close.quote, b.close.quote)
                    && same_number(a.borrowed, b.borrowed) && same_number(a.collateral, b.collateral),
                "{} is read as {}", show(x), show(&back)
            );
            ch.state(H::new().s(&written).get());
        }
        ch.hit(if s.positions.is_empty() { "idle" } else { "traded" });
        ch.trans(s.positions.len());
        ch.validated();
        Ok(())
    });

    let d = run.deep(2, 3);
    run.section("generated", &format!("every individual generated with at most {d} deviating draws, written and read"), |ch| {
        let ctx: TradingParamsContext = read(&json!({"trader": {"intervals": [HOUR, DAY]}})).unwrap();
        ch.set_devs(d);
        let p = controlled(ch, Menu::SMALL, || TradingParams::generate(&mut StdRng::seed_from_u64(1), &ctx));
        let written = serde_json::to_string(&p).unwrap();
        let shape = j_params(&p);
        let back: TradingParams = serde_json::from_str(&written).map_err(|e| Stop::Fail(format!("{written} is refused: {e}")))?;
        ensure!(same_values(&shape, &j_params(&back)), "{written} is read as {back:?} instead of {p:?}");
        ch.state(H::new().s(&written).get());
        ch.trans(2);
        ch.validated();
        Ok(())
    });

    run.section("omitted", "every kind of strategy x 3 variants of the rest: contexts with every gene pinned but one, that one left out, null or of no variant: the others stay and that one varies", |ch| {
        let kind = ch.pick(28);
        let v = j_params(&base(kind, 1, ch.pick(3)));
        let all: Vec<String> = genes::genes(&v).into_iter().filter(|g| g != "/trader/interval" && !v.pointer(g).unwrap().is_null()).collect();
        let free = ch.of(&all).clone();
        let inside = |g: &str, of: &str| g == of || g.starts_with(&format!("{of}/"));
        let pinned: Vec<String> = all.iter().filter(|g| !inside(g, &free)).cloned().collect();
        let c = genes::pinning(&v, &pinned, &[HOUR]);
        let ctx: TradingParamsContext = read(&c).map_err(|e| Stop::Fail(format!("{c} is refused: {e}")))?;
        let (p, k) = parent(&free);
        let mut explicit = c.clone();
        let none = if genes::is_part(k) { json!({"type": "None"}) } else { Value::Null };
        match explicit.pointer_mut(p) {
            Some(Value::Object(m)) => m.insert(k.to_string(), none),
            _ => return Err(Stop::Prune),
        };
        let nothing: TradingParamsContext = read(&explicit).map_err(|e| Stop::Fail(format!("{explicit} is refused: {e}")))?;
        let rewritten = serde_json::to_value(&ctx).unwrap();
        let again: TradingParamsContext = read(&rewritten).map_err(|e| Stop::Fail(format!("{c} is written as {rewritten}, which is refused: {e}")))?;
        let mut seen = BTreeSet::new();
        for seed in 0..60 {
            let one = |ctx: &TradingParamsContext| j_params(&TradingParams::generate(&mut StdRng::seed_from_u64(seed), ctx));
            let x = one(&ctx);
            for g in &pinned {
                let got = x.pointer(g);
                let (got, want) = if genes::is_part(g.rsplit('/').next().unwrap()) { (got.and_then(|x| x.get("type")), v.pointer(g).unwrap().get("type")) } else { (got, v.pointer(g)) };
                ensure!(got == want, "{c} gives {x}, where {g} is not as pinned");
            }
            ensure!(one(&nothing) == x, "{c} gives {x} but {explicit} gives {}", one(&nothing));
            ensure!(one(&again) == x, "{c} gives {x} but, once written and read, {}", one(&again));
            seen.insert(x.pointer(&free).unwrap().to_string());
        }
        ensure!(seen.len() > 1 || free == "/strategy/buffer_interval", "{c}: {free} is {seen:?} every time");
        ch.state(H::new().s(&c.to_string()).get());
        ch.trans(180);
        ch.validated();
        Ok(())
    });

    run.section("pins", "every kind of strategy x 3 variants of the rest: contexts that pin everything, with each of 26 other values in each place", |ch| {
        let kind = ch.pick(28);
        let v = j_params(&base(kind, 1, ch.pick(3)));
        let all: Vec<String> = genes::genes(&v).into_iter().filter(|g| g != "/trader/interval").collect();
        let c = genes::pinning(&v, &all, &[HOUR]);
        let spots: Vec<String> = places(&c).into_iter().filter(|p| !p.starts_with("/trader")).collect();
        let at = ch.of(&spots).clone();
        let m = mistakes();
        let x = ch.of(&m).clone();
        let k = kind_of(&at, &v);
        let given = genes::replaced(&c, &at, &x);
        let in_ma = v.pointer(parent(&at).0).is_some_and(|p| p["type"].as_str().is_some_and(|t| genes::MAS.contains(&t)) && !at.starts_with("/stop") && !at.starts_with("/take"));
        let in_list = v.pointer(parent(&at).0).is_some_and(Value::is_array);
        // A gene may be null, which leaves it free; a part may be empty, which leaves all of it free.
        let gene = !in_ma && !in_list && k != Kind::Tag && k != Kind::Part;
        let plain = at.ends_with("/double_ma") || at.ends_with("/stoch") || at.ends_with("/basic") || at.ends_with("/trailing");
        if (k == Kind::Tag && (x.is_u64() || x == "None")) || (plain && x.is_array()) {
            return Err(Stop::Prune);
        }
        let free = (gene || at.ends_with("/ma")) && x.is_null() || plain && x == json!({});
        let want = if free { None } else { Some(reading(k, &x)) };
        match (read::<TradingParamsContext>(&given), want) {
            (Ok(_), None) => ch.hit("left free"),
            (Ok(ctx), Some(Some(w))) => {
                let got = j_params(&TradingParams::generate(&mut StdRng::seed_from_u64(1), &ctx));
                let want = genes::replaced(&v, &at, &w);
                ensure!(equal(&got, &want), "{given} gives {got} instead of {want}");
                ch.hit("pinned");
            }
            (Err(_), Some(None)) => ch.hit("refused"),
            (Ok(_), Some(None)) => fail!("{x} as {at} is accepted in {given}"),
            (Err(e), _) => fail!("{x} as {at} is refused in {given}: {e}"),
        }
        ch.state(H::new().u(kind as u64).s(&at).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });

    let n = run.deep(20_000, 200_000);
    run.section("digits", &format!("{n} thresholds of each of 1 to 17 digits, written and read"), |ch| {
        let d = 1 + ch.pick(17) as u32;
        for i in 0..n as u64 {
            // Spread over the numbers of so many digits; the last digit is never 0.
            let (low, high) = (10u64.pow(d - 1), 10u64.pow(d));
            let m = low + (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) % (high - low).max(1));
            let m = if m % 10 == 0 { m + 1 } else { m };
            let x: f64 = format!("{m}e-{}", d as i32 - 1 + (i % 4) as i32).parse().unwrap();
            let p = tp_basic(x, x);
            let written = serde_json::to_string(&p).unwrap();
            let back: TakeProfitP = serde_json::from_str(&written).map_err(|e| Stop::Fail(format!("{written} is refused: {e}")))?;
            let TakeProfitP::Basic(b) = back else { fail!("{written} is read as {back:?}") };
            ensure!(same_number(x, b.up_threshold) && same_number(x, b.down_threshold), "{x:?} is written as {written} and read as {b:?}");
        }
        ch.state(d as u64);
        ch.trans(n);
        ch.validated();
        Ok(())
    });
    let off = LAST_BIT.load(Ordering::Relaxed);
    if off > 0 {
        run.finding("digits", "last-bit", "a number whose shortest text has more than 15 digits or a power of ten beyond 22 may be read from JSON off by its last bit (9.626065193446697 is read as 9.626065193446696)");
        run.extra.insert("numbers_read_off_by_the_last_bit".into(), json!(off));
    }
}

fn run_on(p: &TradingParams, c: &Cfg, cs: &[Candle]) -> TradingSummary {
    mc::tkit::run(p, c, cs, true, true)
}
fn text(p: &TradingParams) -> Value {
    j_params(p)
}

fn main() {
    main_with(&[("C32", c32)]);
}
