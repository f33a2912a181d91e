//! C36: what makes no sense is refused, anything else can be run.
use juno::genetics::crossover::UniformCrossover;
use juno::genetics::mutation::UniformMutation;
use juno::genetics::reinsertion::*;
use juno::genetics::selection::*;
use juno::genetics::*;
use juno::indicators::{self, *};
use juno::strategies::*;
use juno::trading::*;
use juno::utils::MidTrendPolicy;
use juno::{Candle, Interval};
use mc::tkit::*;
use mc::util::*;
use mc::*;
use rand::prelude::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};

const POLICIES: [MidTrendPolicy; 3] = [MidTrendPolicy::Current, MidTrendPolicy::Previous, MidTrendPolicy::Ignore];
const KINDS: usize = sense::MA_KINDS;

/// Averages whose period is fine but nothing else has to be.
fn odd_mas(period: u32) -> Vec<MAParams> {
    let mut v: Vec<MAParams> = (0..KINDS).map(|k| sense::kind_of_ma(k, period)).collect();
    for s in [-1.0, -0.0, 0.0, 5e-324, 1e-9, 0.5, 1.0, 1.0 + f64::EPSILON, 2.0, 1e300] {
        v.push(MAParams::Ema(EmaParams { period, smoothing: Some(s) }));
    }
    for offset in [-0.5, 0.0, 5e-324, 0.5, 1.0 - f64::EPSILON / 2.0, 1.0, 1.5] {
        for sigma in [None, Some(0), Some(1), Some(6), Some(u32::MAX)] {
            v.push(MAParams::Alma(AlmaParams { period, offset, sigma }));
        }
    }
    v
}

const LEN: usize = 16;
/// A loop of up to 3 closes, flat ones and wild ones among them.
fn closes(ch: &mut Ch) -> Vec<f64> {
    let n = 1 + ch.pick(3);
    let l: Vec<f64> = (0..n).map(|_| *ch.of(&[2.0, 1.0, 1e6])).collect();
    (0..LEN).map(|i| l[i % n]).collect()
}
static DEEP: AtomicBool = AtomicBool::new(false);
/// Few enough to go with a lot of parameters, unless there is a lot of time.
fn few_closes(ch: &mut Ch) -> Vec<f64> {
    match ch.pick(if DEEP.load(Ordering::Relaxed) { 5 } else { 4 }) {
        0 => (0..LEN).map(|i| if i % 4 < 2 { 2.0 } else { 1.0 }).collect(),
        1 => (0..LEN).map(|i| 1.0 + i as f64).collect(),
        2 => (0..LEN).map(|i| 64.0 - i as f64 * i as f64 / 4.0).collect(),
        3 => vec![1.0; LEN],
        _ => closes(ch),
    }
}

fn trade_on(p: &TradingParams, cs: &[Candle]) -> Result<TradingSummary, String> {
    guarded(|| run(p, &Cfg::BASE, cs, true, true))
}

fn check(ch: &mut Ch, p: &TradingParams, closes: &[f64]) -> Res {
    let i = p.trader.interval.0;
    let cs = candles(19_000 * DAY, i, closes);
    note!(ch, "{p:?} on {closes:?}");
    let r = trade_on(p, &cs);
    ch.trans(cs.len());
    ch.state(H::new().s(&format!("{p:?}{closes:?}")).get());
    ch.validated();
    match (sense::trading(p), r) {
        (Ok(()), Ok(s)) => {
            ch.hit("traded");
            let need = sense::need(&p.strategy);
            if need > cs.len() as u64 {
                ch.hit("not enough candles");
                ensure!(s.positions.is_empty(), "{p:?}: {} positions on {} candles, though {need} are needed for advice", s.positions.len(), cs.len());
            } else if !s.positions.is_empty() {
                ch.hit("with positions");
            }
            Ok(())
        }
        (Ok(()), Err(e)) => fail!("{p:?} on {closes:?}: refused: {e}"),
        (Err(_), Err(_)) => {
            ch.hit("refused");
            Ok(())
        }
        (Err(why), Ok(s)) => fail!("{p:?}: {why}, but it is traded, with {} positions", s.positions.len()),
    }
}

fn plain(s: StrategyParams) -> TradingParams {
    params(s, HOUR, NO_SL, NO_TP)
}
/// The signal by itself, or within something else.
fn dress(ch: &mut Ch, s: SignalParams) -> StrategyParams {
    match ch.pick(3) {
        0 => sense::of(s),
        1 => StrategyParams::Sig(SigParams { sig: s, persistence: 1, mid_trend_policy: MidTrendPolicy::Current, buffer_interval: None }),
        _ => {
            let osc = OscillatorParams::Rsi(RsiParams { period: 2, up_threshold: 70.0, down_threshold: 30.0 });
            StrategyParams::SigOsc(sig_osc(s, osc, "Prevent", 0, MidTrendPolicy::Ignore))
        }
    }
}

// --- What is too much for this process is asked of another one.

struct Helper {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Helper {
    fn start() -> Helper {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("--helper").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut child = c.spawn().unwrap();
        Helper { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child }
    }
    /// None: it died of it.
    fn ask(&mut self, v: &Value) -> Option<Value> {
        writeln!(self.to, "{v}").ok()?;
        let mut line = String::new();
        match self.from.read_line(&mut line) {
            Ok(n) if n > 0 => serde_json::from_str(&line).ok(),
            _ => None,
        }
    }
}
impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static HELPER: RefCell<Option<Helper>> = const { RefCell::new(None) };
}
fn ask(v: &Value) -> Option<Value> {
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        let r = h.get_or_insert_with(Helper::start).ask(v);
        if r.is_none() {
            *h = None;
        }
        r
    })
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}
fn helper() -> ! {
    // RLIMIT_AS and RLIMIT_CORE
    unsafe {
        setrlimit(9, &[4 << 30, 4 << 30]);
        setrlimit(4, &[0, 0]);
    }
    for line in std::io::stdin().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = if v["population"].is_u64() {
            let n = |k: &str| v[k].as_u64().unwrap() as usize;
            evolve(n("population"), n("generations"), n("best"))
        } else {
            let p: TradingParams = serde_json::from_value(v["params"].clone()).unwrap();
            let closes: Vec<f64> = serde_json::from_value(v["closes"].clone()).unwrap();
            let cs = candles(19_000 * DAY, p.trader.interval.0, &closes);
            match trade_on(&p, &cs) {
                Ok(s) => json!({ "positions": s.positions.len() }),
                Err(e) => json!({ "refused": e }),
            }
        };
        println!("{r}");
    }
    std::process::exit(0);
}

#[derive(Clone, Copy, Debug)]
struct One(u32);
impl Chromosome for One {
    type Context = ();
    fn len() -> usize {
        1
    }
    fn generate(rng: &mut StdRng, _: &()) -> Self {
        One(rng.gen_range(0..100))
    }
    fn cross(&mut self, other: &mut Self, _: usize) {
        std::mem::swap(self, other)
    }
    fn mutate(&mut self, rng: &mut StdRng, _: usize, _: &()) {
        *self = Self::generate(rng, &())
    }
}
const ENOUGH: &str = "enough of this";
thread_local! {
    static ROUNDS: Cell<usize> = const { Cell::new(0) };
}
/// Values the number, until it has done so often enough.
struct Valued;
impl Evaluation for Valued {
    type Chromosome = One;
    fn evaluate(&self, population: &mut [Individual<One>]) {
        if ROUNDS.with(|r| r.replace(r.get() + 1)) > 20 {
            panic!("{ENOUGH}");
        }
        for i in population.iter_mut() {
            i.fitness = i.chromosome.0 as f64;
        }
    }
}
fn evolve(population: usize, generations: usize, best: usize) -> Value {
    ROUNDS.with(|r| r.set(0));
    let r = guarded(|| {
        let algo = GeneticAlgorithm::new(Valued, EliteSelection::new(false), UniformCrossover::new(0.5), UniformMutation::new(0.25), EliteReinsertion::new(0.75, 0.5));
        algo.evolve(population, generations, best, Some(7), |_, _| (), &())
    });
    match r {
        Ok(e) => json!({ "generations": e.generations.len(), "best": e.generations.iter().map(|g| g.hall_of_fame.len()).collect::<Vec<_>>() }),
        Err(e) if e.contains(ENOUGH) => json!({ "under way": true }),
        Err(e) => json!({ "refused": e }),
    }
}

/// The operator with these rates is made, or is refused.
fn made<T>(what: String, sensible: bool, f: impl FnOnce() -> T) -> Res {
    match guarded(f) {
        Ok(_) if !sensible => fail!("{what} is accepted"),
        Err(e) if sensible => fail!("{what} is refused: {e}"),
        _ => Ok(()),
    }
}

fn c36(run: &mut Run) {
    run.assume("intervals of strategies over longer candles are multiples of the candles' interval; thresholds of exits may be anything; rates between zero and the least step of a number around one are not judged");
    DEEP.store(run.thorough(), Ordering::Relaxed);
    let series = run.deep("4 price series", "4 price series and every loop of 1 to 3 closes out of 3");
    run.section("averages", &format!("every kind of moving average x periods 0..=3 and 7 (smoothing, offset and deviation at, within and beyond their bounds) in a single-average and a four-week strategy, alone and filtered x every loop of 1 to 3 closes out of 3, over {LEN} candles"), |ch| {
        let n = *ch.of(&[0u32, 1, 2, 3, 7]);
        let m = *ch.of(&odd_mas(n));
        let s = if ch.flag() { SignalParams::FourWeekRule(FourWeekRuleParams { period: *ch.of(&[0, 1, 2, 17]), ma: m }) } else { SignalParams::SingleMA(SingleMAParams { ma: m }) };
        let p = plain(dress(ch, s));
        let c = if ch.flag() { few_closes(ch) } else { closes(ch) };
        check(ch, &p, &c)
    });
    run.section("pairs", &format!("two averages of any kinds over 0..=3 and 20 each, with and without thresholds x {series}"), |ch| {
        let (a, b) = (sense::kind_of_ma(ch.pick(KINDS), *ch.of(&[0, 1, 2, 3, 20])), sense::kind_of_ma(ch.pick(KINDS), *ch.of(&[0, 1, 2, 3, 20])));
        let s = match ch.pick(3) {
            0 => SignalParams::DoubleMA(double_ma(a, b)),
            1 => SignalParams::DoubleMA2(DoubleMA2Params { pos_threshold: 0.5, neg_threshold: -0.5, mas: (a, b) }),
            _ => SignalParams::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(a, b), stoch: stoch_params(2, 1, 1, 60.0, 40.0) }),
        };
        let c = few_closes(ch);
        check(ch, &plain(sense::of(s)), &c)
    });
    run.section("thresholds", &format!("two averages with every pair of thresholds at, within and beyond the bounds x both orders x {series}, alone and filtered"), |ch| {
        let pos = *ch.of(&[-1.0, -0.5, -0.0, 0.0, 5e-324, 0.1, 0.9, 1.0 - f64::EPSILON / 2.0, 1.0, 1.5, 1e300]);
        let neg = *ch.of(&[-1e300, -1.5, -1.0 - f64::EPSILON, -1.0, -0.9, -0.1, -5e-324, -0.0, 0.0, 0.1, 0.5, 1.5]);
        let mas = if ch.flag() { (sma(2), sma(1)) } else { (sma(1), sma(2)) };
        let p = plain(dress(ch, SignalParams::DoubleMA2(DoubleMA2Params { pos_threshold: pos, neg_threshold: neg, mas })));
        let c = few_closes(ch);
        check(ch, &p, &c)
    });
    run.section("triples", &format!("three averages of one or of mixed kinds over 0..=4 each x {series}, alone and filtered"), |ch| {
        let k = ch.pick(KINDS + 3);
        let kind = |i: usize| if k < KINDS { k } else { (2 * i + k) % KINDS };
        let mas = (sense::kind_of_ma(kind(0), ch.pick(5) as u32), sense::kind_of_ma(kind(1), ch.pick(5) as u32), sense::kind_of_ma(kind(2), ch.pick(5) as u32));
        let p = plain(dress(ch, SignalParams::TripleMA(TripleMAParams { mas })));
        let c = few_closes(ch);
        check(ch, &p, &c)
    });
    run.section("convergence", &format!("MACD with every short and long period out of 0..=4, 12, 26 and 40 and signal period out of 0, 1, 2, 9 and 30 x {series}, alone and filtered"), |ch| {
        let n = [0, 1, 2, 3, 4, 12, 26, 40];
        let periods = (*ch.of(&n), *ch.of(&n));
        let signal_period = *ch.of(&[0, 1, 2, 9, 30]);
        let p = plain(dress(ch, SignalParams::Macd(MacdParams { periods, signal_period })));
        let c = few_closes(ch);
        check(ch, &p, &c)
    });
    run.section("oscillators", &format!("stochastics with every period out of 0..=3 and 20 and strengths over 0..=3 and 20, preventing, enforcing and confirming x thresholds in and out of order and range x {series}"), |ch| {
        let t = *ch.of(&[(60.0, 40.0), (40.0, 60.0), (0.0, 100.0), (-5.0, 500.0)]);
        let n = [0, 1, 2, 3, 20];
        let osc = if ch.flag() {
            OscillatorParams::Stoch(stoch_params(*ch.of(&n), *ch.of(&n), *ch.of(&n), t.0, t.1))
        } else {
            OscillatorParams::Rsi(RsiParams { period: *ch.of(&n), up_threshold: t.0, down_threshold: t.1 })
        };
        let (d, filter) = (double_ma(sma(1), sma(2)), *ch.of(&["Prevent", "Enforce", "both"]));
        let s = match (filter, osc) {
            ("both", OscillatorParams::Stoch(stoch)) => StrategyParams::DoubleMAStoch(DoubleMAStochParams { double_ma: d, stoch }),
            ("both", _) => return Err(Stop::Prune),
            _ => StrategyParams::SigOsc(sig_osc(SignalParams::DoubleMA(d), osc, filter, ch.pick(2) as u32, POLICIES[ch.pick(3)])),
        };
        let c = few_closes(ch);
        check(ch, &plain(s), &c)
    });
    run.section("within", &format!("signals that make sense and ones that break one rule each, behind every filter: persistence 0, 1, 2 and 50 x policies x every longer interval (shorter, equal, longer, the week, more than it, the month, the year), or oscillators that do and do not make sense x {series}"), |ch| {
        let sig = *ch.of(&sense::samples());
        let persistence = *ch.of(&[0, 1, 2, 50]);
        let policy = POLICIES[ch.pick(3)];
        let (s, interval) = if ch.flag() {
            let i = *ch.of(&[HOUR, DAY]);
            let b = *ch.of(&[None, Some(0), Some(1), Some(HOUR / 2), Some(HOUR), Some(2 * HOUR), Some(DAY), Some(7 * DAY), Some(8 * DAY), Some(30 * DAY), Some(2_629_746_000), Some(365 * DAY), Some(31_556_952_000)]);
            (StrategyParams::Sig(SigParams { sig, persistence, mid_trend_policy: policy, buffer_interval: b.map(Interval) }), i)
        } else {
            let osc = if ch.flag() {
                OscillatorParams::Stoch(stoch_params(ch.pick(2) as u32, ch.pick(2) as u32, ch.pick(2) as u32, 70.0, 30.0))
            } else {
                OscillatorParams::Rsi(RsiParams { period: ch.pick(2) as u32, up_threshold: 70.0, down_threshold: 30.0 })
            };
            (StrategyParams::SigOsc(sig_osc(sig, osc, *ch.of(&["Prevent", "Enforce"]), persistence, policy)), HOUR)
        };
        let p = params(s, interval, NO_SL, NO_TP);
        let c = few_closes(ch);
        check(ch, &p, &c)
    });
    run.section("exits", &format!("every stop loss and take profit with every pair of 8 thresholds (negative, none, all, more than all), trends over 0..=3 and 20 with easings, locked and not x {series}"), |ch| {
        let t = [0.0, -0.1, -2.0, 0.1, 0.9, 1.0, 2.0, 1e300];
        let (a, b) = (*ch.of(&t), *ch.of(&t));
        let (sl, tp) = match ch.pick(7) {
            0 => (sl_basic(a, b), NO_TP),
            1 => (sl_trailing(a, b), NO_TP),
            2 => (sl_both(a, b, b, a), NO_TP),
            3 => (sl_legacy(a, ch.flag()), tp_legacy(b)),
            4 => (NO_SL, tp_basic(a, b)),
            5 => (NO_SL, tp_legacy(a)),
            _ => {
                let period = *ch.of(&[0, 1, 2, 3, 20]);
                (NO_SL, tp_trending((a, b), (b, a), period, ch.flag(), *ch.of(&["Linear", "QuadIn", "SineInout", "ExpoIn"])))
            }
        };
        let p = params(*ch.of(&[up_down(), StrategyParams::FourWeekRule(FourWeekRuleParams { period: 1, ma: sma(2) })]), HOUR, sl, tp);
        let c = few_closes(ch);
        check(ch, &p, &c)
    });
    run.section("indicators", "every indicator made by itself, by constructor and by code, over 0..=3, 50 and 1000, fed 60 prices", |ch| {
        let n = *ch.of(&[0u32, 1, 2, 3, 50, 1000]);
        let prices: Vec<f64> = (0..60).map(|i| if i % 5 < 3 { 2.0 } else { 1.0 + i as f64 }).collect();
        ch.trans(prices.len());
        let k = ch.pick(14);
        ch.state(H::new().u(n.into()).u(k as u64).get());
        ch.validated();
        let what = format!("indicator {k} over {n}");
        made(what, n > 0, || {
            let hl = prices.iter().map(|p| (p * 1.125, p * 0.875, *p));
            match k {
                0..=6 => {
                    let code = [adler32::ALMA, adler32::EMA, adler32::EMA2, adler32::SMA, adler32::SMMA, adler32::DEMA, adler32::KAMA][k];
                    let mut m = ma_from_adler32(code, n);
                    prices.iter().for_each(|p| m.update(*p));
                }
                7 => {
                    let mut i = indicators::Rsi::new(n);
                    prices.iter().for_each(|p| i.update(*p));
                }
                8 => {
                    let mut i = indicators::Adx::new(n);
                    hl.for_each(|(h, l, _)| i.update(h, l));
                }
                9 => {
                    let mut i = indicators::Stoch::new(n, 1, 1);
                    hl.for_each(|(h, l, c)| i.update(h, l, c));
                }
                10 => {
                    let mut i = indicators::Stoch::new(2, n, 1);
                    hl.for_each(|(h, l, c)| i.update(h, l, c));
                }
                11 => {
                    let mut i = indicators::Stoch::new(2, 1, n);
                    hl.for_each(|(h, l, c)| i.update(h, l, c));
                }
                12 => {
                    let mut i = indicators::Macd::new(n, n, 1);
                    prices.iter().for_each(|p| i.update(*p));
                }
                _ => {
                    let mut i = indicators::Macd::new(1, 2, n);
                    prices.iter().for_each(|p| i.update(*p));
                }
            }
        })
    });
    run.section("huge", "every period there is, one at a time, and pairs of them, at 2^20, 2^31-1, 2^31, 2^32-2 and 2^32-1, and levels and periods of filters and trends likewise, in a process that may have 4 GB: traded without a position, or as without them", |ch| {
        let n = *ch.of(&[u32::MAX, 1 << 20, i32::MAX as u32, 1 << 31, u32::MAX - 1]);
        let k = ch.pick(KINDS);
        use SignalParams as S;
        let d = double_ma(sma(1), sma(2));
        let s = match ch.pick(14) {
            0 => S::SingleMA(SingleMAParams { ma: sense::kind_of_ma(k, n) }),
            1 => S::DoubleMA(double_ma(sma(1), sense::kind_of_ma(k, n))),
            2 => S::DoubleMA(double_ma(sense::kind_of_ma(k, n - 1), sense::kind_of_ma(k, n))),
            3 => S::DoubleMA2(DoubleMA2Params { pos_threshold: 0.5, neg_threshold: -0.5, mas: (sma(1), sense::kind_of_ma(k, n)) }),
            4 => S::TripleMA(TripleMAParams { mas: (sma(1), sma(2), sense::kind_of_ma(k, n)) }),
            5 => S::TripleMA(TripleMAParams { mas: (sense::kind_of_ma(k, n - 2), sense::kind_of_ma(k, n - 1), sense::kind_of_ma(k, n)) }),
            6 => S::FourWeekRule(FourWeekRuleParams { period: 1, ma: sense::kind_of_ma(k, n) }),
            7 => S::FourWeekRule(FourWeekRuleParams { period: n, ma: sense::kind_of_ma(k, if ch.flag() { n } else { 1 }) }),
            8 => S::Macd(MacdParams { periods: if ch.flag() { (n, n) } else { (1, n) }, signal_period: if ch.flag() { n } else { 1 } }),
            9 => S::Macd(MacdParams { periods: (1, 2), signal_period: n }),
            10 => {
                let v = [1, n];
                let (a, b, c) = (v[ch.pick(2)], v[ch.pick(2)], v[ch.pick(2)]);
                if a.max(b).max(c) == 1 {
                    return Err(Stop::Prune);
                }
                S::DoubleMAStoch(DoubleMAStochParams { double_ma: d, stoch: stoch_params(a, b, c, 60.0, 30.0) })
            }
            _ => S::DoubleMA(d),
        };
        let s = match s {
            S::DoubleMA(DoubleMAParams { mas: (_, MAParams::Sma(SmaParams { period: 2 })) }) => {
                let persistence = if ch.flag() { n } else { 0 };
                match ch.pick(4) {
                    0 => StrategyParams::Sig(SigParams { sig: s, persistence: n, mid_trend_policy: POLICIES[ch.pick(3)], buffer_interval: None }),
                    1 => StrategyParams::SigOsc(sig_osc(s, OscillatorParams::Rsi(RsiParams { period: n, up_threshold: 70.0, down_threshold: 30.0 }), *ch.of(&["Prevent", "Enforce"]), persistence, POLICIES[ch.pick(3)])),
                    2 => StrategyParams::SigOsc(sig_osc(s, OscillatorParams::Stoch(stoch_params(1, n, n, 70.0, 30.0)), "Prevent", persistence, POLICIES[ch.pick(3)])),
                    _ => sense::of(s),
                }
            }
            s => match ch.pick(2) {
                0 => sense::of(s),
                _ => StrategyParams::Sig(SigParams { sig: s, persistence: *ch.of(&[0, n]), mid_trend_policy: MidTrendPolicy::Ignore, buffer_interval: None }),
            },
        };
        let mut p = plain(s);
        let idle = sense::need(&p.strategy) > LEN as u64;
        if !idle {
            p.take_profit = tp_trending((0.01, 0.02), (0.01, 0.02), n, false, "Linear");
        }
        let c = few_closes(ch);
        note!(ch, "{p:?}");
        ch.trans(c.len());
        ch.state(H::new().s(&format!("{p:?}{c:?}")).get());
        ch.validated();
        let Some(a) = ask(&json!({ "params": p, "closes": c })) else { fail!("{p:?} on {} candles ends the process", c.len()) };
        let Some(got) = a["positions"].as_u64() else { fail!("{p:?} is refused: {a}") };
        let want = if idle {
            0
        } else {
            ch.hit("traded");
            // A trend that is yet to be seen is none, for however long that is.
            run_untrended(&p, &c)
        };
        ensure!(got == want as u64, "{p:?} on {c:?}: {got} positions instead of {want}");
        Ok(())
    });
    run.section("evolutions", "every population of 0..=4 x 0..=2 generations x 0..=3 best: none or one individual and none reported are refused", |ch| {
        let (pop, gens, best) = (ch.pick(5), ch.pick(3), ch.pick(4));
        let r = evolve(pop, gens, best);
        ch.trans(gens + 1);
        ch.state(H::new().u((pop * 100 + gens * 10 + best) as u64).get());
        ch.validated();
        if pop < 2 || best < 1 {
            ensure!(r["refused"].is_string(), "a population of {pop} with {best} best, {gens} generations: {r}");
        } else {
            ensure!(r["generations"] == json!(gens + 1) && r["best"] == json!(vec![best.min(pop); gens + 1]), "a population of {pop} with {best} best, {gens} generations: {r}");
        }
        Ok(())
    });
    run.section("huge evolutions", "populations of 2^36 to 2^64-1, generations and numbers of best of 2^32 to 2^64-1, in a process that may have 4 GB: the first are refused, the others run", |ch| {
        let big = [1u64 << 32, 1 << 36, 1 << 40, 1 << 60, 1 << 63, u64::MAX - 1, u64::MAX];
        let (pop, gens, best) = match ch.pick(3) {
            0 => (big[1 + ch.pick(6)], *ch.of(&[0u64, 1, 1 << 40]), *ch.of(&[1u64, 1 << 40, u64::MAX])),
            1 => (*ch.of(&[2u64, 5]), *ch.of(&big), *ch.of(&[1u64, 1 << 40, u64::MAX])),
            _ => (*ch.of(&[2u64, 5]), *ch.of(&[0u64, 2]), *ch.of(&big)),
        };
        let what = format!("a population of {pop} over {gens} generations with {best} best");
        note!(ch, "{what}");
        ch.trans(1);
        ch.state(H::new().s(&what).get());
        ch.validated();
        let Some(a) = ask(&json!({ "population": pop, "generations": gens, "best": best })) else { fail!("{what} ends the process") };
        if pop > 1000 {
            ensure!(a["refused"].is_string(), "{what}: {a}");
        } else if gens > 1000 {
            ensure!(a["under way"] == json!(true), "{what}: {a}");
        } else {
            ensure!(a["generations"] == json!(gens + 1), "{what}: {a}");
        }
        Ok(())
    });
    run.section("operators", "every operator at, within and beyond the bounds of its rates", |ch| {
        let v = [-1.0f32, -0.001, 0.0, 0.001, 0.5, 0.999, 1.0, 1.001, 2.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
        let (r, g) = (*ch.of(&v), *ch.of(&v));
        let k = ch.pick(5);
        ch.trans(1);
        ch.state(H::new().u(r.to_bits().into()).u(g.to_bits().into()).u(k as u64).get());
        ch.validated();
        let within = |x: f32| (0.0..=1.0).contains(&x);
        let inside = |x: f32| x > 0.0 && x < 1.0;
        match k {
            0 => made(format!("crossover {r}"), within(r), || UniformCrossover::new(r)),
            1 => made(format!("mutation {r}"), within(r), || UniformMutation::new(r)),
            2 => made(format!("elite reinsertion {r}, {g}"), inside(r) && within(g), || EliteReinsertion::new(r, g)),
            3 => made(format!("fitness reinsertion {r}"), r > 1.0, || FitnessReinsertion::new(r)),
            _ => made(format!("tournament {r}"), inside(r), || TournamentSelection::new(r, true)),
        }
    });
}

/// How many positions there are with trends over more candles than there are.
fn run_untrended(p: &TradingParams, closes: &[f64]) -> usize {
    let p = TradingParams { take_profit: tp_trending((0.01, 0.02), (0.01, 0.02), 1000, false, "Linear"), ..*p };
    trade_on(&p, &candles(19_000 * DAY, HOUR, closes)).unwrap().positions.len()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--helper") {
        helper();
    }
    main_with(&[("C36", c36)])
}
