//! C09–C11: moving averages, oscillators and maturity.
use juno::indicators::*;
use juno::indicators::{Macd, Rsi, Stoch};
use juno::strategies::*;
use juno::utils::MidTrendPolicy;
use juno::{Advice, Interval};
use mc::tkit::*;
use mc::util::*;
use mc::*;

type Hlc = (f64, f64, f64);

/// Which moving average, with the variations of its parameters.
#[derive(Clone, Copy, Debug)]
enum Ma {
    Sma,
    Ema(Option<f64>),
    Ema2,
    Dema,
    Smma,
    Alma(f64, Option<u32>),
    Kama,
}

const MAS: [Ma; 14] = [
    Ma::Sma,
    Ma::Ema(None),
    Ma::Ema(Some(0.25)),
    Ma::Ema(Some(1.0)),
    Ma::Ema(Some(0.6)),
    Ma::Ema2,
    Ma::Dema,
    Ma::Smma,
    Ma::Alma(0.85, None),
    Ma::Alma(0.5, Some(6)),
    Ma::Alma(0.1, Some(1)),
    Ma::Alma(0.99, Some(3)),
    Ma::Alma(0.85, Some(12)),
    Ma::Kama,
];

impl Ma {
    fn params(self, n: usize) -> MAParams {
        let period = n as u32;
        match self {
            Ma::Sma => MAParams::Sma(SmaParams { period }),
            Ma::Ema(smoothing) => MAParams::Ema(EmaParams { period, smoothing }),
            Ma::Ema2 => MAParams::Ema2(Ema2Params { period }),
            Ma::Dema => MAParams::Dema(DemaParams { period }),
            Ma::Smma => MAParams::Smma(SmmaParams { period }),
            Ma::Alma(offset, sigma) => MAParams::Alma(AlmaParams { offset, period, sigma }),
            Ma::Kama => MAParams::Kama(KamaParams { period }),
        }
    }
    fn want(self, p: &[f64], n: usize) -> Option<f64> {
        match self {
            Ma::Sma => refs::sma(p, n),
            Ma::Ema(s) => Some(refs::ema_a(p, s.unwrap_or(refs::ema_factor(n)))),
            Ma::Ema2 => refs::ema2(p, n),
            Ma::Dema => refs::dema(p, n),
            Ma::Smma => refs::smma(p, n),
            Ma::Alma(o, s) => refs::alma(p, n, o, s),
            Ma::Kama => refs::kama(p, n),
        }
    }
    fn code(self) -> Option<u32> {
        // Adler-32 of the names.
        let name = match self {
            Ma::Sma => "sma",
            Ma::Ema(None) => "ema",
            Ma::Ema2 => "ema2",
            Ma::Dema => "dema",
            Ma::Smma => "smma",
            Ma::Alma(o, None) if o == 0.85 => "alma",
            Ma::Kama => "kama",
            _ => return None,
        };
        let (mut a, mut b) = (1u32, 0u32);
        for c in name.bytes() {
            a += c as u32;
            b += a;
        }
        Some(b << 16 | a)
    }
    /// Whether the value is a weighted mean of the prices.
    fn bounded(self) -> bool {
        !matches!(self, Ma::Dema)
    }
}

fn check_ma(ch: &mut Ch, ma: Ma, n: usize, prices: &[f64], from: usize) -> Res {
    let params = ma.params(n);
    ensure!(params.period() as usize == n, "period of {params:?}: {}", params.period());
    let mut x = params.construct();
    let mut y = ma.code().map(|c| ma_from_adler32(c, n as u32));
    let maturity = x.maturity() as usize;
    let scale = prices.iter().copied().fold(0.0, f64::max);
    for t in 1..=prices.len() {
        x.update(prices[t - 1]);
        if let Some(y) = &mut y {
            y.update(prices[t - 1]);
            ensure!(
                y.value() == x.value() && y.mature() == x.mature() && y.maturity() == x.maturity(),
                "{ma:?}({n}) by name code differs after {:?}: {} instead of {}", &prices[..t], y.value(), x.value()
            );
        }
        if t < maturity || (t < from && t > maturity + 1) {
            continue;
        }
        let seen = &prices[..t];
        let Some(want) = ma.want(seen, n) else { fail!("{ma:?}({n}) is mature after {t} prices") };
        let got = x.value();
        ensure!(close(got, want, 1e-11, 1e-13 * scale), "{ma:?}({n}) of {seen:?} is {got} instead of {want}");
        if ma.bounded() {
            let hi = seen.iter().copied().fold(f64::MIN, f64::max);
            let lo = seen.iter().copied().fold(f64::MAX, f64::min);
            let eps = 1e-12 * scale;
            ensure!(got >= lo - eps && got <= hi + eps, "{ma:?}({n}) of {seen:?} is {got}, out of their range");
        }
        ch.state(H::new().f(got).u(n as u64).get());
    }
    note!(ch, "{ma:?}({n}) of {prices:?} = {}", x.value());
    ch.trans(prices.len());
    ch.validated();
    Ok(())
}

/// Stem, then a loop repeated up to the length.
fn lasso<T: Copy>(ch: &mut Ch, items: &[T], stem: usize, cycle: usize, len: usize) -> Vec<T> {
    let s = ch.pick(stem + 1);
    let c = 1 + ch.pick(cycle);
    let mut v: Vec<T> = (0..s).map(|_| *ch.of(items)).collect();
    let l: Vec<T> = (0..c).map(|_| *ch.of(items)).collect();
    while v.len() < len {
        v.push(l[(v.len() - s) % c]);
    }
    v
}

fn c09(run: &mut Run) {
    run.assume("positive finite prices; values agree up to one part in 1e11 (and 1e-13 of the highest price)");
    let depth = run.deep(8, 10);
    let prices = [10.0, 12.5, 9.0, 20.7];
    run.section("sequences", &format!("14 moving averages x periods 1..=5 x every sequence of {depth} prices out of 4"), |ch| {
        let ma = *ch.of(&MAS);
        let n = 1 + ch.pick(5);
        let p: Vec<f64> = (0..depth).map(|_| *ch.of(&prices)).collect();
        check_ma(ch, ma, n, &p, 0)
    });
    let scales = [1e-8, 0.3, 40_000.0];
    let d2 = run.deep(9, 11);
    run.section("magnitudes", &format!("14 moving averages x periods 1..=6 x every sequence of {d2} prices out of 3 of very different magnitude"), |ch| {
        let ma = *ch.of(&MAS);
        let n = 1 + ch.pick(6);
        let p: Vec<f64> = (0..d2).map(|_| *ch.of(&scales)).collect();
        check_ma(ch, ma, n, &p, 0)
    });
    let max = run.deep(40, 300);
    run.section("long", &format!("14 moving averages x periods up to {max} x every lasso (stem up to 2, loop up to 3) over 4 prices to twice the period and more"), |ch| {
        let ma = *ch.of(&MAS);
        let periods: Vec<usize> = [6, 7, 9, 10, 14, 20, 26, 40, 100, 300].into_iter().filter(|n| *n <= max).collect();
        let n = *ch.of(&periods);
        let p = lasso(ch, &prices, 2, 3, 2 * n + 12);
        check_ma(ch, ma, n, &p, 2 * n + 9)
    });
    let k = run.deep(2, 4);
    run.section("every period", &format!("14 moving averages x every period up to 320 x every loop (length up to 3) of {k} prices to twice the period and more"), |ch| {
        let ma = *ch.of(&MAS);
        let n = 1 + ch.pick(320);
        let p = lasso(ch, &prices[..k], 0, 3, 2 * n + 5);
        check_ma(ch, ma, n, &p, 2 * n + 4)
    });
    let len = run.deep(2_500, 6_000);
    run.section("many", &format!("14 moving averages x periods 1, 2, 5, 26, 100 and 257 x every loop (length up to 3) of 4 prices, also on a slow trend: the last 3 of {len} values"), |ch| {
        let ma = *ch.of(&MAS);
        let n = *ch.of(&[1, 2, 5, 26, 100, 257]);
        let trend = *ch.of(&[1.0, 1.001, 0.999]);
        let mut p = lasso(ch, &prices, 0, 3, len);
        let mut f = 1.0;
        for x in &mut p {
            *x *= f;
            f *= trend;
        }
        check_ma(ch, ma, n, &p, len - 2)
    });
}

fn bars(thorough: bool) -> Vec<Hlc> {
    let mut v = vec![
        (12.0, 10.0, 11.0),
        (13.0, 11.0, 13.0),
        (14.0, 8.0, 8.0),
        (11.5, 11.5, 11.5),
    ];
    if thorough {
        v.push((30.0, 11.0, 12.0));
    }
    v
}

fn finite_in(what: impl Fn() -> String, v: f64, hi: f64) -> Res {
    ensure!(v.is_finite() && v >= -1e-9 && v <= hi + 1e-9, "{} is {v}", what());
    Ok(())
}

fn same(what: impl Fn() -> String, got: f64, want: f64) -> Res {
    ensure!(close(got, want, 1e-9, 1e-9), "{} is {got} instead of {want}", what());
    Ok(())
}

const ALL: [&str; 7] = ["macd", "rsi", "stoch", "dm", "di", "dx", "adx"];

/// Runs one indicator; compares at every step from `from` on and around maturity, and ranges always.
fn check_osc(ch: &mut Ch, kind: &str, p: (usize, usize, usize), c: &[Hlc], from: usize) -> Res {
    let (a, b, d) = (p.0 as u32, p.1 as u32, p.2 as u32);
    let closes: Vec<f64> = c.iter().map(|x| x.2).collect();
    let what = |t: usize| format!("{kind}{p:?} after {:?}", &c[..t]);
    let near = |t: usize, m: usize| t >= m && (t >= from || t <= m + 1);
    match kind {
        "macd" => {
            let mut x = Macd::new(a, b, d);
            let m = x.maturity() as usize;
            for t in 1..=c.len() {
                x.update(closes[t - 1]);
                ensure!(x.value.is_finite() && x.signal.is_finite(), "{}: {} {}", what(t), x.value, x.signal);
                if near(t, m) {
                    let Some((line, signal)) = refs::macd(&closes[..t], p.0, p.1, p.2) else { fail!("{} is mature", what(t)) };
                    same(|| what(t), x.value, line)?;
                    same(|| format!("signal of {}", what(t)), x.signal, signal)?;
                    same(|| format!("histogram of {}", what(t)), x.histogram, line - signal)?;
                    ch.state(H::new().f(x.value).f(x.signal).get());
                }
            }
        }
        "rsi" => {
            let mut x = Rsi::new(a);
            let m = x.maturity() as usize;
            for t in 1..=c.len() {
                x.update(closes[t - 1]);
                finite_in(|| what(t), x.value, 100.0)?;
                if near(t, m) {
                    let Some(v) = refs::rsi(&closes[..t], p.0) else { fail!("{} is mature", what(t)) };
                    same(|| what(t), x.value, v)?;
                    ch.state(H::new().f(x.value).get());
                }
            }
        }
        "stoch" => {
            let mut x = Stoch::new(a, b, d);
            let m = x.maturity() as usize;
            for t in 1..=c.len() {
                x.update(c[t - 1].0, c[t - 1].1, c[t - 1].2);
                finite_in(|| format!("k of {}", what(t)), x.k, 100.0)?;
                finite_in(|| format!("d of {}", what(t)), x.d, 100.0)?;
                if near(t, m) {
                    let Some((k, dd)) = refs::stoch(&c[..t], p.0, p.1, p.2) else { fail!("{} is mature", what(t)) };
                    same(|| format!("k of {}", what(t)), x.k, k)?;
                    same(|| format!("d of {}", what(t)), x.d, dd)?;
                    ch.state(H::new().f(x.k).f(x.d).get());
                }
            }
        }
        "dm" => {
            let mut x = DM::new(a);
            let m = x.maturity() as usize;
            for t in 1..=c.len() {
                x.update(c[t - 1].0, c[t - 1].1);
                finite_in(|| what(t), x.plus_value, f64::MAX)?;
                finite_in(|| what(t), x.minus_value, f64::MAX)?;
                if near(t, m) {
                    let Some((u, v)) = refs::dm(&c[..t], p.0) else { fail!("{} is mature", what(t)) };
                    same(|| format!("plus of {}", what(t)), x.plus_value, u)?;
                    same(|| format!("minus of {}", what(t)), x.minus_value, v)?;
                    same(|| format!("sum of {}", what(t)), x.sum(), u + v)?;
                    same(|| format!("difference of {}", what(t)), x.diff(), (u - v).abs())?;
                    ch.state(H::new().f(u).f(v).get());
                }
            }
        }
        "di" => {
            let mut x = DI::new(a);
            let m = x.maturity() as usize;
            for t in 1..=c.len() {
                x.update(c[t - 1].0, c[t - 1].1, c[t - 1].2);
                finite_in(|| what(t), x.plus_value, f64::MAX)?;
                finite_in(|| what(t), x.minus_value, f64::MAX)?;
                if near(t, m) {
                    let Some((u, v)) = refs::di(&c[..t], p.0) else { fail!("{} is mature", what(t)) };
                    same(|| format!("plus of {}", what(t)), x.plus_value, u)?;
                    same(|| format!("minus of {}", what(t)), x.minus_value, v)?;
                    ch.state(H::new().f(u).f(v).get());
                }
            }
        }
        "dx" => {
            let mut x = DX::new(a);
            let m = x.maturity() as usize;
            for t in 1..=c.len() {
                x.update(c[t - 1].0, c[t - 1].1);
                finite_in(|| what(t), x.value, 100.0)?;
                if near(t, m) {
                    let Some(v) = refs::dx(&c[..t], p.0) else { fail!("{} is mature", what(t)) };
                    same(|| what(t), x.value, v)?;
                    ch.state(H::new().f(v).get());
                }
            }
        }
        _ => {
            let mut x = Adx::new(a);
            let m = x.maturity() as usize;
            for t in 1..=c.len() {
                x.update(c[t - 1].0, c[t - 1].1);
                finite_in(|| what(t), x.value, 100.0)?;
                if near(t, m) {
                    let Some(v) = refs::adx(&c[..t], p.0) else { fail!("{} is mature", what(t)) };
                    same(|| what(t), x.value, v)?;
                    ch.state(H::new().f(v).get());
                }
            }
        }
    }
    note!(ch, "{}", what(c.len()));
    ch.trans(c.len());
    ch.validated();
    Ok(())
}

fn small_periods(ch: &mut Ch, kind: &str, max: usize) -> (usize, usize, usize) {
    match kind {
        "macd" => {
            let s = 1 + ch.pick(max - 1);
            let l = s + 1 + ch.pick(max - s);
            (s, l, 1 + ch.pick(3))
        }
        "stoch" => (1 + ch.pick(max), 1 + ch.pick(3), 1 + ch.pick(3)),
        _ => (1 + ch.pick(max), 0, 0),
    }
}

fn c10(run: &mut Run) {
    run.assume("positive finite prices, the close within the candle's range");
    run.assume("directional movement follows the tested implementation: equal movements in both directions are both kept, the first n - 1 movements are summed");
    let bars = bars(run.thorough());
    let depth = run.deep(8, 9);
    run.section("sequences", &format!("7 indicators x small periods x every sequence of {depth} candles out of {}", bars.len()), |ch| {
        let kind = *ch.of(&ALL);
        let p = small_periods(ch, kind, 4);
        let c: Vec<Hlc> = (0..depth).map(|_| *ch.of(&bars)).collect();
        check_osc(ch, kind, p, &c, 0)
    });
    let wild = [(1e-8, 1e-8, 1e-8), (50_000.0, 1e-8, 30_000.0), (3.0, 0.5, 0.5)];
    let d2 = run.deep(9, 10);
    run.section("magnitudes", &format!("7 indicators x small periods x every sequence of {d2} candles out of 3 of very different magnitude: finite and in range"), |ch| {
        let kind = *ch.of(&ALL);
        let p = small_periods(ch, kind, 4);
        let c: Vec<Hlc> = (0..d2).map(|_| *ch.of(&wild)).collect();
        check_osc(ch, kind, p, &c, usize::MAX)
    });
    let long = run.deep(3, 4);
    run.section("long", &format!("7 indicators x usual periods x every lasso (stem up to 2, loop up to {long}) to three times the period and more"), |ch| {
        let kind = *ch.of(&ALL);
        let p = match kind {
            "macd" => *ch.of(&[(12, 26, 9), (12, 25, 9), (5, 35, 5), (11, 26, 9), (26, 26, 2), (12, 27, 9), (12, 26, 1)]),
            "stoch" => *ch.of(&[(14, 3, 3), (5, 3, 3), (20, 1, 6), (1, 9, 9)]),
            _ => *ch.of(&[(5, 0, 0), (6, 0, 0), (14, 0, 0), (25, 0, 0)]),
        };
        let len = match kind {
            "macd" | "stoch" => p.0.max(p.1) * 2 + p.2 + 12,
            _ => p.0 * 3 + 10,
        };
        let c = lasso(ch, &bars, 2, long, len);
        check_osc(ch, kind, p, &c, len - 2)
    });
    let k = run.deep(2, 3);
    run.section("every period", &format!("7 indicators x every period up to 120 (MACD: every pair up to 40, stochastic: every pair up to 40) x every loop (length up to 3) of {k} candles to three times the period and more"), |ch| {
        let kind = *ch.of(&ALL);
        let p = match kind {
            "macd" => {
                let l = 1 + ch.pick(40);
                (1 + ch.pick(l), l, *ch.of(&[1, 9]))
            }
            "stoch" => (1 + ch.pick(40), 1 + ch.pick(40), *ch.of(&[1, 5])),
            _ => (1 + ch.pick(120), 0, 0),
        };
        let len = match kind {
            "macd" | "stoch" => p.0.max(p.1) * 2 + p.2 + 4,
            _ => p.0 * 3 + 4,
        };
        let c = lasso(ch, &bars[..k], 0, 3, len);
        check_osc(ch, kind, p, &c, len)
    });
    let len = run.deep(1_000, 3_000);
    run.section("many", &format!("7 indicators x small and usual periods x every loop (length up to 3) of {} candles, also on a slow trend: the last 2 of {len} values", bars.len()), |ch| {
        let kind = *ch.of(&ALL);
        let p = match kind {
            "macd" => *ch.of(&[(12, 26, 9), (2, 5, 3), (30, 100, 40)]),
            "stoch" => *ch.of(&[(14, 3, 3), (1, 1, 1), (100, 30, 40)]),
            _ => *ch.of(&[(1, 0, 0), (5, 0, 0), (14, 0, 0), (100, 0, 0)]),
        };
        let trend = *ch.of(&[1.0, 1.001, 0.999]);
        let mut c = lasso(ch, &bars, 0, 3, len);
        let mut f = 1.0;
        for x in &mut c {
            *x = (x.0 * f, x.1 * f, x.2 * f);
            f *= trend;
        }
        check_osc(ch, kind, p, &c, len - 1)
    });
    let prices = [10.0, 12.5, 9.0, 20.7];
    let d3 = run.deep(9, 11);
    run.section("closes", &format!("MACD and RSI x small periods x every sequence of {d3} prices out of 4"), |ch| {
        let kind = *ch.of(&["macd", "rsi"]);
        let p = small_periods(ch, kind, 3);
        let c: Vec<Hlc> = (0..d3).map(|_| *ch.of(&prices)).map(|x| (x, x, x)).collect();
        check_osc(ch, kind, p, &c, 0)
    });
}

// ---------------------------------------------------------------------------------------------
// C11

/// Anything that matures.
trait Matures {
    fn maturity(&self) -> u32;
    fn mature(&self) -> bool;
    fn feed(&mut self, c: &juno::Candle);
    /// What it may only say once it is mature.
    fn says(&self) -> Option<String> {
        None
    }
}

macro_rules! matures {
    ($t:ty, $s:ident, $c:ident, $feed:expr) => {
        impl Matures for $t {
            fn maturity(&self) -> u32 {
                <$t>::maturity(self)
            }
            fn mature(&self) -> bool {
                <$t>::mature(self)
            }
            fn feed(&mut self, $c: &juno::Candle) {
                let $s = self;
                $feed
            }
        }
    };
}
matures!(juno::indicators::Macd, s, c, s.update(c.close));
matures!(juno::indicators::Rsi, s, c, s.update(c.close));
matures!(juno::indicators::Stoch, s, c, s.update(c.high, c.low, c.close));
matures!(DM, s, c, s.update(c.high, c.low));
matures!(DI, s, c, s.update(c.high, c.low, c.close));
matures!(DX, s, c, s.update(c.high, c.low));
matures!(Adx, s, c, s.update(c.high, c.low));

struct AnyMa(Box<dyn MA>);
impl Matures for AnyMa {
    fn maturity(&self) -> u32 {
        self.0.maturity()
    }
    fn mature(&self) -> bool {
        self.0.mature()
    }
    fn feed(&mut self, c: &juno::Candle) {
        self.0.update(c.close)
    }
}
struct AnySignal(Box<dyn Signal>);
impl Matures for AnySignal {
    fn maturity(&self) -> u32 {
        self.0.maturity()
    }
    fn mature(&self) -> bool {
        self.0.mature()
    }
    fn feed(&mut self, c: &juno::Candle) {
        self.0.update(c)
    }
    fn says(&self) -> Option<String> {
        (self.0.advice() != Advice::None).then(|| format!("{:?}", self.0.advice()))
    }
}
struct AnyOsc(Box<dyn Oscillator>);
impl Matures for AnyOsc {
    fn maturity(&self) -> u32 {
        self.0.maturity()
    }
    fn mature(&self) -> bool {
        self.0.mature()
    }
    fn feed(&mut self, c: &juno::Candle) {
        self.0.update(c)
    }
    fn says(&self) -> Option<String> {
        match (self.0.overbought(), self.0.oversold()) {
            (false, false) => None,
            x => Some(format!("overbought {} oversold {}", x.0, x.1)),
        }
    }
}

const META: StrategyMeta = StrategyMeta { interval: Interval(HOUR) };

fn any_ma(ch: &mut Ch, n: u32) -> MAParams {
    ch.of(&[Ma::Sma, Ma::Ema(None), Ma::Ema2, Ma::Dema, Ma::Smma, Ma::Alma(0.85, None), Ma::Kama]).params(n as usize)
}

fn any_signal(ch: &mut Ch, k: u32) -> SignalParams {
    match ch.pick(7) {
        0 => SignalParams::DoubleMA(DoubleMAParams { mas: (any_ma(ch, k), any_ma(ch, k + 1)) }),
        1 => SignalParams::DoubleMA2(DoubleMA2Params { neg_threshold: -0.5, pos_threshold: 0.5, mas: (any_ma(ch, k), any_ma(ch, k + 2)) }),
        2 => SignalParams::DoubleMAStoch(DoubleMAStochParams {
            double_ma: DoubleMAParams { mas: (any_ma(ch, k), any_ma(ch, k + 1)) },
            stoch: stoch_params(1 + ch.pick(3) as u32, 2, 2, 80.0, 20.0),
        }),
        3 => {
            let n = 1 + ch.pick(4) as u32;
            SignalParams::FourWeekRule(FourWeekRuleParams { period: k, ma: any_ma(ch, n) })
        }
        4 => SignalParams::Macd(MacdParams { periods: (k, k + 1), signal_period: 1 + ch.pick(3) as u32 }),
        5 => SignalParams::SingleMA(SingleMAParams { ma: any_ma(ch, k) }),
        _ => {
            let (a, b) = (any_ma(ch, k), any_ma(ch, k + 1));
            SignalParams::TripleMA(TripleMAParams { mas: (a, b, sma(k + 2)) })
        }
    }
}

fn any_osc(ch: &mut Ch) -> OscillatorParams {
    match ch.pick(3) {
        0 => OscillatorParams::Rsi(RsiParams { period: 1 + ch.pick(4) as u32, up_threshold: 70.0, down_threshold: 30.0 }),
        1 => OscillatorParams::Rsi(RsiParams { period: 2, up_threshold: 50.0, down_threshold: 49.9 }),
        _ => OscillatorParams::Stoch(stoch_params(1 + ch.pick(3) as u32, 1 + ch.pick(2) as u32, 1 + ch.pick(2) as u32, 70.0, 30.0)),
    }
}

fn check_maturity(ch: &mut Ch, what: &str, x: &mut dyn Matures, cs: &[juno::Candle], buffered: Option<usize>, floor: u32) -> Res {
    let m = x.maturity();
    ensure!(m >= 1, "{what} announces maturity {m}");
    ensure!(m >= floor, "{what} announces maturity {m}, before what it wraps ({floor})");
    for t in 0..=cs.len() {
        if t > 0 {
            x.feed(&cs[t - 1]);
        }
        // Aggregated updates count when the bucket ends.
        let updates = t / buffered.unwrap_or(1);
        ensure!(x.maturity() == m, "{what} announces {} after {t} updates and {m} before", x.maturity());
        ensure!(x.mature() == (updates as u32 >= m), "{what} announces maturity after {m} updates and after {updates} it is {}", x.mature());
        if !x.mature() {
            if let Some(s) = x.says() {
                fail!("{what} says {s} after {updates} updates, before maturity at {m}");
            }
        } else if x.says().is_some() {
            ch.hit("advice of mature ones");
        }
        ch.state(H::new().s(what).u(t as u64).get());
    }
    note!(ch, "{what}: {m}");
    ch.trans(cs.len());
    ch.validated();
    Ok(())
}

fn c11(run: &mut Run) {
    run.assume("with aggregation an update is an aggregated candle");
    let prices = [16.0, 20.0, 10.0];
    let shapes = |c: &[f64]| candles(0, HOUR, c);
    let depth = run.deep(8, 10);
    let kmax = run.deep(4, 6);
    run.section("indicators", &format!("14 moving averages and 7 indicators x small periods x every sequence of up to 3 of 3 prices repeated past maturity, or all of length {depth}"), |ch| {
        let kind = ch.pick(21);
        let (what, mut x): (String, Box<dyn Matures>) = if kind < 14 {
            let n = 1 + ch.pick(kmax);
            (format!("{:?}({n})", MAS[kind]), Box::new(AnyMa(MAS[kind].params(n).construct())))
        } else {
            let name = ALL[kind - 14];
            let p = small_periods(ch, name, kmax);
            let (a, b, c) = (p.0 as u32, p.1 as u32, p.2 as u32);
            let x: Box<dyn Matures> = match name {
                "macd" => Box::new(juno::indicators::Macd::new(a, b, c)),
                "rsi" => Box::new(juno::indicators::Rsi::new(a)),
                "stoch" => Box::new(juno::indicators::Stoch::new(a, b, c)),
                "dm" => Box::new(DM::new(a)),
                "di" => Box::new(DI::new(a)),
                "dx" => Box::new(DX::new(a)),
                _ => Box::new(Adx::new(a)),
            };
            (format!("{name}{p:?}"), x)
        };
        let cs = if ch.flag() {
            let c: Vec<f64> = (0..depth).map(|_| *ch.of(&prices)).collect();
            shapes(&c)
        } else {
            let len = x.maturity() as usize + 4;
            shapes(&lasso(ch, &prices, 0, 3, len))
        };
        check_maturity(ch, &what, x.as_mut(), &cs, None, 1)
    });
    let kmax = run.deep(4, 5);
    run.section("strategies", "every signal x every pair of moving averages x small periods x every lasso (loop up to 4) of 3 prices past maturity", |ch| {
        let k = 1 + ch.pick(kmax) as u32;
        let p = any_signal(ch, k);
        let mut x = AnySignal(p.construct(&META));
        let len = x.maturity() as usize + 4;
        let c = lasso(ch, &prices, 0, 4, len);
        check_maturity(ch, &format!("{p:?}"), &mut x, &shapes(&c), None, 1)
    });
    let kinds = [Ma::Sma, Ma::Ema(None), Ma::Ema2, Ma::Dema, Ma::Kama, Ma::Alma(0.85, None)];
    let periods: Vec<[u32; 3]> = (1..=run.deep(8, 10))
        .flat_map(|a| (a + 1..=a + run.deep(2, 4)).map(move |b| [a, b, b + 1]))
        .collect();
    run.section("last to mature", &format!("double and triple averages, plain, with thresholds, with stochastic and the four week rule x every triple of 6 averages x {} periods x every lasso (loop up to 2), so that each of the parts is the last to mature", periods.len()), |ch| {
        let n = *ch.of(&periods);
        let kind = ch.pick(5);
        let mut ma = |i: usize| ch.of(&kinds).params(n[i] as usize);
        let p = match kind {
            0 => SignalParams::DoubleMA(DoubleMAParams { mas: (ma(0), ma(2)) }),
            1 => SignalParams::DoubleMA2(DoubleMA2Params { neg_threshold: -0.5, pos_threshold: 0.5, mas: (ma(0), ma(2)) }),
            2 => {
                let double_ma = DoubleMAParams { mas: (ma(0), ma(2)) };
                let ks = 1 + ch.pick(2) as u32;
                SignalParams::DoubleMAStoch(DoubleMAStochParams { double_ma, stoch: stoch_params(n[1], ks, 2, 80.0, 20.0) })
            }
            3 => SignalParams::FourWeekRule(FourWeekRuleParams { period: n[0], ma: ma(1) }),
            _ => SignalParams::TripleMA(TripleMAParams { mas: (ma(0), ma(1), ma(2)) }),
        };
        let mut x = AnySignal(p.construct(&META));
        let len = x.maturity() as usize + 3;
        let c = lasso(ch, &prices, 0, 2, len);
        check_maturity(ch, &format!("{p:?}"), &mut x, &shapes(&c), None, 1)
    });
    run.section("oscillators", &format!("oscillators x every sequence of {} prices", depth + 2), |ch| {
        let p = any_osc(ch);
        let mut x = AnyOsc(p.construct(&META));
        let c: Vec<f64> = (0..depth + 2).map(|_| *ch.of(&prices)).collect();
        check_maturity(ch, &format!("{p:?}"), &mut x, &shapes(&c), None, 1)
    });
    let few_signals = |ch: &mut Ch| -> SignalParams {
        match ch.pick(5) {
            0 => SignalParams::DoubleMA(double_ma(sma(1), sma(2))),
            1 => SignalParams::FourWeekRule(FourWeekRuleParams { period: 2, ma: ema(1) }),
            2 => SignalParams::Macd(MacdParams { periods: (1, 2), signal_period: 2 }),
            3 => SignalParams::SingleMA(SingleMAParams { ma: sma(3) }),
            _ => SignalParams::TripleMA(TripleMAParams { mas: (sma(1), ema(2), sma(3)) }),
        }
    };
    let policies = [MidTrendPolicy::Current, MidTrendPolicy::Previous, MidTrendPolicy::Ignore];
    let long = run.deep(6, 8);
    run.section("filtered", &format!("signals x persistence 0..=4 x mid-trend policies x oscillators or aggregation x every lasso (loop up to {long})"), |ch| {
        let sig = few_signals(ch);
        let persistence = ch.pick(5) as u32;
        let policy = *ch.of(&policies);
        let inner = sig.construct(&META).maturity();
        let (p, factor, floor) = match ch.pick(3) {
            0 => {
                let buffer = *ch.of(&[None, Some(1usize), Some(3)]);
                let p = SigParams { sig, persistence, mid_trend_policy: policy, buffer_interval: buffer.map(|b| Interval(b as u64 * HOUR)) };
                (StrategyParams::Sig(p), buffer, inner)
            }
            f => {
                let osc = *ch.of(&[
                    OscillatorParams::Rsi(RsiParams { period: 1, up_threshold: 70.0, down_threshold: 30.0 }),
                    OscillatorParams::Rsi(RsiParams { period: 4, up_threshold: 70.0, down_threshold: 30.0 }),
                    OscillatorParams::Stoch(stoch_params(2, 2, 1, 60.0, 40.0)),
                ]);
                let m = osc.construct(&META).maturity();
                let p = sig_osc(sig, osc, if f == 1 { "Prevent" } else { "Enforce" }, persistence, policy);
                (StrategyParams::SigOsc(p), None, inner.max(m))
            }
        };
        let mut x = AnySignal(p.construct(&META));
        let len = (x.maturity() as usize + 4) * factor.unwrap_or(1);
        let c = lasso(ch, &prices, 0, long, len);
        check_maturity(ch, &format!("{p:?}"), &mut x, &shapes(&c), factor, floor)
    });
    let defaults = run.deep(3, 4);
    run.section("usual sizes", "default sized parameters x every lasso past maturity", |ch| {
        let p = match ch.pick(6) {
            0 => StrategyParams::Macd(MacdParams::default()),
            1 => StrategyParams::FourWeekRule(FourWeekRuleParams::default()),
            2 => StrategyParams::DoubleMA(double_ma(ema(20), ema(50))),
            3 => StrategyParams::TripleMA(TripleMAParams { mas: (sma(5), ema(20), Ma::Dema.params(30)) }),
            4 => StrategyParams::SingleMA(SingleMAParams { ma: Ma::Kama.params(50) }),
            _ => StrategyParams::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(Ma::Smma.params(10), Ma::Alma(0.85, None).params(21)), stoch: stoch_params(14, 3, 3, 80.0, 20.0) }),
        };
        let mut x = AnySignal(p.construct(&META));
        let len = x.maturity() as usize + 300;
        let c = lasso(ch, &prices, 1, defaults, len);
        check_maturity(ch, &format!("{p:?}"), &mut x, &shapes(&c), None, 1)
    });
}

fn main() {
    main_with(&[("C09", c09), ("C10", c10), ("C11", c11)])
}
