//! C12–C14: strategies, signal filters and candle aggregation.
use juno::indicators::*;
use juno::strategies::*;
use juno::utils::{combine, BufferedCandle, Changed, MidTrend, MidTrendPolicy, Persistence};
use juno::{Advice, Candle, Interval, Timestamp};
use mc::tkit::*;
use mc::util::*;
use mc::*;
use std::cmp::Ordering;

const META: StrategyMeta = StrategyMeta { interval: Interval(HOUR) };

// ---------------------------------------------------------------------------------------------
// C12

/// A value and how far it may be off.
#[derive(Clone, Copy, Debug)]
struct V(f64, f64);

/// The orders that are possible.
fn cmp(a: V, b: V) -> Vec<Ordering> {
    if a.1 + b.1 > 0.0 && (a.0 - b.0).abs() <= a.1 + b.1 {
        vec![Ordering::Less, Ordering::Equal, Ordering::Greater]
    } else {
        vec![a.0.partial_cmp(&b.0).unwrap()]
    }
}

fn exactly(v: f64) -> V {
    V(v, 0.0)
}

fn ma_value(m: &MAParams, p: &[f64]) -> Option<V> {
    let n = m.period() as usize;
    let v = match m {
        MAParams::Sma(_) => refs::sma(p, n),
        MAParams::Ema(e) => (p.len() >= n).then(|| refs::ema_a(p, e.smoothing.unwrap_or(refs::ema_factor(n)))),
        MAParams::Ema2(_) => refs::ema2(p, n),
        MAParams::Dema(_) => refs::dema(p, n),
        // Mature one price after the seed.
        MAParams::Smma(_) => refs::smma(p, n),
        MAParams::Alma(a) => refs::alma(p, n, a.offset, a.sigma),
        MAParams::Kama(_) => refs::kama(p, n),
    }?;
    let flat = p.iter().all(|x| *x == p[0]) && !matches!(m, MAParams::Alma(_));
    let exact = match m {
        MAParams::Sma(_) => n.is_power_of_two() && p.iter().all(|x| few(*x)),
        MAParams::Ema(e) => p.len() <= 9 && e.smoothing.unwrap_or(refs::ema_factor(n)) == 1.0,
        _ => false,
    };
    Some(if flat {
        exactly(p[0])
    } else if exact {
        exactly(v)
    } else {
        V(v, v.abs() * 1e-10)
    })
}

/// Which advice may follow `prev`, given the candles so far; the strategy is mature.
struct RuleState {
    prev: Advice,
    /// Prevailing advice of the averages (double MA with stochastic).
    averages: Vec<Advice>,
}

fn double_ma_advice(mas: &(MAParams, MAParams), p: &[f64], prev: Advice) -> Vec<Advice> {
    let (Some(s), Some(l)) = (ma_value(&mas.0, p), ma_value(&mas.1, p)) else { return vec![prev] };
    cmp(s, l)
        .into_iter()
        .map(|o| match o {
            Ordering::Greater => Advice::Long,
            Ordering::Less => Advice::Short,
            Ordering::Equal => prev,
        })
        .collect()
}

fn allowed(s: &SignalParams, c: &[Candle], st: &mut RuleState) -> Option<Vec<Advice>> {
    use Ordering::*;
    let p: Vec<f64> = c.iter().map(|x| x.close).collect();
    let close = exactly(p[p.len() - 1]);
    let prev = st.prev;
    let mut out = vec![];
    match s {
        SignalParams::DoubleMA(x) => {
            ma_value(&x.mas.0, &p)?;
            ma_value(&x.mas.1, &p)?;
            out = double_ma_advice(&x.mas, &p, prev);
        }
        SignalParams::DoubleMA2(x) => {
            let (s, l) = (ma_value(&x.mas.0, &p)?, ma_value(&x.mas.1, &p)?);
            let diff = 100.0 * (s.0 - l.0) / ((s.0 + l.0) / 2.0);
            // Exact in binary: so is the division if the middle is a power of two.
            let middle = (s.0 + l.0) / 2.0;
            let exact = s.1 + l.1 == 0.0 && few(diff) && few(s.0) && few(l.0) && middle.to_bits() << 12 == 0;
            let diff = V(diff, if exact { 0.0 } else { 1e-8 });
            for a in cmp(diff, exactly(x.pos_threshold)) {
                for b in cmp(diff, exactly(x.neg_threshold)) {
                    out.push(match (a, b) {
                        (Greater, _) => Advice::Long,
                        (_, Less) => Advice::Short,
                        _ => prev,
                    });
                }
            }
        }
        SignalParams::DoubleMAStoch(x) => {
            let hlc: Vec<(f64, f64, f64)> = c.iter().map(|x| (x.high, x.low, x.close)).collect();
            // The averages prevail from their own maturity on.
            let mut next: Vec<Advice> = vec![];
            for prev in &st.averages {
                next.extend(double_ma_advice(&x.double_ma.mas, &p, *prev));
            }
            next.sort_by_key(|a| *a as u8);
            next.dedup();
            st.averages = next;
            ma_value(&x.double_ma.mas.1, &p)?;
            let q = &x.stoch;
            let k = refs::stoch(&hlc, q.k_period as usize, q.k_sma_period as usize, q.d_sma_period as usize)?.0;
            let exact = q.k_sma_period == 1 && q.d_sma_period == 1 && k == 50.0;
            let k = V(k, if exact { 0.0 } else { 1e-9 });
            for avg in &st.averages {
                for up in cmp(k, exactly(q.up_threshold)) {
                    for down in cmp(k, exactly(q.down_threshold)) {
                        for half in cmp(k, exactly(50.0)) {
                            let mut a = prev;
                            if a == Advice::Long && (*avg == Advice::Short || up != Less)
                                || a == Advice::Short && (*avg == Advice::Long || down == Less)
                            {
                                a = Advice::Liquidate;
                            }
                            if a != Advice::Long && a != Advice::Short {
                                if *avg == Advice::Long && half == Less {
                                    a = Advice::Long;
                                } else if *avg == Advice::Short && half != Less {
                                    a = Advice::Short;
                                }
                            }
                            out.push(a);
                        }
                    }
                }
            }
        }
        SignalParams::FourWeekRule(x) => {
            let n = x.period as usize;
            if p.len() < n + 1 {
                return None;
            }
            let m = ma_value(&x.ma, &p)?;
            let window = &p[p.len() - 1 - n..p.len() - 1];
            let hi = window.iter().copied().fold(f64::MIN, f64::max);
            let lo = window.iter().copied().fold(f64::MAX, f64::min);
            for o in cmp(close, m) {
                out.push(if close.0 >= hi {
                    Advice::Long
                } else if close.0 <= lo {
                    Advice::Short
                } else if prev == Advice::Long && o != Greater || prev == Advice::Short && o != Less {
                    Advice::Liquidate
                } else {
                    prev
                });
            }
        }
        SignalParams::Macd(x) => {
            let (line, signal) = refs::macd(&p, x.periods.0 as usize, x.periods.1 as usize, x.signal_period as usize)?;
            let flat = p.iter().all(|x| *x == p[0]);
            // Factors of 1 and 1/2 keep everything exact for a while.
            let exact = [x.periods.0, x.periods.1, x.signal_period].iter().all(|n| [1, 3].contains(n)) && p.len() <= 12 && p.iter().all(|v| few(*v));
            let eps = if flat || exact { 0.0 } else { 1e-9 };
            let (line, signal) = if flat { (0.0, 0.0) } else { (line, signal) };
            for o in cmp(V(line, eps), V(signal, eps)) {
                out.push(if o == Greater { Advice::Long } else { Advice::Short });
            }
        }
        SignalParams::SingleMA(x) => {
            let m = ma_value(&x.ma, &p)?;
            let before = ma_value(&x.ma, &p[..p.len() - 1])?;
            for a in cmp(close, m) {
                for b in cmp(m, before) {
                    out.push(match (a, b) {
                        (Greater, Greater) => Advice::Long,
                        (Less, Less) => Advice::Short,
                        _ => prev,
                    });
                }
            }
        }
        SignalParams::TripleMA(x) => {
            let (s, m, l) = (ma_value(&x.mas.0, &p)?, ma_value(&x.mas.1, &p)?, ma_value(&x.mas.2, &p)?);
            for sm in cmp(s, m) {
                for ml in cmp(m, l) {
                    for sl in cmp(s, l) {
                        out.push(match (sm, ml) {
                            (Greater, Greater) => Advice::Long,
                            (Less, Less) => Advice::Short,
                            _ if prev == Advice::Short && sm == Greater && sl == Greater => Advice::Liquidate,
                            _ if prev == Advice::Long && sm == Less && sl == Less => Advice::Liquidate,
                            _ => prev,
                        });
                    }
                }
            }
        }
    }
    Some(out)
}

fn as_strategy(s: &SignalParams) -> StrategyParams {
    match *s {
        SignalParams::DoubleMA(x) => StrategyParams::DoubleMA(x),
        SignalParams::DoubleMA2(x) => StrategyParams::DoubleMA2(x),
        SignalParams::DoubleMAStoch(x) => StrategyParams::DoubleMAStoch(x),
        SignalParams::FourWeekRule(x) => StrategyParams::FourWeekRule(x),
        SignalParams::Macd(x) => StrategyParams::Macd(x),
        SignalParams::SingleMA(x) => StrategyParams::SingleMA(x),
        SignalParams::TripleMA(x) => StrategyParams::TripleMA(x),
    }
}

fn check_rule(ch: &mut Ch, p: &SignalParams, cs: &[Candle]) -> Res {
    let mut x = p.construct(&META);
    let mut y = as_strategy(p).construct(&META);
    let mut st = RuleState { prev: Advice::None, averages: vec![Advice::None] };
    for t in 1..=cs.len() {
        x.update(&cs[t - 1]);
        y.update(&cs[t - 1]);
        let got = x.advice();
        ensure!(got == y.advice(), "{p:?} gives {got:?} as a signal and {:?} as a strategy", y.advice());
        let want = allowed(p, &cs[..t], &mut st);
        if !x.mature() {
            continue;
        }
        let closes = || cs[..t].iter().map(|c| c.close).collect::<Vec<_>>();
        let Some(want) = want else { fail!("{p:?} is mature after {:?}", closes()) };
        ensure!(want.contains(&got), "{p:?} after {:?}: advice {got:?} instead of {:?} (before: {:?})", closes(), want[0], st.prev);
        ch.hit(match got {
            Advice::None => "none",
            Advice::Long => "long",
            Advice::Short => "short",
            Advice::Liquidate => "liquidate",
        });
        if want.len() > 1 && want.iter().any(|a| *a != got) {
            ch.hit("too close to call");
        }
        st.prev = got;
        ch.state(H::new().u(got as u64).f(cs[t - 1].close).u(t as u64).s(&st.averages.len().to_string()).get());
    }
    note!(ch, "{p:?} over {:?}: {:?}", cs.iter().map(|c| c.close).collect::<Vec<_>>(), x.advice());
    ch.trans(cs.len());
    ch.validated();
    Ok(())
}

fn small_signals(thorough: bool) -> Vec<SignalParams> {
    use SignalParams as S;
    let smma = |n| MAParams::Smma(SmmaParams { period: n });
    let kama = |n| MAParams::Kama(KamaParams { period: n });
    let dema = |n| MAParams::Dema(DemaParams { period: n });
    let ema2 = |n| MAParams::Ema2(Ema2Params { period: n });
    let alma = |n| MAParams::Alma(AlmaParams { offset: 0.85, period: n, sigma: None });
    let mut v = vec![];
    for (a, b) in [(sma(1), sma(2)), (sma(1), sma(4)), (sma(2), sma(4)), (ema(1), ema(3)), (sma(1), smma(2)), (ema2(2), kama(3)), (dema(1), alma(3))] {
        v.push(S::DoubleMA(double_ma(a, b)));
        v.push(S::DoubleMA2(DoubleMA2Params { neg_threshold: -0.75, pos_threshold: 0.25, mas: (a, b) }));
    }
    v.push(S::DoubleMA2(DoubleMA2Params { neg_threshold: -1.0, pos_threshold: 0.9, mas: (sma(1), sma(2)) }));
    for (k, ks, ds, up, down) in [(2, 1, 1, 60.0, 30.0), (3, 1, 2, 80.0, 20.0), (1, 2, 1, 55.0, 45.0), (2, 2, 1, 50.0, 49.0), (4, 1, 1, 100.0, 0.0)] {
        v.push(S::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(sma(1), sma(2)), stoch: stoch_params(k, ks, ds, up, down) }));
        v.push(S::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(sma(2), ema(3)), stoch: stoch_params(k, ks, ds, up, down) }));
    }
    for (n, m) in [(1, sma(1)), (1, sma(2)), (2, sma(2)), (3, sma(4)), (2, ema(2)), (4, ema(1)), (2, smma(3)), (3, kama(2))] {
        v.push(S::FourWeekRule(FourWeekRuleParams { period: n, ma: m }));
    }
    for (a, b, c) in [(1, 2, 1), (1, 2, 2), (2, 3, 2), (1, 3, 3)] {
        v.push(S::Macd(MacdParams { periods: (a, b), signal_period: c }));
    }
    for m in [sma(1), sma(2), sma(4), ema(2), ema2(2), smma(2), kama(2), alma(3), dema(2)] {
        v.push(S::SingleMA(SingleMAParams { ma: m }));
    }
    for mas in [(sma(1), sma(2), sma(4)), (sma(1), sma(2), sma(3)), (ema(1), ema(2), ema(3)), (sma(1), kama(2), smma(3)), (sma(1), ema(2), sma(4))] {
        v.push(S::TripleMA(TripleMAParams { mas }));
    }
    if thorough {
        v.push(S::TripleMA(TripleMAParams { mas: (sma(2), sma(3), sma(4)) }));
        v.push(S::FourWeekRule(FourWeekRuleParams { period: 5, ma: sma(3) }));
        v.push(S::Macd(MacdParams { periods: (2, 4), signal_period: 3 }));
    }
    v
}

fn c12(run: &mut Run) {
    run.assume("comparisons that float arithmetic leaves too close to call may go either way, unless exact in binary");
    let signals = small_signals(run.thorough());
    let prices = [16.0, 20.0, 10.0, 16.125];
    let depth = run.deep(8, 9);
    run.section("sequences", &format!("{} parameterised strategies x every sequence of {depth} closes out of 4", signals.len()), |ch| {
        let p = *ch.of(&signals);
        let c: Vec<f64> = (0..depth).map(|_| *ch.of(&prices)).collect();
        check_rule(ch, &p, &candles(0, HOUR, &c))
    });
    let d2 = run.deep(6, 7);
    let shapes = [(20.0, 10.0, 15.0), (20.0, 10.0, 20.0), (12.0, 12.0, 12.0), (24.0, 8.0, 9.0), (22.0, 16.0, 16.0)];
    run.section("candles", &format!("double MA with stochastic x every sequence of {d2} candles out of 5 shapes"), |ch| {
        let stoch = *ch.of(&[(2, 1, 1, 60.0, 30.0), (1, 1, 1, 75.0, 25.0), (3, 2, 1, 50.0, 50.0), (1, 2, 2, 90.0, 10.0)]);
        let (k, ks, ds, up, down) = stoch;
        let mas = *ch.of(&[(sma(1), sma(2)), (ema(1), sma(3))]);
        let p = SignalParams::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(mas.0, mas.1), stoch: stoch_params(k, ks, ds, up, down) });
        let cs: Vec<Candle> = (0..d2)
            .map(|i| {
                let (h, l, c) = *ch.of(&shapes);
                candle(i as u64 * HOUR, h, l, c)
            })
            .collect();
        check_rule(ch, &p, &cs)
    });
    let eq = run.deep(6, 8);
    run.section("ties", &format!("double MA with thresholds, with stochastic and MACD: every sequence of {eq} closes (candles) out of 5, among them the ones that make the compared values equal"), |ch| {
        let kind = ch.pick(7);
        let (p, menu): (SignalParams, Vec<(f64, f64, f64)>) = match kind {
            0 | 1 => {
                let t = [0.78125, 0.390625][kind];
                let d = [1.0, 0.5][kind];
                (
                    SignalParams::DoubleMA2(DoubleMA2Params { neg_threshold: -t, pos_threshold: t, mas: (sma(1), sma(2)) }),
                    [256.0 - 3.0 * d, 256.0 - d, 256.0 + d, 256.0 + 3.0 * d, 256.0].iter().map(|c| (*c, *c, *c)).collect(),
                )
            }
            2..=4 => {
                let (up, down) = [(50.0, 50.0), (80.0, 50.0), (50.0, 20.0)][kind - 2];
                (
                    SignalParams::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(sma(1), sma(2)), stoch: stoch_params(1, 1, 1, up, down) }),
                    vec![(20.0, 12.0, 16.0), (20.0, 4.0, 12.0), (24.0, 16.0, 20.0), (20.0, 12.0, 18.0), (20.0, 12.0, 14.0)],
                )
            }
            k => (SignalParams::Macd(MacdParams { periods: (1, 3), signal_period: [3, 1][k - 5] }), vec![(16.0, 16.0, 16.0), (20.0, 20.0, 20.0), (10.0, 10.0, 10.0), (24.0, 24.0, 24.0)]),
        };
        let mut cs: Vec<Candle> = vec![];
        for i in 0..eq {
            let k = ch.pick(5);
            let (h, l, c) = if k < menu.len() {
                menu[k]
            } else {
                // The price that leaves the line where its signal is.
                let closes: Vec<f64> = cs.iter().map(|c| c.close).collect();
                let Some((line, signal)) = refs::macd(&closes, 1, 3, 3) else { return Err(Stop::Prune) };
                let slow = closes[closes.len() - 1] - line;
                let tie = slow + 2.0 * signal;
                (tie, tie, tie)
            };
            cs.push(candle(i as u64 * HOUR, h, l, c));
        }
        check_rule(ch, &p, &cs)
    });
    let wide = run.deep(4, 6);
    run.section("long", &format!("usual sizes x every lasso (stem up to 2, loop up to {wide}) over 4 closes, each repeated so that trends build up"), |ch| {
        use SignalParams as S;
        let p = match ch.pick(7) {
            0 => S::DoubleMA(double_ma(ema(5), sma(16))),
            1 => S::DoubleMA2(DoubleMA2Params { neg_threshold: -0.3, pos_threshold: 0.6, mas: (sma(4), ema(12)) }),
            2 => S::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(sma(4), sma(8)), stoch: stoch_params(14, 3, 3, 80.0, 20.0) }),
            3 => S::FourWeekRule(FourWeekRuleParams::default()),
            4 => S::Macd(MacdParams { periods: (12, 26), signal_period: 9 }),
            5 => S::SingleMA(SingleMAParams { ma: sma(16) }),
            _ => S::TripleMA(TripleMAParams { mas: (sma(2), sma(8), sma(16)) }),
        };
        let repeat = *ch.of(&[1, 3, 7]);
        let stem = ch.pick(3);
        let cycle = 1 + ch.pick(wide);
        let mut c: Vec<f64> = vec![];
        for _ in 0..stem {
            c.push(*ch.of(&prices));
        }
        let cyc: Vec<f64> = (0..cycle).map(|_| *ch.of(&prices)).collect();
        let mut i = 0;
        while c.len() < 60 {
            for _ in 0..repeat {
                c.push(cyc[i % cycle]);
            }
            i += 1;
        }
        check_rule(ch, &p, &candles(0, HOUR, &c))
    });
    let len = run.deep(300, 600);
    run.section("many", &format!("{} parameterised strategies x every loop of 1 to 3 closes out of 4, alone and on a slow rise or fall, over {len} candles", signals.len()), |ch| {
        let p = *ch.of(&signals);
        let trend = *ch.of(&[1.0, 1.01, 0.99]);
        let l: Vec<f64> = (0..1 + ch.pick(3)).map(|_| *ch.of(&prices)).collect();
        let mut f = 1.0;
        let closes: Vec<f64> = (0..len)
            .map(|i| {
                f *= trend;
                l[i % l.len()] * f
            })
            .collect();
        check_rule(ch, &p, &candles(0, HOUR, &closes))
    });
}

// ---------------------------------------------------------------------------------------------
// C13

const ADVICES: [Advice; 4] = [Advice::None, Advice::Long, Advice::Short, Advice::Liquidate];
const POLICIES: [MidTrendPolicy; 3] = [MidTrendPolicy::Current, MidTrendPolicy::Previous, MidTrendPolicy::Ignore];

fn want_changed(h: &[Advice]) -> (Advice, Advice) {
    // (passed, prevailing)
    let n = h.len() - 1;
    let before = h[..n].iter().rev().find(|a| **a != Advice::None).copied().unwrap_or(Advice::None);
    if h[n] == Advice::None || h[n] == before {
        (Advice::None, before)
    } else {
        (h[n], h[n])
    }
}

fn want_persistence(h: &[Advice], level: usize, repeat: bool) -> Advice {
    let passes = |t: usize| t >= level && h[t - level..=t].iter().all(|a| *a == h[t]);
    let n = h.len() - 1;
    if passes(n) {
        h[n]
    } else if repeat {
        (0..n).rev().find(|t| passes(*t)).map_or(Advice::None, |t| h[t])
    } else {
        Advice::None
    }
}

fn want_mid_trend(h: &[Advice], policy: MidTrendPolicy) -> Advice {
    if policy == MidTrendPolicy::Ignore && h.iter().all(|a| *a == h[0]) {
        Advice::None
    } else {
        h[h.len() - 1]
    }
}

fn want_combined(a: Advice, b: Advice) -> Advice {
    match (a, b) {
        (Advice::None, _) | (_, Advice::None) => Advice::None,
        (a, b) if a == b => a,
        _ => Advice::Liquidate,
    }
}

/// What an oscillator says: (overbought, oversold), each with the possible answers.
fn want_osc(o: &OscillatorParams, c: &[Candle]) -> Option<(Vec<bool>, Vec<bool>)> {
    let (v, up, down) = match o {
        OscillatorParams::Rsi(x) => {
            let p: Vec<f64> = c.iter().map(|x| x.close).collect();
            (refs::rsi(&p, x.period as usize)?, x.up_threshold, x.down_threshold)
        }
        OscillatorParams::Stoch(x) => {
            let h: Vec<(f64, f64, f64)> = c.iter().map(|x| (x.high, x.low, x.close)).collect();
            (refs::stoch(&h, x.k_period as usize, x.k_sma_period as usize, x.d_sma_period as usize)?.0, x.up_threshold, x.down_threshold)
        }
    };
    // The ends of the scale come out exactly unless sums of other values were involved.
    let unsummed = match o {
        OscillatorParams::Rsi(_) => true,
        OscillatorParams::Stoch(x) => x.k_sma_period == 1 && x.d_sma_period == 1,
    };
    let v = V(v, if unsummed && (v == 0.0 || v == 100.0) { 0.0 } else { 1e-9 });
    Some((
        cmp(v, exactly(up)).iter().map(|o| *o != Ordering::Less).collect(),
        cmp(v, exactly(down)).iter().map(|o| *o == Ordering::Less).collect(),
    ))
}

fn filtered(sig: SignalParams, osc: Option<(OscillatorParams, bool)>, level: usize, policy: MidTrendPolicy) -> StrategyParams {
    match osc {
        None => StrategyParams::Sig(SigParams { sig, persistence: level as u32, mid_trend_policy: policy, buffer_interval: None }),
        Some((o, enforce)) => StrategyParams::SigOsc(sig_osc(sig, o, if enforce { "Enforce" } else { "Prevent" }, level as u32, policy)),
    }
}

fn check_filtered(
    ch: &mut Ch,
    p: &StrategyParams,
    sig: &SignalParams,
    osc: Option<(OscillatorParams, bool)>,
    level: usize,
    policy: MidTrendPolicy,
    closes: &[f64],
) -> Res {
    let mut x = p.construct(&META);
    let mut inner = sig.construct(&META);
    let mut inner_osc = osc.map(|o| o.0.construct(&META));
    let mut seen: Vec<Advice> = vec![];
    let mut want = Advice::None;
    for (i, &close) in closes.iter().enumerate() {
        let c = candle(i as u64 * HOUR, close * 1.125, close * 0.875, close);
        x.update(&c);
        inner.update(&c);
        if let Some(o) = &mut inner_osc {
            o.update(&c);
        }
        if inner.mature() && inner_osc.as_ref().map_or(true, |o| o.mature()) {
            let mut a = inner.advice();
            if let (Some(o), Some((_, enforce))) = (&inner_osc, osc) {
                let (confirms, contradicts) = match a {
                    Advice::Long => (o.oversold(), o.overbought()),
                    Advice::Short => (o.overbought(), o.oversold()),
                    _ => (true, false),
                };
                if enforce && !confirms || !enforce && contradicts {
                    a = Advice::Liquidate;
                    ch.hit("vetoes");
                }
            }
            seen.push(a);
            want = want_combined(want_mid_trend(&seen, policy), want_persistence(&seen, level, false));
        }
        let got = x.advice();
        ensure!(got == want, "{p:?} after {:?}: advice {got:?} instead of {want:?} (wrapped: {seen:?})", &closes[..=i]);
        ch.state(H::new().u(got as u64).u(i as u64).f(close).u(seen.len() as u64).u(seen.last().map_or(9, |a| *a as u64)).get());
    }
    note!(ch, "{p:?} over {closes:?}: wrapped {seen:?}");
    ch.trans(closes.len());
    ch.validated();
    Ok(())
}

fn c13(run: &mut Run) {
    run.assume("the mid-trend filter treats absent advice as advice when it looks for the first change");
    run.assume("filtered strategies get the wrapped advice from the real signal objects (their rules are C12)");
    let depth = run.deep(8, 10);
    run.section("filters", &format!("change, persistence (levels 0..=6, with and without repeating) and mid-trend filters over every sequence of {depth} advices"), |ch| {
        let kind = ch.pick(1 + 14 + 3 + 1);
        let h: Vec<Advice> = (0..depth).map(|_| *ch.of(&ADVICES)).collect();
        let mut out = vec![];
        match kind {
            0 => {
                let mut x = Changed::new(true);
                for t in 1..=depth {
                    let got = x.update(h[t - 1]);
                    let (want, prevailing) = want_changed(&h[..t]);
                    ensure!(got == want, "change filter after {:?} gives {got:?} instead of {want:?}", &h[..t]);
                    ensure!(x.prevailing_advice() == prevailing, "change filter after {:?}: {:?} prevails instead of {prevailing:?}", &h[..t], x.prevailing_advice());
                    let age = 1 + (1..t).rev().take_while(|k| want_changed(&h[..*k + 1]).0 == Advice::None).count();
                    let start = prevailing == Advice::None || want_changed(&h[..1]).0 == Advice::None && age == t;
                    ensure!(x.prevailing_advice_age() as usize == age || start, "change filter after {:?}: age {} instead of {age}", &h[..t], x.prevailing_advice_age());
                    out.push(got);
                }
            }
            1..=14 => {
                let (level, repeat) = ((kind - 1) % 7, kind > 7);
                let mut x = Persistence::new(level as u32, repeat);
                for t in 1..=depth {
                    let got = x.update(h[t - 1]);
                    let want = want_persistence(&h[..t], level, repeat);
                    ensure!(got == want, "persistence({level}, {repeat}) after {:?} gives {got:?} instead of {want:?}", &h[..t]);
                    out.push(got);
                }
            }
            15..=17 => {
                let policy = POLICIES[kind - 15];
                let mut x = MidTrend::new(policy);
                for t in 1..=depth {
                    let got = x.update(h[t - 1]);
                    let want = want_mid_trend(&h[..t], policy);
                    ensure!(got == want, "mid-trend filter ({policy:?}) after {:?} gives {got:?} instead of {want:?}", &h[..t]);
                    out.push(got);
                }
            }
            _ => {
                let mut x = Changed::new(false);
                for t in 1..=depth {
                    let got = x.update(h[t - 1]);
                    ensure!(got == h[t - 1], "disabled change filter turns {:?} into {got:?}", h[t - 1]);
                }
                for a in ADVICES {
                    for b in ADVICES {
                        ensure!(combine(a, b) == want_combined(a, b), "{a:?} and {b:?} combine to {:?}", combine(a, b));
                    }
                }
            }
        }
        note!(ch, "filter {kind}: {h:?} -> {out:?}");
        ch.state(out.iter().fold(H::new().u(kind as u64), |s, a| s.u(*a as u64)).get());
        ch.trans(depth);
        ch.validated();
        Ok(())
    });
    let prices = [16.0, 20.0, 10.0];
    let oscs = [
        OscillatorParams::Rsi(RsiParams { period: 1, up_threshold: 90.0, down_threshold: 10.0 }),
        OscillatorParams::Rsi(RsiParams { period: 2, up_threshold: 60.0, down_threshold: 40.0 }),
        OscillatorParams::Rsi(RsiParams { period: 3, up_threshold: 50.0, down_threshold: 50.0 }),
        OscillatorParams::Rsi(RsiParams { period: 1, up_threshold: 100.0, down_threshold: 0.0 }),
        OscillatorParams::Stoch(stoch_params(2, 1, 1, 60.0, 40.0)),
        OscillatorParams::Stoch(stoch_params(3, 2, 1, 50.0, 45.0)),
        OscillatorParams::Stoch(stoch_params(1, 1, 2, 50.0, 50.0)),
        OscillatorParams::Stoch(stoch_params(2, 1, 2, 75.0, 25.0)),
    ];
    let od = run.deep(7, 9);
    run.section("oscillators", &format!("{} oscillators x every sequence of {od} candles out of 5", oscs.len()), |ch| {
        let p = *ch.of(&oscs);
        let mut x = p.construct(&META);
        let shapes = [(18.0, 14.0, 16.0), (22.5, 17.5, 20.0), (11.25, 8.75, 10.0), (20.0, 20.0, 20.0), (24.0, 8.0, 8.0)];
        let mut cs = vec![];
        for i in 0..od {
            let (h, l, c) = *ch.of(&shapes);
            cs.push(candle(i as u64 * HOUR, h, l, c));
            x.update(&cs[i]);
            let closes = || cs.iter().map(|c| c.close).collect::<Vec<_>>();
            match want_osc(&p, &cs) {
                None => ensure!(!x.overbought() && !x.oversold(), "{p:?} speaks after {:?}", closes()),
                Some((up, down)) => {
                    ensure!(up.contains(&x.overbought()), "{p:?} after {:?}: overbought is {}", closes(), x.overbought());
                    ensure!(down.contains(&x.oversold()), "{p:?} after {:?}: oversold is {}", closes(), x.oversold());
                }
            }
            ch.state(H::new().u(i as u64).f(c).f(h).u(x.overbought() as u64).u(x.oversold() as u64).get());
        }
        note!(ch, "{p:?} over {cs:?}");
        ch.trans(od);
        ch.validated();
        Ok(())
    });
    let signals = [
        SignalParams::DoubleMA(double_ma(sma(1), sma(2))),
        SignalParams::FourWeekRule(FourWeekRuleParams { period: 2, ma: sma(2) }),
        SignalParams::TripleMA(TripleMAParams { mas: (sma(1), sma(2), sma(3)) }),
        SignalParams::Macd(MacdParams { periods: (1, 2), signal_period: 1 }),
        SignalParams::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(sma(1), sma(2)), stoch: stoch_params(2, 1, 1, 60.0, 40.0) }),
    ];
    run.section("large levels", "persistence at levels around 100, 256 and 1000, with and without repeating: every sequence of 3 runs of equal advice whose lengths lie around the level", |ch| {
        let level = *ch.of(&[64usize, 99, 100, 127, 128, 255, 256, 257, 300, 1000]);
        let repeat = ch.flag();
        let mut h: Vec<Advice> = vec![];
        let (mut x, mut passed) = (Persistence::new(level as u32, repeat), Advice::None);
        for _ in 0..3 {
            let a = *ch.of(&ADVICES);
            let n = *ch.of(&[1, level, level + 1, level + 2, 2 * level + 3]);
            if h.last() == Some(&a) {
                return Err(Stop::Prune);
            }
            for i in 0..n {
                h.push(a);
                // Held for the level before this one.
                let now = if i >= level { a } else { Advice::None };
                if i >= level {
                    passed = a;
                }
                let want = if repeat { passed } else { now };
                let got = x.update(a);
                ensure!(got == want, "persistence({level}, {repeat}) {i} updates after the change to {a:?} gives {got:?} instead of {want:?}");
            }
        }
        ch.state(H::new().u(level as u64).u(repeat as u64).u(h.len() as u64).u(h[h.len() - 1] as u64).get());
        ch.trans(h.len());
        ch.validated();
        Ok(())
    });
    let runs = run.deep(4, 5);
    run.section("long runs", &format!("persistence at every level up to 12, with and without repeating: every sequence of {runs} runs of equal advice whose lengths lie around the level"), |ch| {
        let level = ch.pick(13);
        let repeat = ch.flag();
        let mut h: Vec<Advice> = vec![];
        for _ in 0..runs {
            let a = *ch.of(&ADVICES);
            let n = *ch.of(&[1, level, level + 1, level + 2, 2 * level + 3]);
            if n == 0 || h.last() == Some(&a) {
                return Err(Stop::Prune);
            }
            h.extend(std::iter::repeat(a).take(n));
        }
        let mut x = Persistence::new(level as u32, repeat);
        for t in 1..=h.len() {
            let got = x.update(h[t - 1]);
            let want = want_persistence(&h[..t], level, repeat);
            ensure!(got == want, "persistence({level}, {repeat}) after {:?} gives {got:?} instead of {want:?}", &h[..t]);
        }
        note!(ch, "persistence({level}, {repeat}) over {h:?}");
        ch.state(H::new().u(level as u64).u(repeat as u64).u(h.len() as u64).get());
        ch.trans(h.len());
        ch.validated();
        Ok(())
    });
    let sd = run.deep(8, 10);
    run.section("filtered", &format!("5 signals x persistence 0..=3 x mid-trend policies x (no oscillator or 8 oscillators, preventing or enforcing) x every sequence of {sd} closes out of 3"), |ch| {
        let sig = *ch.of(&signals);
        let level = ch.pick(4);
        let policy = *ch.of(&POLICIES);
        let osc = match ch.pick(oscs.len() + 1) {
            0 => None,
            i => Some((oscs[i - 1], ch.flag())),
        };
        let p = filtered(sig, osc, level, policy);
        let closes: Vec<f64> = (0..sd).map(|_| *ch.of(&prices)).collect();
        check_filtered(ch, &p, &sig, osc, level, policy, &closes)
    });
    let len = run.deep(400, 1_500);
    run.section("filtered for long", &format!("5 signals x persistence 0..=3 and 20 x mid-trend policies x (no oscillator or 8 oscillators, preventing or enforcing) x every loop of 1 to 3 closes out of 3, alone and on a slow rise, over {len} candles"), |ch| {
        let sig = *ch.of(&signals);
        let level = *ch.of(&[0, 1, 2, 3, 20]);
        let policy = *ch.of(&POLICIES);
        let osc = match ch.pick(oscs.len() + 1) {
            0 => None,
            i => Some((oscs[i - 1], ch.flag())),
        };
        let p = filtered(sig, osc, level, policy);
        let trend = *ch.of(&[1.0, 1.01]);
        let l: Vec<f64> = (0..1 + ch.pick(3)).map(|_| *ch.of(&prices)).collect();
        let mut f = 1.0;
        let closes: Vec<f64> = (0..len)
            .map(|i| {
                f *= trend;
                l[i % l.len()] * f
            })
            .collect();
        check_filtered(ch, &p, &sig, osc, level, policy, &closes)
    });
    let bd = run.deep(8, 10);
    run.section("aggregated", &format!("signals over aggregated candles x every presence and close of {bd} candles"), |ch| {
        let sig = *ch.of(&signals[..2]);
        let n = *ch.of(&[2u64, 3]);
        let level = ch.pick(2);
        let first = ch.pick(n as usize) as u64;
        let p = StrategyParams::Sig(SigParams { sig, persistence: level as u32, mid_trend_policy: MidTrendPolicy::Current, buffer_interval: Some(Interval(n * HOUR)) });
        let mut x = p.construct(&META);
        let mut inner = sig.construct(&META);
        let mut agg = Buckets::new(n * HOUR);
        let mut seen: Vec<Advice> = vec![];
        let mut want = Advice::None;
        let mut script = vec![];
        for i in 0..bd {
            let k = ch.pick(4);
            if k == 3 {
                script.push(0.0);
                continue;
            }
            let close = prices[k];
            script.push(close);
            let c = candle((first + i as u64) * HOUR, close * 1.125, close * 0.875, close);
            let emitted = match agg.push(&c, HOUR) {
                Ok(e) => e,
                Err(()) => return Err(Stop::Prune),
            };
            x.update(&c);
            if let Some(e) = emitted {
                inner.update(&e);
                if inner.mature() {
                    seen.push(inner.advice());
                    want = want_persistence(&seen, level, false);
                }
            }
            ensure!(x.advice() == want, "{p:?} after {script:?} (0 is a gap) from {first} h: advice {:?} instead of {want:?}", x.advice());
        }
        note!(ch, "{p:?} over {script:?}: {seen:?}");
        ch.state(seen.iter().fold(H::new().u(first), |h, a| h.u(*a as u64)).get());
        ch.trans(bd);
        ch.validated();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C14

/// Reference aggregation over all candles of the open bucket.
struct Buckets {
    size: u64,
    open: Vec<Candle>,
}

/// Start of the bucket, by counting days.
fn bucket(t: u64, size: u64) -> u64 {
    const MONTH: u64 = 2_629_746_000;
    if size == MONTH {
        static STARTS: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
        let starts = STARTS.get_or_init(|| {
            let mut starts = vec![0];
            for y in 1970..2101 {
                for m in 1..=12 {
                    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
                    let len = match m {
                        2 => 28 + leap as u64,
                        4 | 6 | 9 | 11 => 30,
                        _ => 31,
                    };
                    starts.push(starts[starts.len() - 1] + len * DAY);
                }
            }
            starts
        });
        return starts[starts.partition_point(|s| *s <= t) - 1];
    }
    if size == 7 * DAY {
        // Mondays; 1970-01-05 was one.
        return t - (t - 4 * DAY) % (7 * DAY);
    }
    t - t % size
}

impl Buckets {
    fn new(size: u64) -> Self {
        Buckets { size, open: vec![] }
    }
    fn summary(&mut self) -> Candle {
        let c = std::mem::take(&mut self.open);
        Candle {
            time: Timestamp(bucket(c[0].time.0, self.size)),
            open: c[0].open,
            high: c.iter().map(|x| x.high).fold(f64::MIN, f64::max),
            low: c.iter().map(|x| x.low).fold(f64::MAX, f64::min),
            close: c[c.len() - 1].close,
            volume: c.iter().map(|x| x.volume).sum(),
        }
    }
    /// Err: two buckets would end with one candle, which the implementation refuses by design.
    fn push(&mut self, c: &Candle, interval: u64) -> Result<Option<Candle>, ()> {
        let b = bucket(c.time.0, self.size);
        let last = bucket(c.time.0 + interval, self.size) != b;
        let late = self.open.first().is_some_and(|f| bucket(f.time.0, self.size) != b);
        if late && last {
            return Err(());
        }
        let mut out = None;
        if late {
            out = Some(self.summary());
        }
        self.open.push(*c);
        if last {
            out = Some(self.summary());
        }
        Ok(out)
    }
}

fn shape(k: usize, time: u64) -> Candle {
    let (o, h, l, c, v) = [(10.0, 12.0, 9.0, 11.0, 1.0), (20.0, 25.0, 7.0, 8.0, 2.5), (9.5, 9.5, 9.5, 9.5, 0.0), (3.0, 30.0, 3.0, 29.0, 0.25)][k];
    Candle { time: Timestamp(time), open: o, high: h, low: l, close: c, volume: v }
}

fn drive(ch: &mut Ch, interval: u64, size: u64, times: impl Iterator<Item = u64>, shapes: usize) -> Res {
    let mut x = BufferedCandle::new(Interval(interval), Some(Interval(size)));
    let mut r = Buckets::new(size);
    let mut n = 0;
    for t in times {
        let k = ch.pick(shapes + 1);
        if k == 0 {
            note!(ch, "{}: missing", Timestamp(t));
            continue;
        }
        let c = shape(k - 1, t);
        let want = match r.push(&c, interval) {
            Ok(w) => w,
            Err(()) => return Err(Stop::Prune),
        };
        let got = guarded(|| x.buffer(&c).map(|c| *c)).map_err(|e| Stop::Fail(format!("panicked at {}: {e}", Timestamp(t))))?;
        note!(ch, "{}: {c:?} -> {got:?}", Timestamp(t));
        ensure!(got == want, "{} into {}: at {} got {got:?} instead of {want:?}", Interval(interval), Interval(size), Timestamp(t));
        if got.is_some() {
            ch.hit("emitted");
            if r.open.len() == 1 && n > 0 {
                ch.hit("emitted late");
            }
        }
        n += 1;
        ch.trans(1);
        ch.state(r.open.iter().fold(H::new().u(t).u(size), |h, c| h.f(c.close).u(c.time.0)).get());
    }
    ch.validated();
    Ok(())
}

/// As `drive`, a given shape (or none) at each time.
fn drive_along(ch: &mut Ch, interval: u64, size: u64, items: impl Iterator<Item = (u64, Option<usize>)>) -> Res {
    let mut x = BufferedCandle::new(Interval(interval), Some(Interval(size)));
    let mut r = Buckets::new(size);
    for (t, k) in items {
        let Some(k) = k else { continue };
        let c = shape(k, t);
        let want = match r.push(&c, interval) {
            Ok(w) => w,
            Err(()) => return Err(Stop::Prune),
        };
        let got = guarded(|| x.buffer(&c).map(|c| *c)).map_err(|e| Stop::Fail(format!("panicked at {}: {e}", Timestamp(t))))?;
        ensure!(got == want, "{} into {}: at {} got {got:?} instead of {want:?}", Interval(interval), Interval(size), Timestamp(t));
        if let Some(c) = got {
            ch.hit("emitted");
            ch.state(H::new().u(c.time.0).u(size).f(c.close).f(c.volume).get());
        }
        ch.trans(1);
    }
    ch.validated();
    Ok(())
}

fn c14(run: &mut Run) {
    run.assume("the interval divides the longer one; two buckets never end with the same candle (refused by a documented panic)");
    let depth = run.deep(8u64, 9);
    run.section("hours", &format!("hours into 2, 3, 4 and 6 hours from every offset, every presence and one of 3 shapes for each of {depth} candles"), |ch| {
        let n = *ch.of(&[2u64, 3, 4, 6]);
        let start = (ch.pick(n as usize) as u64 + 12 * *ch.of(&[0u64, 36_101])) * HOUR;
        drive(ch, HOUR, n * HOUR, (0..depth).map(|i| start + i * HOUR), 3)
    });
    let dd = run.deep(17, 20);
    run.section("presence", &format!("hours into 4, 6 and 8 hours from every offset, every presence of {dd} candles"), |ch| {
        let n = *ch.of(&[4u64, 6, 8]);
        let start = (ch.pick(n as usize) as u64 + 24 * 5000) * HOUR;
        drive(ch, HOUR, n * HOUR, (0..dd).map(|i| start + i * HOUR), 1)
    });
    let w = run.deep(16u64, 20);
    run.section("weeks", &format!("days into weeks from every weekday, every presence of {w} days"), |ch| {
        let start = (ch.pick(7) as u64 + *ch.of(&[4u64, 18_004])) * DAY;
        drive(ch, DAY, 7 * DAY, (0..w).map(|i| start + i * DAY), 1)
    });
    run.section("months", "days into months around every month end of 2019 to 2024, at most 3 gaps among 12 days either side; weeks of hours", |ch| {
        const MONTH: u64 = 2_629_746_000;
        let mut ends = vec![];
        let mut t = 17_897 * DAY; // 2019-01-01
        while ends.len() < 72 {
            let next = (t..).step_by(DAY as usize).find(|x| bucket(*x, MONTH) != bucket(t, MONTH)).unwrap();
            ends.push(next);
            t = next;
        }
        let end = *ch.of(&ends);
        ch.set_devs(3);
        let mut x = BufferedCandle::new(Interval(DAY), Some(Interval(MONTH)));
        let mut r = Buckets::new(MONTH);
        for i in 0..46u64 {
            let t = end - 12 * DAY + i * DAY;
            if (i < 14 || i > 35) && ch.pick_dev(2) == 1 {
                continue;
            }
            let c = shape((i % 4) as usize, t);
            let want = match r.push(&c, DAY) {
                Ok(w) => w,
                Err(()) => return Err(Stop::Prune),
            };
            let got = guarded(|| x.buffer(&c).map(|c| *c)).map_err(|e| Stop::Fail(format!("panicked at {}: {e}", Timestamp(t))))?;
            ensure!(got == want, "days into months: at {} got {got:?} instead of {want:?}", Timestamp(t));
            if let Some(g) = got {
                note!(ch, "{}: {g:?}", Timestamp(t));
                ch.hit("emitted");
            }
        }
        ch.state(end);
        ch.trans(46);
        ch.validated();
        Ok(())
    });
    run.section("minutes", "minutes into hours and days, with up to 3 missing at enumerated places", |ch| {
        let (i, size) = *ch.of(&[(60_000u64, HOUR), (300_000, HOUR), (900_000, DAY), (HOUR, DAY), (300_000, 4 * HOUR)]);
        let per = size / i;
        let start = 19_000 * DAY + ch.pick(3) as u64 * (size / i / 2) * i;
        // Places: around the bucket ends.
        let places: Vec<u64> = vec![0, 1, per / 2, per - 2, per - 1, per, per + 1, 2 * per - 2, 2 * per - 1, 2 * per, 3 * per - 1];
        let mut missing = vec![];
        for p in &places {
            if ch.flag() {
                missing.push(*p);
            }
        }
        let mut x = BufferedCandle::new(Interval(i), Some(Interval(size)));
        let mut r = Buckets::new(size);
        for k in 0..3 * per + 2 {
            if missing.contains(&k) {
                continue;
            }
            let t = start + k * i;
            let c = shape((k % 4) as usize, t);
            let want = match r.push(&c, i) {
                Ok(w) => w,
                Err(()) => return Err(Stop::Prune),
            };
            let got = guarded(|| x.buffer(&c).map(|c| *c)).map_err(|e| Stop::Fail(format!("panicked at {}: {e}", Timestamp(t))))?;
            ensure!(got == want, "{} into {} without {missing:?}: at {} got {got:?} instead of {want:?}", Interval(i), Interval(size), Timestamp(t));
        }
        note!(ch, "{} into {} without {missing:?}", Interval(i), Interval(size));
        ch.state(missing.iter().fold(H::new().u(i).u(size).u(start), |h, m| h.u(*m)).get());
        ch.trans(3 * per as usize + 2);
        ch.validated();
        Ok(())
    });
    let len = run.deep(3_000, 20_000);
    run.section("many", &format!("8 pairs of intervals x 5 starts x every loop of 1 to 4 candles that are missing or of 4 shapes, over {len} candles"), |ch| {
        let (i, size) = *ch.of(&[(1000u64, 60_000), (60_000u64, HOUR), (300_000, 4 * HOUR), (HOUR, DAY), (HOUR, 7 * DAY), (4 * HOUR, 12 * HOUR), (DAY, 7 * DAY), (DAY, 2_629_746_000)]);
        let start = *ch.of(&[0, size, 17 * i, 946_684_800_000, 1_582_934_400_000]);
        // Weeks before the first Monday of 1970 are left to C26.
        let start = if size == 7 * DAY { start.max(4 * DAY) } else { start } / i * i;
        let l: Vec<Option<usize>> = (0..1 + ch.pick(4)).map(|_| ch.pick(5).checked_sub(1)).collect();
        drive_along(ch, i, size, (0..len as u64).map(|k| (start + k * i, l[k as usize % l.len()])))
    });
    run.section("unchanged", "without a longer interval, every candle passes as it is", |ch| {
        let i = *ch.of(&[1000u64, HOUR, DAY, 7 * DAY, 2_629_746_000]);
        let size = *ch.of(&[None, Some(Interval(i))]);
        let mut x = BufferedCandle::new(Interval(i), size);
        for k in 0..6 {
            let c = shape(ch.pick(4), k * i + ch.pick(2) as u64 * 77);
            let got = x.buffer(&c).map(|c| *c);
            ensure!(got == Some(c), "{} unchanged: got {got:?} instead of {c:?}", Interval(i));
        }
        ch.state(i);
        ch.trans(6);
        ch.validated();
        Ok(())
    });
}

fn main() {
    main_with(&[("C12", c12), ("C13", c13), ("C14", c14)])
}
