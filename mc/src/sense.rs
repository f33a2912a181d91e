//! Which parameters make sense, said independently of the code that refuses the others.
use crate::tkit::*;
use juno::indicators::*;
use juno::strategies::*;
use juno::take_profit::TakeProfitParams;
use juno::trading::TradingParams;
use juno::Interval;

pub type Sense = Result<(), String>;

fn period(what: &str, n: u32) -> Sense {
    if n == 0 { Err(format!("{what} of zero")) } else { Ok(()) }
}

pub fn ma(m: &MAParams) -> Sense {
    period("an average's period", m.period())?;
    match m {
        MAParams::Ema(e) => match e.smoothing {
            Some(s) if !(s > 0.0 && s <= 1.0) => Err(format!("a smoothing of {s}")),
            _ => Ok(()),
        },
        MAParams::Alma(a) if !(a.offset > 0.0 && a.offset < 1.0) => Err(format!("an offset of {}", a.offset)),
        MAParams::Alma(a) if a.sigma == Some(0) => Err("a sigma of zero".into()),
        _ => Ok(()),
    }
}

fn ordered(mas: &[&MAParams]) -> Sense {
    for m in mas {
        ma(m)?;
    }
    match mas.windows(2).find(|w| w[0].period() >= w[1].period()) {
        Some(w) => Err(format!("an average over {} before one over {}", w[0].period(), w[1].period())),
        None => Ok(()),
    }
}

fn two_mas(p: &DoubleMAParams) -> Sense {
    ordered(&[&p.mas.0, &p.mas.1])
}

fn stoch(p: &StochParams) -> Sense {
    period("a stochastic's period", p.k_period)?;
    period("a stochastic's smoothing", p.k_sma_period)?;
    period("a stochastic's signal period", p.d_sma_period)
}

pub fn signal(p: &SignalParams) -> Sense {
    match p {
        SignalParams::DoubleMA(p) => two_mas(p),
        SignalParams::DoubleMA2(p) => {
            ordered(&[&p.mas.0, &p.mas.1])?;
            if !(p.pos_threshold > 0.0 && p.pos_threshold < 1.0) {
                return Err(format!("an upper threshold of {}", p.pos_threshold));
            }
            if !(p.neg_threshold < 0.0 && p.neg_threshold >= -1.0) {
                return Err(format!("a lower threshold of {}", p.neg_threshold));
            }
            Ok(())
        }
        SignalParams::DoubleMAStoch(p) => two_mas(&p.double_ma).and(stoch(&p.stoch)),
        SignalParams::FourWeekRule(p) => period("weeks", p.period).and(ma(&p.ma)),
        SignalParams::Macd(p) => {
            period("a short period", p.periods.0)?;
            period("a long period", p.periods.1)?;
            period("a signal period", p.signal_period)?;
            if p.periods.0 > p.periods.1 {
                return Err(format!("{} and {} as short and long period", p.periods.0, p.periods.1));
            }
            Ok(())
        }
        SignalParams::SingleMA(p) => ma(&p.ma),
        SignalParams::TripleMA(p) => ordered(&[&p.mas.0, &p.mas.1, &p.mas.2]),
    }
}

pub fn oscillator(p: &OscillatorParams) -> Sense {
    match p {
        OscillatorParams::Rsi(p) => period("a relative strength's period", p.period),
        OscillatorParams::Stoch(p) => stoch(p),
    }
}

/// The same as a signal, unless it is made of one.
pub fn as_signal(p: &StrategyParams) -> Option<SignalParams> {
    Some(match *p {
        StrategyParams::DoubleMA(p) => SignalParams::DoubleMA(p),
        StrategyParams::DoubleMA2(p) => SignalParams::DoubleMA2(p),
        StrategyParams::DoubleMAStoch(p) => SignalParams::DoubleMAStoch(p),
        StrategyParams::FourWeekRule(p) => SignalParams::FourWeekRule(p),
        StrategyParams::Macd(p) => SignalParams::Macd(p),
        StrategyParams::SingleMA(p) => SignalParams::SingleMA(p),
        StrategyParams::TripleMA(p) => SignalParams::TripleMA(p),
        StrategyParams::SigOsc(_) | StrategyParams::Sig(_) => return None,
    })
}

pub fn strategy(p: &StrategyParams, interval: Interval) -> Sense {
    match p {
        StrategyParams::SigOsc(p) => signal(&p.sig).and(oscillator(&p.osc)),
        StrategyParams::Sig(p) => {
            signal(&p.sig)?;
            match p.buffer_interval {
                Some(b) if b < interval => Err(format!("candles of {interval} gathered over {}", b.0)),
                // Weeks and months have calendar boundaries, nothing else above a week has.
                Some(b) if b > interval && b > Interval::WEEK_MS && b != Interval::MONTH_MS => Err(format!("candles gathered over {b}")),
                _ => Ok(()),
            }
        }
        p => signal(&as_signal(p).unwrap()),
    }
}

pub fn trading(p: &TradingParams) -> Sense {
    strategy(&p.strategy, p.trader.interval)?;
    match &p.take_profit {
        TakeProfitParams::Trending(t) => period("a trend's period", t.period),
        _ => Ok(()),
    }
}

fn ma_need(m: &MAParams) -> u64 {
    m.period().into()
}

/// At least so many candles (of the gathered kind) are needed before there can be any advice.
pub fn signal_need(p: &SignalParams) -> u64 {
    let stoch = |s: &StochParams| s.k_period.max(s.k_sma_period).max(s.d_sma_period) as u64;
    match p {
        SignalParams::DoubleMA(p) => ma_need(&p.mas.0).max(ma_need(&p.mas.1)),
        SignalParams::DoubleMA2(p) => ma_need(&p.mas.0).max(ma_need(&p.mas.1)),
        SignalParams::DoubleMAStoch(p) => ma_need(&p.double_ma.mas.0).max(ma_need(&p.double_ma.mas.1)).max(stoch(&p.stoch)),
        SignalParams::FourWeekRule(p) => ma_need(&p.ma).max(p.period.into()),
        SignalParams::Macd(p) => p.periods.0.max(p.periods.1).max(p.signal_period).into(),
        SignalParams::SingleMA(p) => ma_need(&p.ma),
        SignalParams::TripleMA(p) => ma_need(&p.mas.0).max(ma_need(&p.mas.1)).max(ma_need(&p.mas.2)),
    }
}
pub fn need(p: &StrategyParams) -> u64 {
    match p {
        StrategyParams::SigOsc(p) => {
            let osc = match &p.osc {
                OscillatorParams::Rsi(r) => r.period.into(),
                OscillatorParams::Stoch(s) => s.k_period.max(s.k_sma_period).max(s.d_sma_period) as u64,
            };
            signal_need(&p.sig).max(osc).max(p.persistence.into())
        }
        StrategyParams::Sig(p) => signal_need(&p.sig).max(p.persistence.into()),
        p => signal_need(&as_signal(p).unwrap()),
    }
}

pub const MA_KINDS: usize = 7;
pub fn kind_of_ma(kind: usize, period: u32) -> MAParams {
    match kind {
        0 => MAParams::Sma(SmaParams { period }),
        1 => MAParams::Ema(EmaParams { period, smoothing: None }),
        2 => MAParams::Ema2(Ema2Params { period }),
        3 => MAParams::Dema(DemaParams { period }),
        4 => MAParams::Smma(SmmaParams { period }),
        5 => MAParams::Kama(KamaParams { period }),
        _ => MAParams::Alma(AlmaParams { period, offset: 0.85, sigma: None }),
    }
}
pub fn of(s: SignalParams) -> StrategyParams {
    match s {
        SignalParams::DoubleMA(p) => StrategyParams::DoubleMA(p),
        SignalParams::DoubleMA2(p) => StrategyParams::DoubleMA2(p),
        SignalParams::DoubleMAStoch(p) => StrategyParams::DoubleMAStoch(p),
        SignalParams::FourWeekRule(p) => StrategyParams::FourWeekRule(p),
        SignalParams::Macd(p) => StrategyParams::Macd(p),
        SignalParams::SingleMA(p) => StrategyParams::SingleMA(p),
        SignalParams::TripleMA(p) => StrategyParams::TripleMA(p),
    }
}
/// One signal that makes sense, and those that break one rule each.
pub fn samples() -> Vec<SignalParams> {
    use SignalParams as S;
    let d = |a, b| double_ma(sma(a), ema(b));
    let d2 = |pos_threshold, neg_threshold, a, b| S::DoubleMA2(DoubleMA2Params { pos_threshold, neg_threshold, mas: (sma(a), ema(b)) });
    let dms = |a, b, k, ks, ds| S::DoubleMAStoch(DoubleMAStochParams { double_ma: d(a, b), stoch: stoch_params(k, ks, ds, 60.0, 30.0) });
    let m = |a, b, signal_period| S::Macd(MacdParams { periods: (a, b), signal_period });
    let t = |a, b, c| S::TripleMA(TripleMAParams { mas: (sma(a), ema(b), sma(c)) });
    vec![
        S::DoubleMA(d(1, 2)), S::DoubleMA(d(0, 2)), S::DoubleMA(d(2, 2)), S::DoubleMA(d(3, 2)),
        d2(0.5, -0.5, 1, 2), d2(0.0, -0.5, 1, 2), d2(1.0, -0.5, 1, 2), d2(0.5, 0.0, 1, 2), d2(0.5, -1.5, 1, 2), d2(0.5, -0.5, 2, 1),
        dms(1, 2, 2, 1, 1), dms(1, 2, 0, 1, 1), dms(1, 2, 2, 0, 1), dms(1, 2, 2, 1, 0), dms(2, 2, 2, 1, 1),
        S::FourWeekRule(FourWeekRuleParams { period: 2, ma: sma(1) }), S::FourWeekRule(FourWeekRuleParams { period: 0, ma: sma(1) }), S::FourWeekRule(FourWeekRuleParams { period: 2, ma: sma(0) }),
        m(1, 2, 2), m(0, 2, 2), m(2, 1, 2), m(1, 2, 0), m(0, 0, 1),
        S::SingleMA(SingleMAParams { ma: ema(2) }), S::SingleMA(SingleMAParams { ma: ema(0) }),
        t(1, 2, 3), t(1, 1, 3), t(1, 3, 3), t(3, 2, 1), t(0, 1, 2),
    ]
}
