//! Reference definitions, written over the whole history (no incremental state) and independent
//! of the code under test.

pub fn mean(x: &[f64]) -> f64 {
    x.iter().sum::<f64>() / x.len() as f64
}

/// Simple moving average; defined from `n` prices on.
pub fn sma(p: &[f64], n: usize) -> Option<f64> {
    (p.len() >= n).then(|| mean(&p[p.len() - n..]))
}

/// Exponential moving average with factor `a`, seeded with the first price.
pub fn ema_a(p: &[f64], a: f64) -> f64 {
    let mut v = p[0];
    for &x in &p[1..] {
        v = a * x + (1.0 - a) * v;
    }
    v
}

pub fn ema_factor(n: usize) -> f64 {
    2.0 / (n as f64 + 1.0)
}

/// Seeded with the simple average of the first `n`.
pub fn ema2(p: &[f64], n: usize) -> Option<f64> {
    if p.len() < n {
        return None;
    }
    let a = ema_factor(n);
    let mut v = mean(&p[..n]);
    for &x in &p[n..] {
        v = a * x + (1.0 - a) * v;
    }
    Some(v)
}

/// 2 * EMA - EMA of the EMA, the latter starting with the n-th value of the former.
pub fn dema(p: &[f64], n: usize) -> Option<f64> {
    if p.len() < 2 * n - 1 {
        return None;
    }
    let a = ema_factor(n);
    let emas: Vec<f64> = (n..=p.len()).map(|t| ema_a(&p[..t], a)).collect();
    Some(2.0 * emas[emas.len() - 1] - ema_a(&emas, a))
}

/// Wilder smoothing, seeded with the simple average of the first `n`.
pub fn smma(p: &[f64], n: usize) -> Option<f64> {
    if p.len() < n {
        return None;
    }
    let mut v = mean(&p[..n]);
    for &x in &p[n..] {
        v += (x - v) / n as f64;
    }
    Some(v)
}

pub fn alma(p: &[f64], n: usize, offset: f64, sigma: Option<u32>) -> Option<f64> {
    if p.len() < n {
        return None;
    }
    let sigma = sigma.unwrap_or((n as f64 / 1.5).floor() as u32) as f64;
    let m = (offset * (n as f64 - 1.0)).floor();
    let s = n as f64 / sigma;
    let w: Vec<f64> = (0..n)
        .map(|i| {
            let d = i as f64 - m;
            (-d * d / (2.0 * s * s)).exp()
        })
        .collect();
    let win = &p[p.len() - n..];
    let num: f64 = (0..n).map(|i| w[i] * win[i]).sum();
    Some(num / w.iter().sum::<f64>())
}

/// Kaufman adaptive; starts at the n-th price.
pub fn kama(p: &[f64], n: usize) -> Option<f64> {
    if p.len() < n {
        return None;
    }
    let mut v = p[n - 1];
    let (fast, slow) = (2.0 / 3.0, 2.0 / 31.0);
    for t in n..p.len() {
        let volatility: f64 = (t + 1 - n..=t).map(|i| (p[i] - p[i - 1]).abs()).sum();
        let er = if volatility == 0.0 {
            1.0
        } else {
            (p[t] - p[t - n]).abs() / volatility
        };
        let sc = er * (fast - slow) + slow;
        v += sc * sc * (p[t] - v);
    }
    Some(v)
}

/// (macd, signal) from `long + signal - 1` prices on.
pub fn macd(p: &[f64], short: usize, long: usize, signal: usize) -> Option<(f64, f64)> {
    if p.len() < long + signal - 1 {
        return None;
    }
    let (a, b) = if (short, long) == (12, 26) {
        (0.15, 0.075)
    } else {
        (ema_factor(short), ema_factor(long))
    };
    let line: Vec<f64> = (long..=p.len())
        .map(|t| ema_a(&p[..t], a) - ema_a(&p[..t], b))
        .collect();
    Some((line[line.len() - 1], ema_a(&line, ema_factor(signal))))
}

pub fn rsi(p: &[f64], n: usize) -> Option<f64> {
    if p.len() < n + 1 {
        return None;
    }
    let up: Vec<f64> = p.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect();
    let down: Vec<f64> = p.windows(2).map(|w| (w[0] - w[1]).max(0.0)).collect();
    let (u, d) = (smma(&up, n)?, smma(&down, n)?);
    Some(if u + d == 0.0 { 0.0 } else { 100.0 * u / (u + d) })
}

/// (k, d); candles are (high, low, close).
pub fn stoch(c: &[(f64, f64, f64)], k: usize, ks: usize, ds: usize) -> Option<(f64, f64)> {
    if c.len() < k + ks + ds - 2 {
        return None;
    }
    let fast: Vec<f64> = (k..=c.len())
        .map(|t| {
            let w = &c[t - k..t];
            let hi = w.iter().map(|x| x.0).fold(f64::NEG_INFINITY, f64::max);
            let lo = w.iter().map(|x| x.1).fold(f64::INFINITY, f64::min);
            if hi == lo {
                0.0
            } else {
                (c[t - 1].2 - lo) / (hi - lo) * 100.0
            }
        })
        .collect();
    let slow: Vec<f64> = (ks..=fast.len()).map(|t| mean(&fast[t - ks..t])).collect();
    Some((slow[slow.len() - 1], mean(&slow[slow.len() - ds..])))
}

fn directions(c: &[(f64, f64, f64)]) -> Vec<(f64, f64)> {
    c.windows(2)
        .map(|w| {
            let up = (w[1].0 - w[0].0).max(0.0);
            let down = (w[0].1 - w[1].1).max(0.0);
            if up > down {
                (up, 0.0)
            } else if down > up {
                (0.0, down)
            } else if up == 0.0 {
                (0.0, 0.0)
            } else {
                // Equal movements in both directions cancel neither in this family of indicators.
                (up, down)
            }
        })
        .collect()
}

fn wilder_sum(x: &[f64], n: usize) -> f64 {
    // The sum of the first n - 1, then decaying by 1/n.
    let first = (n - 1).min(x.len());
    let mut v: f64 = x[..first].iter().sum();
    for &y in &x[first..] {
        v = v * (n as f64 - 1.0) / n as f64 + y;
    }
    v
}

/// (plus, minus) from n candles on.
pub fn dm(c: &[(f64, f64, f64)], n: usize) -> Option<(f64, f64)> {
    if c.len() < n {
        return None;
    }
    let d = directions(c);
    let up: Vec<f64> = d.iter().map(|x| x.0).collect();
    let down: Vec<f64> = d.iter().map(|x| x.1).collect();
    Some((wilder_sum(&up, n), wilder_sum(&down, n)))
}

pub fn di(c: &[(f64, f64, f64)], n: usize) -> Option<(f64, f64)> {
    let (p, m) = dm(c, n)?;
    let tr: Vec<f64> = c
        .windows(2)
        .map(|w| {
            let pc = w[0].2;
            let (h, l) = (w[1].0, w[1].1);
            (h - l).max((h - pc).abs()).max((l - pc).abs())
        })
        .collect();
    let atr = wilder_sum(&tr, n);
    Some(if atr == 0.0 {
        (0.0, 0.0)
    } else {
        (100.0 * p / atr, 100.0 * m / atr)
    })
}

pub fn dx(c: &[(f64, f64, f64)], n: usize) -> Option<f64> {
    let (p, m) = dm(c, n)?;
    Some(if p + m == 0.0 {
        0.0
    } else {
        100.0 * (p - m).abs() / (p + m)
    })
}

/// From 2n - 1 candles on.
pub fn adx(c: &[(f64, f64, f64)], n: usize) -> Option<f64> {
    let dxs: Vec<f64> = (n..=c.len()).map(|t| dx(&c[..t], n).unwrap()).collect();
    smma(&dxs, n)
}

/// Easing functions by name (Penner's, with the customary half/half "inout" combination).
pub fn easing(name: &str, x: f64) -> f64 {
    use std::f64::consts::PI;
    let (family, kind) = if let Some(f) = name.strip_suffix("Inout") {
        (f, 2)
    } else if let Some(f) = name.strip_suffix("Out") {
        (f, 1)
    } else if let Some(f) = name.strip_suffix("In") {
        (f, 0)
    } else {
        (name, 0)
    };
    let ease_in = |t: f64| -> f64 {
        match family {
            "Linear" => t,
            "Quad" => t.powi(2),
            "Cubic" => t.powi(3),
            "Quart" => t.powi(4),
            "Quint" => t.powi(5),
            "Sine" => 1.0 - (t * PI / 2.0).cos(),
            "Circ" => 1.0 - (1.0 - t * t).max(0.0).sqrt(),
            "Expo" => {
                if t == 0.0 {
                    0.0
                } else {
                    (2f64).powf(10.0 * t - 10.0)
                }
            }
            "Elastic" => (13.0 * PI / 2.0 * t).sin() * (2f64).powf(10.0 * t - 10.0),
            "Back" => t.powi(3) - t * (t * PI).sin(),
            "Bounce" => {
                let t = 1.0 - t;
                1.0 - if t < 4.0 / 11.0 {
                    121.0 * t * t / 16.0
                } else if t < 8.0 / 11.0 {
                    363.0 / 40.0 * t * t - 99.0 / 10.0 * t + 17.0 / 5.0
                } else if t < 0.9 {
                    4356.0 / 361.0 * t * t - 35442.0 / 1805.0 * t + 16061.0 / 1805.0
                } else {
                    54.0 / 5.0 * t * t - 513.0 / 25.0 * t + 268.0 / 25.0
                }
            }
            _ => unreachable!("{name}"),
        }
    };
    match kind {
        0 => ease_in(x),
        1 => 1.0 - ease_in(1.0 - x),
        _ => {
            if x < 0.5 {
                ease_in(2.0 * x) / 2.0
            } else {
                1.0 - ease_in(2.0 - 2.0 * x) / 2.0
            }
        }
    }
}

pub const EASINGS: [&str; 31] = [
    "Linear", "QuadIn", "QuadOut", "QuadInout", "CubicIn", "CubicOut", "CubicInout", "QuartIn",
    "QuartOut", "QuartInout", "QuintIn", "QuintOut", "QuintInout", "SineIn", "SineOut",
    "SineInout", "CircIn", "CircOut", "CircInout", "ExpoIn", "ExpoOut", "ExpoInout", "ElasticIn",
    "ElasticOut", "ElasticInout", "BackIn", "BackOut", "BackInout", "BounceIn", "BounceOut",
    "BounceInout",
];
