//! Parameters as JSON: building them, their genes and their documented ranges.
use serde_json::{json, Value};

pub const STRATEGIES: [&str; 9] = ["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA", "SigOsc", "Sig"];
pub const SIGNALS: [&str; 7] = ["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA"];
pub const OSCILLATORS: [&str; 2] = ["Rsi", "Stoch"];
pub const STOP_LOSSES: [&str; 5] = ["BasicPlusTrailing", "Basic", "Legacy", "Noop", "Trailing"];
pub const TAKE_PROFITS: [&str; 4] = ["Basic", "Legacy", "Noop", "Trending"];
pub const MAS: [&str; 7] = ["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"];
pub const POLICIES: [&str; 3] = ["Current", "Previous", "Ignore"];

pub fn ma(c: u32, period: u32) -> Value {
    match c {
        0 => json!({"type": "Sma", "period": period}),
        1 => json!({"type": "Kama", "period": period + 1}),
        _ => json!({"type": "Ema", "period": period + 2, "smoothing": null}),
    }
}
fn stoch(c: u32) -> Value {
    json!({"k_period": 3 + c, "k_sma_period": 1 + c, "d_sma_period": 2 + c, "up_threshold": 60.0 + c as f64, "down_threshold": 40.0 - c as f64})
}
fn tagged(t: &str, mut v: Value) -> Value {
    v["type"] = json!(t);
    v
}

/// Parameters of the kind; those of different colours differ in every gene.
pub fn signal(kind: &str, c: u32) -> Value {
    let f = c as f64;
    let mas = json!([ma(c, 2 + c), ma(c, 6 + c)]);
    tagged(
        kind,
        match kind {
            "DoubleMA" => json!({ "mas": mas }),
            "DoubleMA2" => json!({"mas": mas, "neg_threshold": -0.5 - f / 10.0, "pos_threshold": 0.5 + f / 10.0}),
            "DoubleMAStoch" => json!({"double_ma": {"mas": mas}, "stoch": stoch(c)}),
            "FourWeekRule" => json!({"period": 3 + c, "ma": ma(c, 4)}),
            "Macd" => json!({"periods": [2 + c, 5 + c], "signal_period": 2 + c}),
            "SingleMA" => json!({"ma": ma(c, 4)}),
            "TripleMA" => json!({"mas": [ma(c, 2), ma(c, 4 + c), ma(c, 8 + c)]}),
            k => panic!("no signal {k}"),
        },
    )
}
pub fn oscillator(kind: &str, c: u32) -> Value {
    tagged(
        kind,
        match kind {
            "Rsi" => json!({"period": 3 + c, "up_threshold": 70.0 + c as f64, "down_threshold": 30.0 - c as f64}),
            _ => stoch(c),
        },
    )
}

/// All 28 combinations of strategy, wrapped signal and oscillator.
pub fn strategy_kinds() -> Vec<(String, String, String)> {
    let mut v = vec![];
    for s in SIGNALS {
        v.push((s.to_string(), String::new(), String::new()));
    }
    for s in SIGNALS {
        v.push(("Sig".into(), s.into(), String::new()));
    }
    for s in SIGNALS {
        for o in OSCILLATORS {
            v.push(("SigOsc".into(), s.into(), o.into()));
        }
    }
    v
}
pub fn strategy(k: &(String, String, String), c: u32) -> Value {
    let policy = POLICIES[c as usize % 3];
    match k.0.as_str() {
        "Sig" => json!({"type": "Sig", "sig": signal(&k.1, c), "persistence": 1 + c, "mid_trend_policy": policy,
            "buffer_interval": 86_400_000u64 * (1 + c as u64)}),
        "SigOsc" => json!({"type": "SigOsc", "sig": signal(&k.1, c), "osc": oscillator(&k.2, c),
            "osc_filter": if c % 2 == 0 { "Enforce" } else { "Prevent" }, "persistence": 1 + c, "mid_trend_policy": policy}),
        s => signal(s, c),
    }
}
pub fn stop_loss(kind: &str, c: u32) -> Value {
    let f = c as f64 / 10.0;
    let b = json!({"up_threshold": 0.2 + f, "down_threshold": 0.3 + f});
    tagged(
        kind,
        match kind {
            "BasicPlusTrailing" => json!({"basic": b, "trailing": {"up_threshold": 0.15 + f, "down_threshold": 0.25 + f}}),
            "Basic" | "Trailing" => b,
            "Legacy" => json!({"threshold": 0.2 + f, "trail": c % 2 == 0}),
            "Noop" => json!({}),
            k => panic!("no stop loss {k}"),
        },
    )
}
pub fn take_profit(kind: &str, c: u32) -> Value {
    let f = c as f64 / 10.0;
    let easing = ["QuadOut", "SineIn", "Linear"][c as usize % 3];
    tagged(
        kind,
        match kind {
            "Basic" => json!({"up_threshold": 0.2 + f, "down_threshold": 0.3 + f}),
            "Legacy" => json!({"threshold": 0.2 + f}),
            "Noop" => json!({}),
            "Trending" => json!({"up_thresholds": [0.2 + f, 0.6 + f], "down_thresholds": [0.1 + f, 0.5 + f], "period": 3 + c,
                "lock_threshold": c % 2 == 0, "easing": easing}),
            k => panic!("no take profit {k}"),
        },
    )
}
pub fn individual(s: Value, interval: u64, sl: Value, tp: Value) -> Value {
    json!({"strategy": s, "trader": {"interval": interval}, "stop_loss": sl, "take_profit": tp})
}

/// Fields that have genes of their own.
const PARTS: [&str; 10] = ["strategy", "trader", "stop_loss", "take_profit", "sig", "osc", "double_ma", "stoch", "basic", "trailing"];

/// The genes as JSON pointers. One is that of the variant and stands for the whole part.
pub fn genes(v: &Value) -> Vec<String> {
    fn go(v: &Value, at: &str, out: &mut Vec<String>) {
        for (k, x) in v.as_object().unwrap() {
            let at = format!("{at}/{k}");
            if k == "type" {
            } else if PARTS.contains(&k.as_str()) {
                if x.get("type").is_some() {
                    out.push(at.clone());
                }
                go(x, &at, out);
            } else {
                out.push(at);
            }
        }
    }
    let mut out = vec![];
    go(v, "", &mut out);
    out
}

/// Genes that exist in both, all parts around them being of the same variant.
pub fn common_genes(a: &Value, b: &Value) -> Vec<String> {
    genes(a)
        .into_iter()
        .filter(|g| {
            let mut at = String::new();
            for part in g[1..].split('/') {
                let (x, y) = (a.pointer(&at).unwrap(), b.pointer(&at).unwrap());
                if x.get("type") != y.get("type") {
                    return false;
                }
                at = format!("{at}/{part}");
            }
            true
        })
        .collect()
}

pub fn replaced(a: &Value, gene: &str, by: &Value) -> Value {
    let mut a = a.clone();
    *a.pointer_mut(gene).unwrap() = by.clone();
    a
}

/// Smallest genes at which the two differ.
pub fn changed(a: &Value, b: &Value) -> Vec<String> {
    fn go(a: &Value, b: &Value, at: &str, out: &mut Vec<String>) {
        for (k, x) in a.as_object().unwrap() {
            let y = &b[k];
            if k == "type" || x == y {
                continue;
            }
            let at = format!("{at}/{k}");
            if PARTS.contains(&k.as_str()) && x.get("type") == y.get("type") {
                go(x, y, &at, out);
            } else {
                out.push(at);
            }
        }
    }
    let mut out = vec![];
    go(a, b, "", &mut out);
    out
}

/// The innermost gene of `a` that contains all the given ones.
pub fn enclosing(a: &Value, of: &[String]) -> Option<String> {
    genes(a)
        .into_iter()
        .filter(|g| of.iter().all(|c| c == g || c.starts_with(&format!("{g}/"))))
        .max_by_key(|g| g.len())
}

fn num(v: &Value) -> f64 {
    v.as_f64().unwrap_or(f64::NAN)
}
fn within(what: &str, v: &Value, low: f64, high: f64) -> Result<(), String> {
    let x = num(v);
    if x >= low && x < high {
        Ok(())
    } else {
        Err(format!("{what} is {v}, outside [{low}, {high})"))
    }
}
fn check_ma(what: &str, v: &Value, low: f64, high: f64) -> Result<(), String> {
    let t = v["type"].as_str().unwrap_or("");
    if !MAS.contains(&t) {
        return Err(format!("{what} is {v}"));
    }
    within(&format!("period of {what}"), &v["period"], low, high)
}
fn ascending(what: &str, v: &[f64]) -> Result<(), String> {
    if v.windows(2).all(|w| w[0] < w[1]) {
        Ok(())
    } else {
        Err(format!("{what} {v:?} are not ascending"))
    }
}
fn check_mas(v: &Value, n: usize, high: f64) -> Result<(), String> {
    let mas = v.as_array().ok_or("averages")?;
    if mas.len() != n {
        return Err(format!("averages {v}"));
    }
    for m in mas {
        check_ma("an average", m, 1.0, high)?;
    }
    ascending("periods", &mas.iter().map(|m| num(&m["period"])).collect::<Vec<_>>())
}
fn check_stoch(v: &Value) -> Result<(), String> {
    for k in ["k_period", "k_sma_period", "d_sma_period"] {
        within(k, &v[k], 1.0, 201.0)?;
    }
    within("upper threshold", &v["up_threshold"], 50.0, 100.0)?;
    within("lower threshold", &v["down_threshold"], 0.0, 50.0)
}
fn check_signal(v: &Value) -> Result<(), String> {
    match v["type"].as_str().unwrap_or("") {
        "DoubleMA" => check_mas(&v["mas"], 2, 301.0),
        "DoubleMA2" => {
            check_mas(&v["mas"], 2, 201.0)?;
            within("negative threshold", &v["neg_threshold"], -1.0, -0.1)?;
            within("positive threshold", &v["pos_threshold"], 0.1, 1.0)
        }
        "DoubleMAStoch" => {
            check_mas(&v["double_ma"]["mas"], 2, 301.0)?;
            check_stoch(&v["stoch"])
        }
        "FourWeekRule" => {
            within("period", &v["period"], 2.0, 300.0)?;
            check_ma("average", &v["ma"], 2.0, 300.0)
        }
        "Macd" => {
            let p: Vec<f64> = v["periods"].as_array().ok_or("periods")?.iter().map(num).collect();
            if p.len() != 2 || p[0] < 1.0 || p[1] >= 101.0 {
                return Err(format!("periods {p:?}"));
            }
            ascending("periods", &p)?;
            within("signal period", &v["signal_period"], 1.0, 100.0)
        }
        "SingleMA" => check_ma("average", &v["ma"], 1.0, 300.0),
        "TripleMA" => check_mas(&v["mas"], 3, 301.0),
        t => Err(format!("signal {t:?}")),
    }
}
fn check_common(v: &Value) -> Result<(), String> {
    check_signal(&v["sig"])?;
    within("persistence", &v["persistence"], 0.0, 10.0)?;
    if !POLICIES.contains(&v["mid_trend_policy"].as_str().unwrap_or("")) {
        return Err(format!("policy {}", v["mid_trend_policy"]));
    }
    Ok(())
}
fn check_thresholds(v: &Value, high: f64) -> Result<(), String> {
    within("upper threshold", &v["up_threshold"], 0.001, high)?;
    within("lower threshold", &v["down_threshold"], 0.001, high)
}
fn check_legacy(v: &Value, high: f64) -> Result<(), String> {
    if num(&v["threshold"]) == 0.0 {
        return Ok(());
    }
    within("threshold", &v["threshold"], 0.01, high)
}

/// Is every gene within its range?
pub fn check_ranges(v: &Value, intervals: &[u64]) -> Result<(), String> {
    let s = &v["strategy"];
    match s["type"].as_str().unwrap_or("") {
        "Sig" => check_common(s)?,
        "SigOsc" => {
            check_common(s)?;
            let o = &s["osc"];
            match o["type"].as_str().unwrap_or("") {
                "Rsi" => {
                    within("period", &o["period"], 1.0, 101.0)?;
                    within("upper threshold", &o["up_threshold"], 50.0, 100.0)?;
                    within("lower threshold", &o["down_threshold"], 0.0, 50.0)?;
                }
                "Stoch" => check_stoch(o)?,
                t => return Err(format!("oscillator {t:?}")),
            }
        }
        _ => check_signal(s)?,
    }
    let i = v["trader"]["interval"].as_u64().ok_or("interval")?;
    if !intervals.contains(&i) {
        return Err(format!("interval {i} was not offered"));
    }
    let l = &v["stop_loss"];
    match l["type"].as_str().unwrap_or("") {
        "BasicPlusTrailing" => {
            check_thresholds(&l["basic"], 1.0)?;
            check_thresholds(&l["trailing"], 1.0)?;
        }
        "Basic" | "Trailing" => check_thresholds(l, 1.0)?,
        "Legacy" => check_legacy(l, 1.0)?,
        "Noop" => {}
        t => return Err(format!("stop loss {t:?}")),
    }
    let p = &v["take_profit"];
    match p["type"].as_str().unwrap_or("") {
        "Basic" => check_thresholds(p, 10.0)?,
        "Legacy" => check_legacy(p, 10.0)?,
        "Noop" => {}
        "Trending" => {
            for k in ["up_thresholds", "down_thresholds"] {
                let t: Vec<f64> = p[k].as_array().ok_or("thresholds")?.iter().map(num).collect();
                if t.len() != 2 || t[0] < 0.001 || t[1] >= 10.0 {
                    return Err(format!("thresholds {t:?}"));
                }
                ascending("thresholds", &t)?;
            }
            within("period", &p["period"], 1.0, 200.0)?;
        }
        t => return Err(format!("take profit {t:?}")),
    }
    Ok(())
}

/// The context that pins the given genes to the values of `v`; variants around them are pinned too.
pub fn pinning(v: &Value, pinned: &[String], intervals: &[u64]) -> Value {
    fn go(v: &Value, at: &str, pinned: &[String]) -> Option<Value> {
        let mut out = serde_json::Map::new();
        for (k, x) in v.as_object().unwrap() {
            let at = format!("{at}/{k}");
            if k == "type" {
                out.insert(k.clone(), x.clone());
            } else if pinned.contains(&at) {
                // A pinned variant leaves the genes inside free.
                if x.is_object() && x.get("type").is_some() && genes(v).iter().any(|g| g == &format!("/{k}")) && is_part(k) {
                    out.insert(k.clone(), go(x, &at, pinned).unwrap());
                } else {
                    out.insert(k.clone(), x.clone());
                }
            } else if is_part(k) && pinned.iter().any(|p| p.starts_with(&format!("{at}/"))) {
                out.insert(k.clone(), go(x, &at, pinned).unwrap());
            }
        }
        Some(Value::Object(out))
    }
    let mut c = go(v, "", pinned).unwrap();
    c["trader"] = json!({ "intervals": intervals });
    c
}
pub fn is_part(k: &str) -> bool {
    ["strategy", "stop_loss", "take_profit", "sig", "osc", "double_ma", "stoch", "basic", "trailing"].contains(&k)
}
