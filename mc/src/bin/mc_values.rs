//! C08, C25–C28: order filters, intervals, timestamps, spans and numeric helpers.
use juno::filters::{Price, Size};
use juno::itertools::IteratorExt;
use juno::math::*;
use juno::symbol::iter_assets;
use juno::utils::{generate_missing_spans, merge_adjacent_spans, page};
use juno::{Interval, SymbolExt, Timestamp};
use mc::tkit::few;
use mc::util::*;
use mc::*;
use std::str::FromStr;

// ---------------------------------------------------------------------------------------------
// C08

/// Exact when everything is a multiple of 1/64.
fn units(v: f64) -> i64 {
    let u = v * 64.0;
    assert!(u == u.trunc());
    u as i64
}

fn want_down(v: i64, min: i64, max: i64, step: i64) -> i64 {
    if v < min {
        return 0;
    }
    let v = if max > 0 { v.min(max) } else { v };
    if step > 0 {
        (0..).map(|k| k * step).take_while(|x| *x <= v).last().unwrap()
    } else {
        v
    }
}

fn want_up(v: i64, min: i64, max: i64, step: i64) -> i64 {
    if v < min {
        return 0;
    }
    let capped = |x: i64| if max > 0 { x.min(max) } else { x };
    if step == 0 {
        return capped(v);
    }
    let reach = (0..).map(|k| k * step).find(|x| *x >= v).unwrap();
    if max > 0 && reach > max {
        (0..).map(|k| k * step).take_while(|x| *x <= max).last().unwrap()
    } else {
        reach
    }
}

fn want_valid(v: i64, min: i64, max: i64, step: i64) -> bool {
    v >= min && (max == 0 || v <= max) && (step == 0 || (v - min) % step == 0)
}

fn c08(run: &mut Run) {
    run.assume("exact on multiples of 1/64; decimal steps are judged up to 1e-9 steps around a tie");
    run.assume("a maximum below the minimum and negative values are outside the domain");
    let steps = [0.0, 0.015625, 0.25, 0.5, 0.75, 1.0, 1.25, 3.0, 10.0, 512.0];
    let limits = run.deep(
        vec![0.0, 0.015625, 0.25, 0.625, 1.0, 1.5, 2.75, 3.0, 7.5, 12.0, 1000.0],
        (0..=64).map(|x| x as f64 / 8.0).chain([12.0, 100.0, 1000.0]).collect(),
    );
    let n = run.deep(13 * 16, 40 * 16);
    run.section(
        "exact",
        &format!("{} minima x {} maxima x {} steps x {n} values from 0 in sixteenths, and the limits and their neighbours", limits.len(), limits.len(), steps.len()),
        |ch| {
            let step = *ch.of(&steps);
            let min = *ch.of(&limits);
            let max = *ch.of(&limits);
            if max > 0.0 && max < min {
                return Err(Stop::Prune);
            }
            let mut values: Vec<f64> = (0..n).map(|k| k as f64 / 16.0).collect();
            for l in [min, max, step, max + step, min + step] {
                values.extend([l, l + 0.015625, (l - 0.015625).max(0.0)]);
            }
            let (size, price) = (Size { min, max, step }, Price { min, max, step });
            let (mi, ma, st) = (units(min), units(max), units(step));
            for v in values {
                let u = units(v);
                let what = format!("min {min} max {max} step {step} value {v}");
                let down = want_down(u, mi, ma, st) as f64 / 64.0;
                let up = want_up(u, mi, ma, st) as f64 / 64.0;
                let valid = want_valid(u, mi, ma, st);
                let (d, p, r) = (size.round_down(v), price.round_down(v), size.round_up(v));
                if ch.verbose && v < 1.0 {
                    note!(ch, "{what}: size {d}, price {p}, size up {r}, valid {valid}");
                }
                ensure!(d == down, "{what}: size rounds down to {d} instead of {down}");
                ensure!(p == down, "{what}: price rounds down to {p} instead of {down}");
                ensure!(r == up, "{what}: size rounds up to {r} instead of {up}");
                ensure!(size.valid(v) == valid, "{what}: size valid is {}", !valid);
                ensure!(price.valid(v) == valid, "{what}: price valid is {}", !valid);
                if st == 0 || mi % st == 0 {
                    ensure!(size.round_down(d) == d && price.round_down(p) == p && size.round_up(r) == r, "{what}: rounding is not idempotent");
                    for (x, ok) in [(d, size.valid(d)), (p, price.valid(p)), (r, size.valid(r))] {
                        ensure!(x == 0.0 || ok, "{what}: rounding gives {x}, which is not valid");
                    }
                    if d == 0.0 {
                        ch.hit("rounded to zero");
                    } else if d != v {
                        ch.hit("rounded");
                    }
                }
                ch.state(H::new().f(d).f(r).f(min).f(max).f(step).get());
                ch.trans(4);
            }
            ch.validated();
            Ok(())
        },
    );
    let dsteps = [0.1, 0.01, 0.001, 0.0001, 0.00001, 0.000001, 0.00000001, 0.05, 0.3, 0.7];
    let dn = run.deep(400, 4000);
    run.section(
        "decimal",
        &format!("decimal steps x 4 limit pairs x 3 magnitudes x {dn} values around multiples of the step"),
        |ch| {
            let step = *ch.of(&dsteps);
            let (min, max) = *ch.of(&[(0.0, 0.0), (1.0, 0.0), (0.0, 150.3), (2.0, 99.9)]);
            let (min, max) = (min * step, max * step);
            let (size, price) = (Size { min, max, step }, Price { min, max, step });
            let base = *ch.of(&[0usize, 99_990, 10_000_000]);
            for k in base..base + dn {
                for off in [0.0, 0.25, 0.999, 0.001] {
                    let v = (k as f64 + off) * step;
                    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * step.max(b);
                    let w = if max > 0.0 { v.min(max) } else { v };
                    for (name, r, up) in [("size down", size.round_down(v), false), ("price down", price.round_down(v), false), ("size up", size.round_up(v), true)] {
                        let what = format!("{name}: min {min} max {max} step {step} value {v}: {r}");
                        if v < min && !near(v, min) {
                            ensure!(r == 0.0, "{what} instead of 0");
                            continue;
                        }
                        if r == 0.0 && near(v, min) {
                            continue;
                        }
                        let m = (r / step).round();
                        ensure!(near(r, m * step), "{what} is no multiple");
                        let x = w / step;
                        let eps = 1e-9 + x * 1e-14;
                        let ok = if up && (max == 0.0 || m * step <= max || near(m * step, max)) && m >= x - eps {
                            m < x + 1.0 + eps
                        } else if up {
                            max > 0.0 && (x.ceil() + eps) * step > max && m <= max / step + eps && m > max / step - 1.0 - eps
                        } else {
                            m <= x + eps && m > x - 1.0 - eps
                        };
                        ensure!(ok, "{what} is not the nearest multiple");
                        ch.state(H::new().f(r).f(step).f(max).get());
                    }
                    ch.trans(3);
                }
            }
            ch.validated();
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------
// C25

const UNITS: [(&str, u64); 8] = [
    ("y", 31_556_952_000),
    ("M", 2_629_746_000),
    ("w", 604_800_000),
    ("d", 86_400_000),
    ("h", 3_600_000),
    ("m", 60_000),
    ("s", 1000),
    ("ms", 1),
];

/// Groups of (quantity, unit index), or nothing if it is no interval.
fn groups(s: &str) -> Option<Vec<(u128, usize)>> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let start = i;
        let mut q: u128 = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            q = (q * 10 + b[i] as u128 - '0' as u128).min(1 << 100);
            i += 1;
        }
        if i == start {
            return None;
        }
        let ustart = i;
        while i < b.len() && b[i].is_ascii_alphabetic() {
            i += 1;
        }
        let u: String = b[ustart..i].iter().collect();
        out.push((q, UNITS.iter().position(|x| x.0 == u)?));
    }
    (!out.is_empty()).then_some(out)
}

fn want_interval(s: &str) -> Option<u64> {
    let mut total: u128 = 0;
    for (q, u) in groups(s)? {
        if q > u64::MAX as u128 {
            return None;
        }
        total += q * UNITS[u].1 as u128;
        if total > u64::MAX as u128 {
            return None;
        }
    }
    Some(total as u64)
}

fn check_parse(ch: &mut Ch, s: &str) -> Res {
    let want = want_interval(s);
    let got = guarded(|| Interval::from_str(s)).map_err(|e| Stop::Fail(format!("parsing {s:?} panicked: {e}")))?;
    note!(ch, "{s:?} -> {got:?}");
    ensure!(got.as_ref().ok().map(|x| x.0) == want, "{s:?} parses to {got:?} instead of {want:?}");
    let json = serde_json::to_string(s).unwrap();
    let got: Result<Interval, _> = serde_json::from_str(&json);
    ensure!(got.as_ref().ok().map(|x| x.0) == want, "JSON {json} reads as {got:?} instead of {want:?}");
    ch.hit(if want.is_some() { "accepted" } else { "refused" });
    ch.state(H::new().u(want.map_or(u64::MAX, |x| x)).u(want.is_some() as u64).u(s.len() as u64).get());
    ch.trans(2);
    Ok(())
}

fn check_print(ch: &mut Ch, v: u64) -> Res {
    let text = Interval(v).to_string();
    note!(ch, "{v} -> {text}");
    let Some(g) = groups(&text) else { fail!("{v} prints as {text:?}") };
    if v == 0 {
        ensure!(text == "0ms", "0 prints as {text:?}");
    } else {
        let mut left = v as u128;
        for (i, &(q, u)) in g.iter().enumerate() {
            ensure!(q > 0 && (i == 0 || u > g[i - 1].1), "{v} prints as {text:?}: units are not used once, largest first");
            let unit = UNITS[u].1 as u128;
            ensure!(q * unit <= left, "{v} prints as {text:?}, which is more");
            // Nothing larger than this unit was left over for it.
            ensure!(u == 0 || left < UNITS[u - 1].1 as u128, "{v} prints as {text:?}, a larger unit would do");
            left -= q * unit;
        }
        ensure!(left == 0, "{v} prints as {text:?}, which is less");
        ensure!(!text.starts_with('0'), "{v} prints as {text:?}");
    }
    let back = Interval::from_str(&text);
    ensure!(back == Ok(Interval(v)), "{v} prints as {text:?}, which parses to {back:?}");
    let back: Interval = serde_json::from_str(&v.to_string()).map_err(|e| Stop::Fail(format!("JSON number {v}: {e}")))?;
    ensure!(back.0 == v, "JSON number {v} reads as {back:?}");
    ch.state(v);
    ch.trans(2);
    Ok(())
}

fn c25(run: &mut Run) {
    let alphabet: Vec<char> = "0179yMwdhmsS -+.x٣é".chars().collect();
    let depth = run.deep(5, 6);
    run.section("strings", &format!("every text of up to {depth} of {} characters", alphabet.len()), |ch| {
        let n = ch.pick(depth + 1);
        let s: String = (0..n).map(|_| *ch.of(&alphabet)).collect();
        check_parse(ch, &s)?;
        ch.validated();
        Ok(())
    });
    let numbers = [
        "0", "1", "07", "59", "60", "1000", "18446744073709551615", "18446744073709551616",
        "99999999999999999999999999", "584554049", "584554050", "7014648593", "30500568904", "213503982334", "5124095576030",
    ];
    let units = ["y", "M", "w", "d", "h", "m", "s", "ms", "", "mm", "Ms", "Y", "sm", "D"];
    let n = run.deep(2, 3);
    run.section("groups", &format!("every sequence of up to {n} groups of {} numbers and {} units, with and without stray text", numbers.len(), units.len()), |ch| {
        let stray = *ch.of(&["", " ", "-", "\n", "1", "d"]);
        let at = if stray.is_empty() { 0 } else { ch.pick(3) };
        let count = 1 + ch.pick(n);
        let mut s = String::new();
        for i in 0..count {
            if at == 1 && i > 0 || at == 0 && i == 0 {
                s.push_str(stray);
            }
            s.push_str(ch.of::<&str>(&numbers));
            s.push_str(ch.of::<&str>(&units));
        }
        if at == 2 {
            s.push_str(stray);
        }
        check_parse(ch, &s)?;
        ch.validated();
        Ok(())
    });
    let q: Vec<Vec<u64>> = vec![
        vec![0, 1, 2, 584554048],
        vec![0, 1, 11],
        vec![0, 1, 3, 4],
        vec![0, 1, 6],
        vec![0, 1, 10, 23],
        vec![0, 1, 9, 59],
        vec![0, 1, 59],
        vec![0, 1, 10, 999],
    ];
    run.section("printing", "sums of every combination of boundary quantities of all units, and their neighbours", |ch| {
        let mut v = 0u64;
        for (u, qs) in q.iter().enumerate() {
            v += *ch.of(qs) * UNITS[u].1;
        }
        for d in [-1i64, 0, 1] {
            if let Some(x) = v.checked_add_signed(d) {
                check_print(ch, x)?;
            }
        }
        ch.validated();
        Ok(())
    });
    let max = run.deep(2_000_000u64, 20_000_000);
    run.section("printing small", &format!("every interval up to {max} ms and the last and powers of two up to 2^64"), |ch| {
        let chunk = ch.pick(1000) as u64;
        for v in chunk * max / 1000..(chunk + 1) * max / 1000 {
            check_print(ch, v)?;
            if chunk == 0 && v < 64 {
                for x in [1u64 << v, (1u64 << v) - 1, u64::MAX - v, u64::MAX / (v + 1)] {
                    check_print(ch, x)?;
                }
            }
        }
        ch.validated();
        Ok(())
    });
    run.section("json", "JSON values that are neither a number of milliseconds nor interval text", |ch| {
        let bad = *ch.of(&["-1", "1.5", "-0.5", "1e30", "null", "true", "[]", "[1]", "{}", "18446744073709551616", "\"\"", "\"1\"", "\"-1d\""]);
        let got: Result<Interval, _> = serde_json::from_str(bad);
        note!(ch, "{bad} -> {got:?}");
        ensure!(got.is_err(), "JSON {bad} reads as {got:?}");
        ch.trans(1);
        ch.validated();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C26

fn civil(day: i64) -> (i64, i64, i64) {
    // Days since 1970-01-01, proleptic Gregorian, counted from March.
    let z = day + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y2 = y - 1;
    let mut n = y2 * 365 + y2.div_euclid(4) - y2.div_euclid(100) + y2.div_euclid(400) - 719_162;
    for k in 1..m {
        n += month_len(y, k);
    }
    n + d - 1
}

const DAY: u64 = 86_400_000;
const WEEK: u64 = 7 * DAY;
const MONTH: u64 = 2_629_746_000;

/// (boundary at or before, boundary at or after); the first one may lie before the epoch.
fn bounds(t: u64, interval: u64) -> (i64, i64) {
    let t = t as i64;
    if interval == MONTH {
        let (y, m, _) = civil(t.div_euclid(DAY as i64));
        let lo = days(y, m, 1) * DAY as i64;
        let hi = if m == 12 { days(y + 1, 1, 1) } else { days(y, m + 1, 1) } * DAY as i64;
        return (lo, if lo == t { t } else { hi });
    }
    // 1970-01-05 was a Monday.
    let (i, off) = if interval == WEEK { (WEEK as i64, 4 * DAY as i64) } else { (interval as i64, 0) };
    let lo = (t - off).div_euclid(i) * i + off;
    (lo, if lo == t { t } else { lo + i })
}

fn check_rounding(ch: &mut Ch, t: u64, i: u64) -> Res {
    let (lo, hi) = bounds(t, i);
    if lo >= 0 {
        let got = guarded(|| Timestamp(t).floor(Interval(i))).map_err(|e| Stop::Fail(format!("floor of {t} to {i} panicked: {e}")))?;
        ensure!(got.0 == lo as u64, "{t} rounds down to {} instead of {lo} ({} at {})", got.0, Interval(i), Timestamp(t));
    } else {
        ch.hit("boundary before the epoch");
    }
    let got = guarded(|| Timestamp(t).ceil(Interval(i))).map_err(|e| Stop::Fail(format!("ceil of {t} to {i} panicked: {e}")))?;
    ensure!(got.0 == hi as u64, "{t} rounds up to {} instead of {hi} ({} at {})", got.0, Interval(i), Timestamp(t));
    ch.trans(2);
    Ok(())
}

enum Text {
    At(i64),
    Bad,
    /// Left open by the formats.
    Open,
}

fn digits(s: &[u8], n: usize) -> Option<i64> {
    (s.len() >= n && s[..n].iter().all(|c| c.is_ascii_digit()))
        .then(|| s[..n].iter().fold(0, |a, c| a * 10 + (c - b'0') as i64))
}

/// Strict reading of `YYYY-MM-DD` and RFC 3339.
fn read(s: &str) -> Text {
    let b = s.as_bytes();
    if !s.is_ascii() {
        return Text::Bad;
    }
    if b.first() == Some(&b'+') || b.first() == Some(&b'-') {
        return Text::Open;
    }
    let date = (|| {
        let (y, m, d) = (digits(b, 4)?, digits(b.get(5..)?, 2)?, digits(b.get(8..)?, 2)?);
        (b[4] == b'-' && b[7] == b'-' && (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m)).then(|| days(y, m, d))
    })();
    let Some(day) = date else { return Text::Bad };
    if b.len() == 10 {
        return Text::At(day * DAY as i64);
    }
    if b[10] == b't' || b[10] == b' ' || b[10] == b'_' {
        return Text::Open;
    }
    if b[10] != b'T' {
        return Text::Bad;
    }
    let time = (|| {
        let (h, m, sec) = (digits(b.get(11..)?, 2)?, digits(b.get(14..)?, 2)?, digits(b.get(17..)?, 2)?);
        (b[13] == b':' && b[16] == b':' && h < 24 && m < 60 && sec <= 60).then_some((h, m, sec))
    })();
    let Some((h, m, sec)) = time else { return Text::Bad };
    if sec == 60 {
        return Text::Open;
    }
    let mut i = 19;
    let mut nanos: i64 = 0;
    if b.get(i) == Some(&b'.') {
        let start = i + 1;
        i = start;
        let mut scale = 100_000_000;
        while i < b.len() && b[i].is_ascii_digit() {
            nanos += (b[i] - b'0') as i64 * scale;
            scale /= 10;
            i += 1;
        }
        if i == start {
            return Text::Bad;
        }
        if i - start > 9 {
            return Text::Open;
        }
    }
    let rest = &b[i..];
    let offset = match rest.first() {
        Some(b'Z') if rest.len() == 1 => 0,
        Some(b'z') => return Text::Open,
        Some(&c) if (c == b'+' || c == b'-') && rest.len() == 6 && rest[3] == b':' => {
            let (Some(oh), Some(om)) = (digits(&rest[1..], 2), digits(&rest[4..], 2)) else { return Text::Bad };
            if oh > 23 || om > 59 {
                return Text::Bad;
            }
            (if c == b'-' { -1 } else { 1 }) * (oh * 60 + om) * 60_000
        }
        _ => return Text::Bad,
    };
    Text::At(day * DAY as i64 + ((h * 60 + m) * 60 + sec) * 1000 + nanos.div_euclid(1_000_000) - offset)
}

fn check_text(ch: &mut Ch, s: &str) -> Res {
    let got = guarded(|| Timestamp::from_str(s)).map_err(|e| Stop::Fail(format!("parsing {s:?} panicked: {e}")))?;
    let json: Result<Timestamp, _> = serde_json::from_str(&serde_json::to_string(s).unwrap());
    ensure!(json.as_ref().ok() == got.as_ref().ok(), "JSON text {s:?} reads as {json:?}, parsing gives {got:?}");
    note!(ch, "{s:?} -> {got:?}");
    match read(s) {
        Text::At(ms) if ms >= 0 => {
            ensure!(got == Ok(Timestamp(ms as u64)), "{s:?} parses to {got:?} instead of {ms}");
            ch.hit("accepted");
            ch.state(ms as u64);
        }
        Text::At(_) => {
            ensure!(got.is_err(), "{s:?} is before the epoch and parses to {got:?}");
            ch.hit("before the epoch");
        }
        Text::Bad => {
            ensure!(got.is_err(), "{s:?} is malformed and parses to {got:?}");
            ch.hit("refused");
        }
        Text::Open => ch.hit("left open"),
    }
    ch.trans(2);
    Ok(())
}

fn c26(run: &mut Run) {
    run.assume("years 1970 to 9999 (what RFC 3339 can express); a Monday before the epoch is not representable");
    run.assume("lower case separators, leap seconds, signs and more than nine decimals are left open by the formats and only must not panic");
    let intervals: Vec<u64> = vec![1, 1000, 60_000, 300_000, 3_600_000, 7_200_000, 6 * 3_600_000, 5 * 3_600_000, DAY, 3 * DAY, 6 * DAY, WEEK, MONTH];
    let last = days(9999, 12, 1);
    let per = (last as usize).div_ceil(2000);
    run.section("rounding", &format!("{} intervals x every day of 1970 to {} x 8 times of the day", intervals.len(), civil(last).0), |ch| {
        let chunk = ch.pick(2000);
        for day in chunk * per..((chunk + 1) * per).min(last as usize) {
            let start = day as u64 * DAY;
            let (y, m, d) = civil(day as i64);
            assert_eq!(days(y, m, d), day as i64);
            for o in [0, 1, 999, 1000, 3_599_999, 12 * 3_600_000, 13 * 3_600_000 + 61_001, DAY - 1] {
                let t = start + o;
                for &i in &intervals {
                    check_rounding(ch, t, i)?;
                }
                ch.state(t);
                // Text.
                let text = Timestamp(t).to_string();
                match read(&text) {
                    Text::At(x) if x == t as i64 => {}
                    _ => fail!("{t} prints as {text:?}"),
                }
                ensure!(text.starts_with(&format!("{y:04}-{m:02}-{d:02}T{:02}:", o / 3_600_000)), "{t} prints as {text:?}, which is not its UTC date");
                let back = Timestamp::from_str(&text);
                ensure!(back == Ok(Timestamp(t)), "{t} prints as {text:?}, which parses to {back:?}");
                let back: Timestamp = serde_json::from_str(&t.to_string()).map_err(|e| Stop::Fail(format!("JSON number {t}: {e}")))?;
                ensure!(back.0 == t, "JSON number {t} reads as {back:?}");
            }
            let date = format!("{y:04}-{m:02}-{d:02}");
            ensure!(Timestamp::from_str(&date) == Ok(Timestamp(start)), "{date} parses to {:?}", Timestamp::from_str(&date));
            note!(ch, "{date} {start}");
        }
        ch.validated();
        Ok(())
    });
    run.section("rounding small", "13 intervals x every timestamp within 4 s of the epoch, the first Monday and month boundaries", |ch| {
        let at = *ch.of(&[0u64, 4 * DAY, 31 * DAY, 365 * DAY, 789 * DAY, 790 * DAY]);
        let chunk = ch.pick(50) as u64;
        for k in chunk * 160..(chunk + 1) * 160 {
            let Some(t) = (at + k).checked_sub(4000) else { continue };
            for &i in &intervals {
                check_rounding(ch, t, i)?;
            }
            ch.state(t);
        }
        ch.validated();
        Ok(())
    });
    // Every combination of component texts.
    let years = ["1969", "1970", "2000", "2023", "2024", "2100", "9999", "0000", "202"];
    let months = ["00", "01", "02", "04", "12", "13", "1"];
    let mdays = ["00", "01", "28", "29", "30", "31", "32", "5"];
    let seps = ["T", "", " ", "t", "-"];
    let times = ["00:00:00", "23:59:59", "12:30:45", "24:00:00", "12:60:00", "12:30:60", "12:30:61", "1:30:00", "12:30", ""];
    let fracs = ["", ".0", ".001", ".999", ".9999999", ".0009999", ".123456789", ".", ".x"];
    let offs = ["Z", "+00:00", "-00:00", "+01:00", "-01:30", "+23:59", "-23:59", "+24:00", "+1:00", "+0100", "", "z", "ZZ"];
    run.section("components", "every combination of valid and invalid years, months, days, separators, times, fractions and offsets", |ch| {
        let y = *ch.of(&years);
        let m = *ch.of(&months);
        let d = *ch.of(&mdays);
        check_text(ch, &format!("{y}-{m}-{d}"))?;
        let sep = *ch.of(&seps);
        for t in times {
            for f in fracs {
                for o in offs {
                    check_text(ch, &format!("{y}-{m}-{d}{sep}{t}{f}{o}"))?;
                }
            }
        }
        ch.validated();
        Ok(())
    });
    let bases = ["2019-02-28", "2000-02-29T23:59:59Z", "1970-01-01T00:00:00.001+00:00", "1970-01-01T01:30:00+01:30"];
    let chars: Vec<char> = "0159-+:.TZtz /x\u{663}".chars().collect();
    let edits = run.deep(1, 2);
    run.section("edits", &format!("every text within {} edits of 4 valid ones", edits + 1), |ch| {
        let mut s: Vec<char> = ch.of(&bases).chars().collect();
        let n = 1 + ch.pick(edits + 1);
        for _ in 0..n.min(edits + 1) {
            match ch.pick(3) {
                0 => {
                    let i = ch.pick(s.len());
                    s[i] = *ch.of(&chars);
                }
                1 => {
                    let i = ch.pick(s.len());
                    s.remove(i);
                }
                _ => {
                    let i = ch.pick(s.len() + 1);
                    s.insert(i, *ch.of(&chars));
                }
            }
        }
        let s: String = s.into_iter().collect();
        check_text(ch, &s)?;
        ch.validated();
        Ok(())
    });
    let short: Vec<char> = "01-:TZ+".chars().collect();
    let depth = run.deep(6, 7);
    run.section("strings", &format!("every text of up to {depth} of {} characters", short.len()), |ch| {
        let n = ch.pick(depth + 1);
        let s: String = (0..n).map(|_| *ch.of(&short)).collect();
        check_text(ch, &s)?;
        ch.validated();
        Ok(())
    });
    run.section("json", "JSON values that are neither a number of milliseconds nor timestamp text", |ch| {
        let bad = *ch.of(&["-1", "1.5", "-0.5", "1e30", "null", "true", "[]", "[1]", "{}", "18446744073709551616", "\"\"", "\"1\""]);
        let got: Result<Timestamp, _> = serde_json::from_str(bad);
        note!(ch, "{bad} -> {got:?}");
        ensure!(got.is_err(), "JSON {bad} reads as {got:?}");
        ch.trans(1);
        ch.validated();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C27

fn covered(spans: &[(u64, u64)], t: u64) -> usize {
    spans.iter().filter(|s| s.0 <= t && t < s.1).count()
}

fn c27(run: &mut Run) {
    run.assume("spans are non-empty and ordered by start; a range does not end before it starts");
    let n = run.deep(10u64, 13);
    let base = [0u64, 1 << 40];
    // Ordered, non-overlapping spans: at each instant either covered or not, with or without a cut.
    let draw = |ch: &mut Ch, n: u64, b: u64| {
        let mut spans: Vec<(u64, u64)> = vec![];
        for t in 0..n {
            let (s, e) = (b + t, b + t + 1);
            match ch.pick(3) {
                0 => {}
                1 => spans.push((s, e)),
                _ => match spans.last_mut() {
                    Some(l) if l.1 == s => l.1 = e,
                    _ => return None,
                },
            }
        }
        Some(spans)
    };
    run.section("merge", &format!("every list of ordered spans within {n} instants, at 2 offsets"), |ch| {
        let b = *ch.of(&base);
        let Some(spans) = draw(ch, n, b) else { return Err(Stop::Prune) };
        let got = merge_adjacent_spans(&spans);
        note!(ch, "{spans:?} -> {got:?}");
        let mut want: Vec<(u64, u64)> = vec![];
        for t in b..b + n {
            if covered(&spans, t) > 0 {
                match want.last_mut() {
                    Some(l) if l.1 == t => l.1 = t + 1,
                    _ => want.push((t, t + 1)),
                }
            }
        }
        ensure!(got == want, "merging {spans:?} gives {got:?} instead of {want:?}");
        ch.state(want.iter().fold(H::new(), |h, s| h.u(s.0).u(s.1)).get());
        ch.trans(spans.len());
        ch.validated();
        Ok(())
    });
    run.section("missing", &format!("every list of ordered spans within {n} instants x every range within them"), |ch| {
        let b = *ch.of(&base);
        let start = b + ch.pick(n as usize + 1) as u64;
        let end = start + ch.pick((b + n + 1 - start) as usize) as u64;
        let Some(spans) = draw(ch, n, b) else { return Err(Stop::Prune) };
        let got = generate_missing_spans(start, end, &spans);
        note!(ch, "{start}..{end} without {spans:?} -> {got:?}");
        let mut want: Vec<(u64, u64)> = vec![];
        for t in start..end {
            if covered(&spans, t) == 0 {
                match want.last_mut() {
                    // Everything between two existing spans is one missing one.
                    Some(l) if l.1 == t => l.1 = t + 1,
                    _ => want.push((t, t + 1)),
                }
            }
        }
        ensure!(got == want, "{start}..{end} without {spans:?} misses {want:?}, not {got:?}");
        ch.state(want.iter().fold(H::new().u(start).u(end), |h, s| h.u(s.0).u(s.1)).get());
        ch.trans(spans.len());
        ch.validated();
        Ok(())
    });
    let most = run.deep(130usize, 1100);
    run.section("many", &format!("1 to {most} spans that repeat every loop of up to 3 of 3 lengths and 3 gaps, from 3 times on: merged, and what they leave of 9 ranges"), |ch| {
        let n = *ch.of(&[1usize, 2, 9, 16, 17, 63, 64, 65, most]);
        let base = *ch.of(&[0u64, 1_600_000_000_000, (1 << 53) - (1 << 30)]);
        let shape: Vec<(u64, u64)> = (0..1 + ch.pick(3)).map(|_| (*ch.of(&[1, 60_000, 86_400_000 / 100]), *ch.of(&[0, 1, 3_600_000]))).collect();
        let mut t = base;
        let mut spans = vec![];
        for k in 0..n {
            let (length, gap) = shape[k % shape.len()];
            spans.push((t, t + length));
            t += length + gap;
        }
        note!(ch, "{n} spans of {shape:?} from {base}");
        // Adjacent spans as one.
        let mut runs: Vec<(u64, u64)> = spans.clone();
        let mut i = 1;
        while i < runs.len() {
            if runs[i - 1].1 == runs[i].0 {
                runs[i - 1].1 = runs.remove(i).1;
            } else {
                i += 1;
            }
        }
        let got = merge_adjacent_spans(&spans);
        ensure!(got == runs, "merging {spans:?} gives {got:?} instead of {runs:?}");
        let (first, last) = (base, spans[n - 1].1);
        let mid = (first + last) / 2;
        for start in [first.saturating_sub(5), first, mid] {
            for end in [start, last - 1, last, last + 5] {
                if end < start {
                    continue;
                }
                // The gaps between the runs, cut to the range.
                let edges = std::iter::once((0, 0)).chain(runs.iter().copied()).chain(std::iter::once((u64::MAX, u64::MAX))).collect::<Vec<_>>();
                let want: Vec<(u64, u64)> = edges.windows(2).map(|w| (w[0].1.max(start), w[1].0.min(end))).filter(|g| g.0 < g.1).collect();
                let got = generate_missing_spans(start, end, &spans);
                ensure!(got == want, "{start}..{end} without {spans:?} misses {want:?}, not {got:?}");
                ch.trans(n);
            }
        }
        ch.state(runs.iter().fold(H::new(), |h, s| h.u(s.0).u(s.1)).get());
        ch.validated();
        Ok(())
    });
    run.section("pages of usual size", "every usual interval x limits up to 1500 x spans of up to 65537 pages that end at, before or after a whole number of pages or candles", |ch| {
        const MINUTE: u64 = 60_000;
        let interval = *ch.of(&[MINUTE, 5 * MINUTE, 15 * MINUTE, 60 * MINUTE, 240 * MINUTE, 1440 * MINUTE, 7 * 1440 * MINUTE]);
        let limit = *ch.of(&[1u64, 2, 100, 499, 500, 501, 1000, 1500]);
        let start = *ch.of(&[0u64, 1_577_836_800_000, 1_600_000_000_001, (1 << 53) - 400 * 1440 * MINUTE]);
        let full = limit * interval;
        let whole = *ch.of(&[0u64, 1, 2, 3, 10, 254, 255, 256, 1000, 65_537]);
        for end in [0, 1, interval - 1, interval, interval + 1, full - 1].map(|x| start + whole * full + x) {
            if end >= 1 << 53 {
                continue;
            }
            let mut at = start;
            for (s, e) in page(start, end, interval, limit) {
                let want = (at, (at + full).min(end));
                ensure!((s, e) == want && e > s, "{start}..{end} in pages of {limit} x {interval} has {s}..{e} instead of {want:?}");
                at = e;
                ch.trans(1);
            }
            ensure!(at == end, "{start}..{end} in pages of {limit} x {interval} ends at {at}");
            ch.state(H::new().u(start).u(end).u(interval).u(limit).get());
        }
        note!(ch, "start {start} interval {interval} limit {limit} whole {whole}");
        ch.validated();
        Ok(())
    });
    let m = run.deep(200u64, 1000);
    run.section("pages", &format!("every length up to {m} x intervals 1..=12 and large x limits 1..=12 x 4 starts"), |ch| {
        let start = *ch.of(&[0u64, 1, 7, 1_600_000_000_000]);
        let unit = *ch.of(&[1u64, 60_000]);
        let interval = (1 + ch.pick(12) as u64) * unit;
        let limit = 1 + ch.pick(12) as u64;
        for len in 0..m {
            let extra = [0, 1, unit - 1];
            for x in &extra[..if unit == 1 { 1 } else { 3 }] {
                let end = start + len * unit + x;
                let got: Vec<(u64, u64)> = page(start, end, interval, limit).collect();
                let what = || format!("{start}..{end} in pages of {limit} x {interval}: {got:?}");
                let mut at = start;
                for (i, &(s, e)) in got.iter().enumerate() {
                    ensure!(s == at && e > s, "{}", what());
                    ensure!(e - s <= limit * interval, "{}", what());
                    ensure!(e == end || e - s == limit * interval, "page {i} is not full: {}", what());
                    at = e;
                }
                ensure!(at == end, "pages end at {at}: {}", what());
                ch.state(H::new().u(start).u(end).u(interval).u(limit).get());
                ch.trans(got.len());
            }
        }
        note!(ch, "start {start} interval {interval} limit {limit}");
        ch.validated();
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C28

/// floor(value * 10^p), whether that is exact, and the distances of the fraction to 0, 1/2 and 1.
fn scaled(value: f64, p: u32) -> (i128, f64) {
    let bits = value.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32;
    let m = if exp == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | 1 << 52 };
    let e = exp - 1075;
    let n = m as i128 * 10i128.pow(p);
    if e >= 0 {
        assert!(e < 30);
        (n << e, 0.0)
    } else if e > -120 {
        let d = 1i128 << -e;
        (n.div_euclid(d), n.rem_euclid(d) as f64 / d as f64)
    } else {
        (0, 0.0)
    }
}

/// Mean, deviation, pairs, minimum and maximum of a sequence.
fn check_sequence(x: &[f64]) -> Res {
    let n = x.len();
    let pairs: Vec<(f64, f64)> = x.iter().copied().pairwise().collect();
    let want: Vec<(f64, f64)> = x.windows(2).map(|w| (w[0], w[1])).collect();
    ensure!(pairs == want, "pairs of {x:?}: {pairs:?}");
    if n == 0 {
        ensure!(mean(x).is_nan() && std_deviation(x).is_nan(), "mean of nothing is {} and deviation {}", mean(x), std_deviation(x));
        return Ok(());
    }
    let m = x.iter().map(|v| v / n as f64).sum::<f64>();
    ensure!(close(mean(x), m, 1e-12, 1e-9), "mean of {x:?}: {} instead of {m}", mean(x));
    // Population variance as the mean squared difference of all pairs, halved.
    let mut s = 0.0;
    for a in x {
        for b in x {
            s += (a - b) * (a - b) / (2.0 * (n * n) as f64);
        }
    }
    ensure!(close(std_deviation(x), s.sqrt(), 1e-11, 1e-9), "deviation of {x:?}: {} instead of {}", std_deviation(x), s.sqrt());
    let mut sorted = x.to_vec();
    sorted.sort_by(f64::total_cmp);
    let (lo, hi) = x.iter().minmax();
    ensure!((lo, hi) == (sorted[0], sorted[n - 1]), "minimum and maximum of {x:?}: {lo}, {hi}");
    Ok(())
}

fn c28(run: &mut Run) {
    run.assume("integers below 2^53; decimal rounding of non-negative values, judged up to one part in 2^50 of the scaled value around a tie unless exact in binary");
    run.assume("results before zero (an offset multiple below zero) are not representable; the checksum is of ASCII text");
    let n = run.deep(2600u64, 30_000);
    run.section("multiples", &format!("every value below {n} x multiples 1..=40 x offsets 0..=24, around 4 bases"), |ch| {
        let base = *ch.of(&[0u64, 1_600_000_000_000, (1 << 52), (1 << 53) - 1000]);
        let multiple = *ch.of(&(1..=40).chain([60_000, 604_800_000, 1 << 31]).collect::<Vec<u64>>());
        for v in base..base + n {
            let lo = v - v % multiple;
            let hi = if lo == v { v } else { lo + multiple };
            ensure!(floor_multiple(v, multiple) == lo, "floor_multiple({v}, {multiple}) = {}", floor_multiple(v, multiple));
            if hi < 1 << 53 {
                ensure!(ceil_multiple(v, multiple) == hi, "ceil_multiple({v}, {multiple}) = {}", ceil_multiple(v, multiple));
                let i = Interval(v).ceil(Interval(multiple)).0;
                ensure!(i == hi, "interval {v} rounds up to {i} instead of {hi} (multiple {multiple})");
            }
            for offset in (0..=24).chain([multiple / 2, multiple * 3]) {
                let (v, o, m) = (v as i128, offset as i128, multiple as i128);
                let lo = (v - o).div_euclid(m) * m + o;
                let hi = if lo == v { v } else { lo + m };
                if lo >= 0 {
                    let got = floor_multiple_offset(v as u64, multiple, offset);
                    ensure!(got as i128 == lo, "floor_multiple_offset({v}, {multiple}, {offset}) = {got} instead of {lo}");
                }
                if hi < 1 << 53 {
                    let got = ceil_multiple_offset(v as u64, multiple, offset);
                    ensure!(got as i128 == hi, "ceil_multiple_offset({v}, {multiple}, {offset}) = {got} instead of {hi}");
                }
                ch.trans(2);
            }
            ch.state(H::new().u(v).u(multiple).get());
        }
        note!(ch, "multiple {multiple} from {base}");
        ch.validated();
        Ok(())
    });
    let dn = run.deep(40_000usize, 1_000_000);
    run.section("decimals", &format!("precisions 0..=18 x {dn} values over 18 scales"), |ch| {
        let p = ch.pick(19) as u32;
        let scale = *ch.of(&[1.0, 0.5, 0.25, 0.125, 1.0 / 1024.0, 0.1, 0.01, 0.001, 1e-5, 1e-8, 5e-9, 1e-12, 1.0 / 3.0, 7.7, 1234.567, 1e6 + 0.125, 1.1e-15, 1e-18]);
        for k in 0..dn {
            let v = k as f64 * scale;
            let (floor, frac) = scaled(v, p);
            let factor = 10f64.powi(p as i32);
            let exact = few(v) && p <= 6;
            let eps = if exact { 0.0 } else { ((floor as f64) + 1.0) / (1u64 << 50) as f64 };
            let as_value = |k: i128| k as f64 / factor;
            let d = round_down(v, p);
            if floor >= 1 << 52 {
                // Finer than what can be told apart.
                let h = round_half_up(v, p);
                ensure!(close(d, v, 1e-15, 0.0) && close(h, v, 1e-15, 0.0), "{v} rounds to {d} and {h} at precision {p}");
                continue;
            }
            ensure!(
                d == as_value(floor) || (frac >= 1.0 - eps && d == as_value(floor + 1)) || (frac <= eps && frac > 0.0 && d == as_value(floor)),
                "round_down({v}, {p}) = {d} instead of {}", as_value(floor)
            );
            let up = if frac >= 0.5 { floor + 1 } else { floor };
            let h = round_half_up(v, p);
            ensure!(
                h == as_value(up) || ((frac - 0.5).abs() <= eps && (h == as_value(floor) || h == as_value(floor + 1))),
                "round_half_up({v}, {p}) = {h} instead of {}", as_value(up)
            );
            if frac == 0.5 {
                ch.hit("ties");
            }
            ch.state(H::new().f(d).f(h).u(p as u64).get());
            ch.trans(2);
        }
        note!(ch, "precision {p} scale {scale}");
        ch.validated();
        Ok(())
    });
    let values = [0.0, 1.0, -1.0, 0.5, 3.0, -2.5, 1e6];
    let len = run.deep(6, 8);
    run.section("sequences", &format!("every sequence of up to {len} of {} values: mean, deviation, pairs, minimum and maximum", values.len()), |ch| {
        let n = ch.pick(len + 1);
        let x: Vec<f64> = (0..n).map(|_| *ch.of(&values)).collect();
        note!(ch, "{x:?}: mean {} deviation {} minmax {:?}", mean(&x), std_deviation(&x), x.iter().minmax());
        check_sequence(&x)?;
        ch.state(x.iter().fold(H::new(), |h, v| h.f(*v)).get());
        ch.trans(n);
        ch.validated();
        Ok(())
    });
    let most = run.deep(400usize, 3000);
    run.section("long sequences", &format!("sequences of 1 to {most} values that repeat every loop of up to 4 of {} values, after one of 4 others", values.len()), |ch| {
        let n = *ch.of(&[1usize, 7, 8, 9, 31, 32, 33, 100, 255, 256, 257, most]);
        let l: Vec<f64> = (0..1 + ch.pick(4)).map(|_| *ch.of(&values)).collect();
        let mut x: Vec<f64> = (0..n).map(|k| l[k % l.len()]).collect();
        if let Some(v) = *ch.of(&[None, Some(-7.0), Some(2e6), Some(1.25)]) {
            let at = *ch.of(&[0, n / 2, n - 1]);
            x[at] = v;
        }
        check_sequence(&x)?;
        note!(ch, "{n} of {l:?}: mean {} deviation {}", mean(&x), std_deviation(&x));
        ch.state(x.iter().fold(H::new(), |h, v| h.f(*v)).get());
        ch.trans(n);
        ch.validated();
        Ok(())
    });
    run.section("annualized", "every duration of 0 to 60 fractions and multiples of a year x 41 returns", |ch| {
        const YEAR: u64 = 31_556_952_000;
        let durations: Vec<u64> = [0, 1, 1000, 3_600_000, 86_400_000].into_iter().chain((1..=30).map(|k| YEAR / k)).chain((2..=12).map(|k| YEAR * k / 2)).collect();
        let d = *ch.of(&durations);
        let roi = (ch.pick(41) as f64 - 12.0) / 10.0;
        let got = annualized(d, roi);
        note!(ch, "annualized({d}, {roi}) = {got}");
        let years = d as f64 / YEAR as f64;
        if d == 0 {
            ensure!(got == 0.0, "annualized({d}, {roi}) = {got}");
        } else if roi >= -1.0 {
            // In logarithms.
            let l = (1.0 + roi).ln() / years;
            let want = l.exp() - 1.0;
            ensure!(
                !got.is_nan() && (close((1.0 + got).ln(), l, 1e-9, 1e-9) || want == got || (want.is_infinite() && got > 1e290)),
                "annualized({d}, {roi}) = {got} instead of {want}"
            );
        } else {
            let power = 1.0 / years;
            if (power - power.round()).abs() > 1e-9 && power < 1e6 {
                ensure!(got == 0.0, "annualized({d}, {roi}) = {got} instead of 0");
                ch.hit("impossible returns");
            }
        }
        ch.state(H::new().u(d).f(roi).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });
    run.section("lerp", "ends and interior of 100 ranges", |ch| {
        let ends = [0.0, 1.0, -1.0, 0.1, 0.3, 2.5, 100.0, 1e-9, -7.75, 1e9];
        let (a, b) = (*ch.of(&ends), *ch.of(&ends));
        ensure!(lerp(a, b, 1.0) == a && lerp(a, b, 0.0) == b, "lerp({a}, {b}) ends at {} and {}", lerp(a, b, 1.0), lerp(a, b, 0.0));
        for k in 0..=64 {
            let t = k as f64 / 64.0;
            let want = b + (a - b) * t;
            ensure!(close(lerp(a, b, t), want, 1e-12, 1e-12 * (a.abs() + b.abs())), "lerp({a}, {b}, {t}) = {} instead of {want}", lerp(a, b, t));
            ch.trans(1);
        }
        note!(ch, "{a} {b}");
        ch.state(H::new().f(a).f(b).get());
        ch.validated();
        Ok(())
    });
    let alphabet: Vec<char> = "a\u{1}z0\u{7f} Z~".chars().collect();
    let depth = run.deep(6, 7);
    let adler = |s: &str| {
        let (mut a, mut b) = (1u64, 0u64);
        for c in s.bytes() {
            a += c as u64;
            b += a;
        }
        ((b % 65521) << 16 | a % 65521) as u32
    };
    run.section("checksum", &format!("every text of up to {depth} of {} characters, and repetitions of up to 6000", alphabet.len()), |ch| {
        let n = ch.pick(depth + 1);
        let s: String = (0..n).map(|_| *ch.of(&alphabet)).collect();
        ensure!(adler32(&s) == adler(&s), "checksum of {s:?}: {}", adler32(&s));
        if n == 2 {
            for k in [100, 2776, 2777, 3000] {
                let s = s.repeat(k);
                ensure!(adler32(&s) == adler(&s), "checksum of {} x {k}: {}", &s[..2], adler32(&s));
            }
        }
        note!(ch, "{s:?}: {}", adler32(&s));
        ch.state(adler32(&s) as u64);
        ch.trans(1);
        ch.validated();
        Ok(())
    });
    let letters: Vec<char> = "abtc1".chars().collect();
    let depth = run.deep(3, 4);
    run.section("symbols", &format!("every pair of assets of up to {depth} characters"), |ch| {
        let n = ch.pick(depth + 1);
        let base: String = (0..n).map(|_| *ch.of(&letters)).collect();
        let n = ch.pick(depth + 1);
        let quote: String = (0..n).map(|_| *ch.of(&letters)).collect();
        let s = format!("{base}-{quote}");
        ensure!(s.assets() == (base.as_str(), quote.as_str()), "{s} splits into {:?}", s.assets());
        ensure!(s.base_asset() == base && s.quote_asset() == quote, "{s} splits into {} and {}", s.base_asset(), s.quote_asset());
        let all: Vec<&str> = iter_assets([s.as_str(), "x-y", s.as_str()]).collect();
        ensure!(all == [&base, &quote, "x", "y", &base, &quote], "assets of {s}, x-y and {s}: {all:?}");
        note!(ch, "{s}");
        ch.state(H::new().s(&s).get());
        ch.trans(3);
        ch.validated();
        Ok(())
    });
}

fn main() {
    main_with(&[("C08", c08), ("C25", c25), ("C26", c26), ("C27", c27), ("C28", c28)])
}
