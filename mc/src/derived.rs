//! Chromosomes of other shapes than the library's own, by its derive macros.
use crate::rng::*;
use crate::util::*;
use crate::*;
use juno::genetics::Chromosome;
use juno_derive::{Chromosome, ChromosomeEnum};
use rand::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

// Free values are drawn from a place of their own each; those of individuals lie elsewhere.
fn x(rng: &mut StdRng) -> u32 {
    rng.gen_range(100..102)
}
fn y(rng: &mut StdRng) -> u32 {
    rng.gen_range(200..202)
}
fn z(rng: &mut StdRng) -> Option<u32> {
    Some(rng.gen_range(300..302))
}

#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
pub struct OneParams {
    x: u32,
}
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
pub struct ThreeParams {
    y: u32,
    x: u32,
    z: Option<u32>,
}
/// No genes of its own, parts of differing lengths.
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
pub struct PairParams {
    #[chromosome]
    three: ThreeParams,
    #[chromosome]
    one: OneParams,
}
/// Variants with 1, 3 and 4 genes.
#[derive(ChromosomeEnum, Clone, Copy, Debug, Deserialize, Serialize)]
#[serde(tag = "type")]
pub enum ChoiceParams {
    Pair(PairParams),
    One(OneParams),
    Three(ThreeParams),
}
#[derive(ChromosomeEnum, Clone, Copy, Debug, Deserialize, Serialize)]
#[serde(tag = "type")]
pub enum SoleParams {
    One(OneParams),
}
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
pub struct DeepParams {
    #[chromosome]
    choice: ChoiceParams,
    #[chromosome]
    sole: SoleParams,
    #[serde(default)]
    x: u32,
}
/// A choice of which one variant holds a choice.
#[derive(ChromosomeEnum, Clone, Copy, Debug, Deserialize, Serialize)]
#[serde(tag = "type")]
pub enum OuterParams {
    One(OneParams),
    Deep(DeepParams),
}
/// Four parts before two genes.
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
pub struct WideParams {
    #[chromosome]
    a: OneParams,
    #[chromosome]
    b: OuterParams,
    #[chromosome]
    c: PairParams,
    #[chromosome]
    d: ChoiceParams,
    y: u32,
    z: Option<u32>,
}
/// Of any parts.
#[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
pub struct BothParams<T: Chromosome, U: Chromosome> {
    #[chromosome]
    first: T,
    #[chromosome]
    second: U,
    x: u32,
}

// ---- individuals as JSON ----

type Maker = fn(&mut Ch, u32) -> Value;
fn one(_: &mut Ch, c: u32) -> Value {
    json!({ "x": c })
}
fn three(_: &mut Ch, c: u32) -> Value {
    json!({ "y": 10 + c, "x": 20 + c, "z": if c == 0 { Value::Null } else { json!(30 + c) } })
}
fn pair(ch: &mut Ch, c: u32) -> Value {
    json!({ "three": three(ch, c), "one": one(ch, c + 3) })
}
fn tagged(t: &str, mut v: Value) -> Value {
    v["type"] = json!(t);
    v
}
fn choice(ch: &mut Ch, c: u32) -> Value {
    match ch.pick(3) {
        0 => tagged("Pair", pair(ch, c)),
        1 => tagged("One", one(ch, c)),
        _ => tagged("Three", three(ch, c)),
    }
}
fn sole(ch: &mut Ch, c: u32) -> Value {
    tagged("One", one(ch, c + 7))
}
fn deep(ch: &mut Ch, c: u32) -> Value {
    json!({ "choice": choice(ch, c), "sole": sole(ch, c), "x": 40 + c })
}
fn outer(ch: &mut Ch, c: u32) -> Value {
    if ch.flag() {
        tagged("One", one(ch, c))
    } else {
        tagged("Deep", deep(ch, c))
    }
}
fn wide(ch: &mut Ch, c: u32) -> Value {
    json!({ "a": one(ch, c), "b": outer(ch, c), "c": pair(ch, c), "d": choice(ch, c), "y": 50 + c, "z": 60 + c })
}
fn both(ch: &mut Ch, c: u32) -> Value {
    json!({ "first": outer(ch, c), "second": three(ch, c), "x": 70 + c })
}

// ---- genes: every leaf, and every part with variants ----

fn genes(v: &Value) -> Vec<String> {
    fn go(v: &Value, at: String, out: &mut Vec<String>) {
        match v.as_object() {
            Some(m) => {
                if m.contains_key("type") {
                    out.push(at.clone());
                }
                for (k, x) in m.iter().filter(|(k, _)| *k != "type") {
                    go(x, format!("{at}/{k}"), out);
                }
            }
            None => out.push(at),
        }
    }
    let mut out = vec![];
    go(v, String::new(), &mut out);
    out
}
/// The gene is in both, the parts around it being of the same variants.
fn shared(a: &Value, b: &Value, g: &str) -> bool {
    let same = |at: &str| a.pointer(at).unwrap().get("type") == b.pointer(at).unwrap().get("type");
    (0..g.len()).filter(|i| g.as_bytes()[*i] == b'/').all(|i| same(&g[..i]))
}
fn put(v: &Value, g: &str, x: &Value) -> Value {
    let mut v = v.clone();
    *v.pointer_mut(g).unwrap() = x.clone();
    v
}
/// The genes of `v` that account for all differences, the smallest one last.
fn touched(v: &Value, w: &Value) -> Vec<String> {
    let mut all: Vec<String> = genes(v).into_iter().filter(|g| w.pointer(g).is_some_and(|x| put(v, g, x) == *w)).collect();
    all.sort_by_key(|g| g.len());
    all
}
/// Gives every row one of its own choices that no other row has, if that can be done.
fn matched(rows: &[Vec<String>]) -> Option<Vec<String>> {
    fn place(r: usize, rows: &[Vec<String>], seen: &mut Vec<String>, taken: &mut Vec<(String, usize)>) -> bool {
        for g in &rows[r] {
            if seen.contains(g) {
                continue;
            }
            seen.push(g.clone());
            match taken.iter().position(|t| t.0 == *g) {
                None => {
                    taken.push((g.clone(), r));
                    return true;
                }
                Some(k) => {
                    let other = taken[k].1;
                    if place(other, rows, seen, taken) {
                        let k = taken.iter().position(|t| t.0 == *g && t.1 == other).unwrap();
                        taken[k].1 = r;
                        return true;
                    }
                }
            }
        }
        false
    }
    let mut taken = vec![];
    for r in 0..rows.len() {
        if !place(r, rows, &mut vec![], &mut taken) {
            return None;
        }
    }
    Some(taken.into_iter().map(|t| t.0).collect())
}
fn read<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("{v} is not accepted: {e}"))
}
fn write<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap()
}

fn cross<T: Chromosome + Serialize + DeserializeOwned>(ch: &mut Ch, make: Maker) -> Res {
    let (a, b) = (make(ch, 1), make(ch, 2));
    let n = T::len();
    note!(ch, "{a} with {b}, {n} genes");
    let mut want: Vec<(Value, Value)> = genes(&a)
        .iter()
        .filter(|g| shared(&a, &b, g))
        .map(|g| (put(&a, g, b.pointer(g).unwrap()), put(&b, g, a.pointer(g).unwrap())))
        .collect();
    for i in 0..n {
        let (mut p, mut q): (T, T) = (read(&a), read(&b));
        guarded(|| p.cross(&mut q, i)).map_err(|e| Stop::Fail(format!("crossing {a} and {b} at {i} of {n}: {e}")))?;
        let (p, q) = (write(&p), write(&q));
        if p == a && q == b {
            continue;
        }
        match want.iter().position(|w| w.0 == p && w.1 == q) {
            Some(k) => {
                want.swap_remove(k);
            }
            None => fail!("crossing {a} and {b} at gene {i} of {n} gives {p} and {q}, which is not a swap of one gene not swapped at another index"),
        }
    }
    if let Some(w) = want.first() {
        fail!("no index swaps {a} and {b} into {} and {}", w.0, w.1);
    }
    ch.state(H::new().s(&a.to_string()).s(&b.to_string()).get());
    ch.trans(n);
    ch.validated();
    Ok(())
}

/// Crossover of individuals of other shapes.
pub fn crossing(ch: &mut Ch) -> Res {
    match ch.pick(9) {
        0 => cross::<OneParams>(ch, one),
        1 => cross::<ThreeParams>(ch, three),
        2 => cross::<PairParams>(ch, pair),
        3 => cross::<ChoiceParams>(ch, choice),
        4 => cross::<SoleParams>(ch, sole),
        5 => cross::<DeepParams>(ch, deep),
        6 => cross::<OuterParams>(ch, outer),
        7 => cross::<WideParams>(ch, wide),
        _ => cross::<BothParams<OuterParams, ThreeParams>>(ch, both),
    }
}

fn drawn(v: &Value, name: &str) -> bool {
    let low = match name {
        "x" => 100,
        "y" => 200,
        _ => 300,
    };
    v.as_u64().is_some_and(|n| n == low || n == low + 1)
}
/// All that is drawn anew lies where it is drawn from, the rest is pinned.
fn check_fresh(what: &str, v: &Value, at: &str, pinned: &dyn Fn(&str) -> Option<Value>) -> Res {
    match v.as_object() {
        Some(m) => {
            if let (Some(want), Some(got)) = (pinned(&format!("{at}/type")), m.get("type")) {
                ensure!(want == *got, "{what}: {at} is {got} though pinned to {want}");
            }
            for (k, x) in m.iter().filter(|(k, _)| *k != "type") {
                check_fresh(what, x, &format!("{at}/{k}"), pinned)?;
            }
            Ok(())
        }
        None => match pinned(at) {
            Some(want) => {
                ensure!(want == *v, "{what}: {at} is {v} though pinned to {want}");
                Ok(())
            }
            None => {
                ensure!(drawn(v, at.rsplit('/').next().unwrap()), "{what}: {at} is {v}, which is not drawn");
                Ok(())
            }
        },
    }
}

/// A context that pins some of an individual's genes, with the variants around them.
fn pick_context(ch: &mut Ch, v: &Value, budget: &mut usize) -> (Value, bool) {
    match v.as_object() {
        Some(m) => {
            let mut out = json!({});
            let mut any = false;
            for (k, x) in m.iter().filter(|(k, _)| *k != "type") {
                let (c, some) = pick_context(ch, x, budget);
                if some {
                    out[k] = c;
                    any = true;
                }
            }
            if let Some(t) = m.get("type") {
                if any || *budget > 0 && ch.flag() {
                    if !any {
                        *budget -= 1;
                    }
                    out["type"] = t.clone();
                    any = true;
                } else {
                    return (json!({"type": "None"}), false);
                }
            }
            (out, any)
        }
        None => {
            // Pinning an option to nothing cannot be told from leaving it free.
            let pin = *budget > 0 && !v.is_null() && ch.flag();
            *budget -= pin as usize;
            (v.clone(), pin)
        }
    }
}
fn lookup(ctx: &Value, at: &str) -> Option<Value> {
    ctx.pointer(at).cloned().filter(|v| !v.is_object() && *v != "None")
}

fn breed<T: Chromosome + Serialize + DeserializeOwned>(ch: &mut Ch, make: Maker, mut budget: usize, devs: u32) -> Res
where
    T::Context: DeserializeOwned + Serialize,
{
    let person = make(ch, 1);
    let (c, _) = pick_context(ch, &person, &mut budget);
    note!(ch, "pinned: {c}");
    let ctx: T::Context = serde_json::from_value(c.clone()).map_err(|e| Stop::Fail(format!("context {c}: {e}")))?;
    let pinned = |at: &str| lookup(&c, at);
    ch.set_devs(devs);
    let p: T = controlled(ch, Menu::SMALL, || T::generate(&mut rand_rng(), &ctx));
    let v = write(&p);
    check_fresh(&format!("generated under {c}"), &v, "", &pinned)?;
    // Someone else of the pinned variants gets mutated at every gene.
    let n = T::len();
    let mut rows: Vec<Vec<String>> = vec![];
    for i in 0..n {
        let mut q: T = read(&person);
        guarded(|| controlled(ch, Menu::SMALL, || q.mutate(&mut rand_rng(), i, &ctx))).map_err(|e| Stop::Fail(format!("mutating {person} at {i} of {n} under {c}: {e}")))?;
        let w = write(&q);
        if w == person {
            continue;
        }
        let all = touched(&person, &w);
        let Some(g) = all.last() else { fail!("mutating {person} at {i} of {n} under {c} gives {w}, which is more than one gene") };
        check_fresh(&format!("{person} mutated at {i} of {n} under {c}"), w.pointer(g).unwrap(), g, &pinned)?;
        rows.push(all);
    }
    // What can change: what is not pinned, and parts with anything like that in them.
    let free: Vec<String> = genes(&person)
        .into_iter()
        .filter(|g| {
            let at = person.pointer(g).unwrap();
            genes(at).iter().any(|x| !at.pointer(x).unwrap().is_object() && pinned(&format!("{g}{x}")).is_none())
                || at.is_object() && pinned(&format!("{g}/type")).is_none()
        })
        .collect();
    let rows: Vec<Vec<String>> = rows.into_iter().map(|r| r.into_iter().filter(|g| free.contains(g)).collect()).collect();
    let Some(reached) = matched(&rows) else { fail!("{person} under {c}: some gene is mutated at more than one index of {n}: {rows:?}") };
    for g in &free {
        ensure!(reached.contains(g), "no index mutates {g} of {person} under {c}");
    }
    ch.state(H::new().s(&person.to_string()).s(&c.to_string()).s(&v.to_string()).get());
    ch.trans(n + 1);
    ch.validated();
    Ok(())
}
fn rand_rng() -> StdRng {
    StdRng::seed_from_u64(0)
}

/// Generation and mutation of individuals of other shapes, with up to `budget` genes pinned.
pub fn breeding(ch: &mut Ch, budget: usize, devs: u32) -> Res {
    match ch.pick(8) {
        0 => breed::<OneParams>(ch, one, budget, devs),
        1 => breed::<ThreeParams>(ch, three, budget, devs),
        2 => breed::<PairParams>(ch, pair, budget, devs),
        3 => breed::<ChoiceParams>(ch, choice, budget, devs),
        4 => breed::<SoleParams>(ch, sole, budget, devs),
        5 => breed::<DeepParams>(ch, deep, budget, devs),
        6 => breed::<OuterParams>(ch, outer, budget, devs),
        _ => breed::<WideParams>(ch, wide, budget, devs),
    }
}
