//! The service (juno_axum), as a process of its own, between a controlled data source and a
//! controlled client: C29 to C31, C34, C35.
#[path = "../web_ways.rs"]
mod web_ways;
use juno::genetics::{crossover, mutation, reinsertion, selection, GeneticAlgorithm};
use juno::statistics::Statistics;
use juno::trading::*;
use juno::{BorrowInfo, Candle, ExchangeInfo, Fees, Filters, Interval, SymbolExt, Timestamp};
use mc::explore::*;
use mc::tkit::{DAY, HOUR};
use mc::util::*;
use mc::web::*;
use mc::{ensure, fail, genes, note};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const SYMBOLS: [&str; 16] = [
    "eth-btc", "ltc-btc", "xmr-eth", "btc-usdt", "ada-btc", "bnb-btc", "dot-eth", "eos-btc", "neo-eth", "trx-btc", "xlm-btc", "zec-btc", "dash-btc", "etc-eth", "iota-btc", "vet-btc",
];
const ASSETS: [&str; 17] = ["eth", "ltc", "xmr", "btc", "usdt", "ada", "bnb", "dot", "eos", "neo", "trx", "xlm", "zec", "dash", "etc", "iota", "vet"];
const START: u64 = 18_262 * DAY;
const SPAN: u64 = 3 * DAY;

// ---- the data source's world ----

/// Everything the data source knows depends on the market and on how often it changed.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct World {
    market: u64,
    version: u64,
}
impl World {
    fn n(&self) -> u64 {
        self.market * 7 + self.version * 3
    }
    fn info(&self) -> ExchangeInfo {
        let mut i = ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
        for (k, s) in SYMBOLS.iter().enumerate() {
            let k = k as u64 + self.n() % 5;
            let f = k as f64;
            i.fees.insert(s.to_string(), Fees { maker: 0.5, taker: (1.0 + f) / 1024.0 });
            i.filters.insert(
                s.to_string(),
                Filters {
                    price: juno::filters::Price { min: 0.0, max: 0.0, step: 0.0 },
                    size: juno::filters::Size { min: 0.125, max: 0.0, step: [0.125, 0.0, 0.0625, 0.25][(k % 4) as usize] },
                    base_precision: 6 + (k % 3) as u32,
                    quote_precision: 8 - (k % 4) as u32,
                },
            );
            let m = ASSETS
                .iter()
                .enumerate()
                .filter(|(j, a)| *j < 5 || s.starts_with(*a))
                .map(|(j, a)| {
                    // Only the terms of the base asset may matter.
                    let b = s.starts_with(a);
                    (a.to_string(), BorrowInfo { interest_interval: HOUR << (k % 3), interest_rate: if b { (1.0 + f) / 8192.0 } else { 0.25 * j as f64 }, limit: if b { 2.0 + f } else { 0.5 } })
                })
                .collect();
            i.borrow_info.insert(s.to_string(), m);
        }
        i
    }
    fn candles(&self, symbol: &str, interval: Interval, start: Timestamp, end: Timestamp) -> Vec<Candle> {
        let k = SYMBOLS.iter().position(|s| *s == symbol).unwrap() as u64 + self.n();
        let f = k as f64;
        (start.0 / interval.0..end.0 / interval.0)
            .map(|i| {
                let x = (i % 10_000) as f64 * interval.0 as f64 / HOUR as f64;
                let p = 10.0 + 3.0 * (x / (5.0 + f)).sin() + 1.5 * (x / 2.0 + f).cos() + (interval.0 / HOUR) as f64 / 8.0;
                let p = (p * 64.0).round() / 64.0;
                Candle { time: Timestamp(i * interval.0), open: p + 0.25 * (i % 3) as f64 - 0.25, high: p + 0.25, low: p - 0.25, close: p, volume: (i % 4) as f64 }
            })
            .collect()
    }
    fn prices(&self, assets: &[String], start: Timestamp, end: Timestamp) -> BTreeMap<String, Vec<f64>> {
        let days = end.0 / DAY - start.0 / DAY;
        assets
            .iter()
            .map(|a| {
                let k = (ASSETS.iter().position(|b| b == a).unwrap_or(9) as u64 + self.n()) as f64;
                (a.clone(), (0..=days).map(|d| if a == "usdt" { 1.0 } else { ((6.0 + ((d as f64 + 1.0) * (k + 1.3)).sin() * 2.0) * 256.0).round() / 256.0 }).collect())
            })
            .collect()
    }
}

// ---- requests and the queries they give rise to ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Backtest,
    Optimize,
}
#[derive(Clone, Debug)]
struct Request {
    kind: Kind,
    world: World,
    body: Value,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Query {
    Info,
    Candles(String, u64),
    Prices,
}
type Queries = Vec<(usize, Query)>;

fn span(body: &Value) -> (Timestamp, Timestamp) {
    (serde_json::from_value(body["start"].clone()).unwrap(), serde_json::from_value(body["end"].clone()).unwrap())
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
}
fn unique<T: PartialEq + Clone>(v: &[T]) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for x in v {
        if !out.contains(x) {
            out.push(x.clone());
        }
    }
    out
}
impl Request {
    /// Without what differs between executions.
    fn show(&self) -> String {
        let mut b = self.body.clone();
        b["exchange"] = json!(self.exchange().split('-').next());
        format!("{} {b}", self.path())
    }
    fn exchange(&self) -> &str {
        self.body["exchange"].as_str().unwrap()
    }
    fn symbols(&self) -> Vec<String> {
        match self.kind {
            Kind::Backtest => unique(&strings(&self.body["symbols"])),
            Kind::Optimize => unique(&[strings(&self.body["training_symbols"]), strings(&self.body["validation_symbols"])].concat()),
        }
    }
    fn intervals(&self) -> Vec<Interval> {
        let v = match self.kind {
            Kind::Backtest => json!([self.body["trading"]["trader"]["interval"]]),
            Kind::Optimize => self.body["context"]["trader"]["intervals"].clone(),
        };
        serde_json::from_value(v).unwrap()
    }
    fn queries(&self) -> Vec<Query> {
        let mut q = vec![Query::Info];
        for s in self.symbols() {
            for i in self.intervals() {
                q.push(Query::Candles(s.clone(), i.0));
            }
        }
        q.push(Query::Prices);
        q
    }
    fn path(&self) -> &'static str {
        match self.kind {
            Kind::Backtest => "/backtest",
            Kind::Optimize => "/optimize",
        }
    }
    /// Which of the queries this is, if any.
    fn recognise(&self, p: &Pending) -> Option<Query> {
        self.meant(&p.path, &p.body)
    }
    fn meant(&self, path: &str, b: &Value) -> Option<Query> {
        let (start, end) = span(&self.body);
        let times = || {
            let t = |k: &str| serde_json::from_value::<Timestamp>(b[k].clone()).ok();
            t("start") == Some(start) && t("end") == Some(end)
        };
        let interval = || serde_json::from_value::<Interval>(b["interval"].clone()).ok();
        match path {
            "/exchange_info" => Some(Query::Info),
            "/candles" => {
                let q = Query::Candles(b["symbol"].as_str()?.to_string(), interval()?.0);
                (times() && b["type_"] == "regular").then_some(q)
            }
            "/prices" => {
                let assets: BTreeSet<String> = strings(&b["assets"]).into_iter().collect();
                let all = self.symbols().iter().all(|s| s.split_once('-').map_or(true, |(a, b)| assets.contains(a) && assets.contains(b)));
                (all && times() && interval() == Some(Interval(DAY)) && b["target_asset"] == "usdt").then_some(Query::Prices)
            }
            _ => None,
        }
    }
    /// What the data source has to say.
    fn data(&self, p: &Pending) -> Value {
        let (start, end) = span(&self.body);
        match p.path.as_str() {
            "/exchange_info" => serde_json::to_value(self.world.info()).unwrap(),
            "/candles" => {
                let i = serde_json::from_value(p.body["interval"].clone()).unwrap();
                serde_json::to_value(self.world.candles(p.body["symbol"].as_str().unwrap(), i, start, end)).unwrap()
            }
            _ => serde_json::to_value(self.world.prices(&strings(&p.body["assets"]), start, end)).unwrap(),
        }
    }
}

// ---- the rig: service and data source, kept over executions ----

struct Rig {
    _service: Service,
    core: Option<Core>,
    /// The service does not send all its queries at once.
    sequential: bool,
}
static RIG: Mutex<Option<Rig>> = Mutex::new(None);
static SERIAL: AtomicU64 = AtomicU64::new(0);

fn patiently<T, E: std::fmt::Display>(mut f: impl FnMut() -> Result<T, E>) -> T {
    let until = Instant::now() + Duration::from_secs(120);
    loop {
        match f() {
            Ok(t) => return t,
            Err(e) if Instant::now() > until => {
                eprintln!("the check cannot run: {e}");
                std::process::exit(2)
            }
            Err(_) => std::thread::sleep(Duration::from_millis(50)),
        }
    }
}
/// Runs `f` with a service and data source that run. Whatever fails leaves neither behind.
/// How often a service did not ask for all it can in time.
static STALLS: AtomicU64 = AtomicU64::new(0);
fn one_at_a_time(sequential: &mut bool) {
    *sequential = true;
    STALLS.fetch_add(1, Ordering::Relaxed);
}
fn rigged<T>(f: impl FnOnce(&mut Rig) -> Result<T, Stop>) -> Result<T, Stop> {
    let mut g = RIG.lock().unwrap_or_else(|e| e.into_inner());
    let mut rig = match g.take() {
        Some(r) => r,
        None => Rig { core: Some(patiently(Core::start)), _service: patiently(Service::start), sequential: STALLS.load(Ordering::Relaxed) > 2 },
    };
    if rig.core.is_none() {
        rig.core = Some(patiently(Core::start));
    }
    match f(&mut rig) {
        Ok(t) => {
            *g = Some(rig);
            Ok(t)
        }
        Err(e) => {
            if let Some(c) = rig.core.take() {
                c.shut_down();
            }
            Err(e)
        }
    }
}
/// A service that has not served anything yet.
fn fresh() {
    let mut g = RIG.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(mut r) = g.take() {
        if let Some(c) = r.core.take() {
            c.shut_down();
        }
    }
}

const PATIENCE: Duration = Duration::from_secs(3);
const GRACE: Duration = Duration::from_millis(10);
const ANSWER: Duration = Duration::from_secs(20);
const GAP: Duration = Duration::from_micros(250);

/// Sends the requests and answers their queries in the given order of priority.
fn serve(rig: &mut Rig, requests: &[Request], order: &Queries, reply: impl Fn(usize, &Query, Value) -> Reply) -> Result<Vec<Answer>, Stop> {
    let core = rig.core.as_ref().unwrap();
    let mut calls = vec![];
    for r in requests {
        match Call::send("POST", r.path(), &r.body.to_string()) {
            Ok(c) => calls.push(c),
            Err(e) => fail!("the service does not accept requests: {e}"),
        }
    }
    let mut left: Queries = order.clone();
    while !left.is_empty() {
        let mut stray = None;
        // The indices of the queries of `left` that wait for an answer.
        let look = |pending: &[Pending], left: &Queries, stray: &mut Option<String>| -> Vec<usize> {
            let mut here = vec![];
            for p in pending {
                let Some(c) = requests.iter().position(|r| p.body["exchange"] == r.exchange()) else { continue };
                let i = requests[c].recognise(p).and_then(|q| left.iter().position(|x| *x == (c, q.clone())));
                match i {
                    Some(i) if !here.contains(&i) => here.push(i),
                    _ => *stray = Some(format!("the service asks for {} {}, which {}", p.path, p.body, if i.is_some() { "it asked already" } else { "this request has no use for, or has asked already" })),
                }
            }
            here
        };
        let mut first: Option<Instant> = None;
        let sequential = rig.sequential;
        let mut over = vec![false; calls.len()];
        let found = core.wait(if sequential { ANSWER } else { PATIENCE }, |pending| {
            let here = look(pending, &left, &mut stray);
            if stray.is_some() {
                return Some(here);
            }
            for (i, c) in calls.iter().enumerate() {
                over[i] = over[i] || c.answered();
            }
            let open: Vec<usize> = (0..left.len()).filter(|i| !over[left[*i].0]).collect();
            if !here.is_empty() && first.is_none() {
                first = Some(Instant::now());
            }
            let enough = open.iter().all(|i| here.contains(i)) || sequential && first.map_or(false, |t| t.elapsed() > GRACE);
            enough.then_some(here)
        });
        if let Some(s) = stray {
            fail!("{s}");
        }
        let here = match found {
            Some(h) => h,
            None => {
                one_at_a_time(&mut rig.sequential);
                let h = core.wait(Duration::ZERO, |p| Some(look(p, &left, &mut stray))).unwrap_or_default();
                if h.is_empty() {
                    fail!("the service neither asks for {left:?} nor answers");
                }
                h
            }
        };
        let Some(&next) = here.iter().min() else {
            // Nothing waits, and every request that lacks something is answered.
            break;
        };
        let (c, q) = left.remove(next);
        let p = core.take(|p| p.body["exchange"] == requests[c].exchange() && requests[c].recognise(p) == Some(q.clone())).unwrap();
        let data = requests[c].data(&p);
        p.answer(reply(c, &q, data));
        std::thread::sleep(GAP);
    }
    let mut answers = vec![];
    for c in calls {
        match c.finish(ANSWER) {
            Ok(a) => answers.push(a),
            Err(e) => fail!("{e}"),
        }
    }
    core.clear();
    Ok(answers)
}

/// Every order of the queries.
fn pick_order(ch: &mut Ch, requests: &[Request]) -> Queries {
    let mut left: Queries = requests.iter().enumerate().flat_map(|(c, r)| r.queries().into_iter().map(move |q| (c, q))).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let i = ch.pick(left.len());
        out.push(left.remove(i));
    }
    out
}
fn plain_order(requests: &[Request]) -> Queries {
    requests.iter().enumerate().flat_map(|(c, r)| r.queries().into_iter().map(move |q| (c, q))).collect()
}
fn good(_: usize, _: &Query, data: Value) -> Reply {
    Reply::ok(&data)
}

// ---- expected answers ----

/// As it is after a trip as JSON.
fn trip<T: serde::Serialize, U: serde::de::DeserializeOwned>(v: &T) -> U {
    serde_json::from_str(&serde_json::to_string(v).unwrap()).unwrap()
}

type Inputs = (ExchangeInfo, HashMap<String, HashMap<Interval, Vec<Candle>>>, HashMap<String, Vec<f64>>);
fn inputs(r: &Request) -> Inputs {
    let (start, end) = span(&r.body);
    let candles = r.symbols().iter().map(|s| (s.clone(), r.intervals().iter().map(|i| (*i, trip(&r.world.candles(s, *i, start, end)))).collect())).collect();
    let assets: Vec<String> = ASSETS.iter().map(|a| a.to_string()).collect();
    (trip(&r.world.info()), candles, trip(&r.world.prices(&assets, start, end)))
}
fn symbol_stats(p: &TradingParams, symbol: &str, quote: f64, (info, candles, prices): &Inputs) -> Statistics {
    let summary = trade(
        p,
        &TradeInput {
            candles: &candles[symbol][&p.trader.interval],
            fees: &info.fees[symbol],
            filters: &info.filters[symbol],
            borrow_info: &info.borrow_info[symbol][symbol.base_asset()],
            margin_multiplier: 2,
            quote,
            long: true,
            short: true,
        },
    );
    Statistics::compose(&summary, symbol, prices, Interval(DAY))
}
fn backtest_answer(r: &Request) -> Value {
    let p: TradingParams = serde_json::from_value(r.body["trading"].clone()).unwrap();
    let quote = r.body["quote"].as_f64().unwrap();
    let data = inputs(r);
    let m: BTreeMap<String, Statistics> = r.symbols().into_iter().map(|s| (s.clone(), symbol_stats(&p, &s, quote, &data))).collect();
    json!({ "symbol_stats": trip::<_, Value>(&m) })
}

/// The first difference, if any.
fn differ(got: &Value, want: &Value, at: &str) -> Option<String> {
    match (got, want) {
        (Value::Object(a), Value::Object(b)) => {
            let (ka, kb): (BTreeSet<_>, BTreeSet<_>) = (a.keys().collect(), b.keys().collect());
            if ka != kb {
                return Some(format!("{at} has {ka:?} instead of {kb:?}"));
            }
            a.iter().find_map(|(k, v)| differ(v, &b[k], &format!("{at}.{k}")))
        }
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{at} has {} entries instead of {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| differ(x, y, &format!("{at}[{i}]")))
        }
        (Value::Number(a), Value::Number(b)) => {
            let same = a == b || !(a.is_u64() && b.is_u64()) && close(a.as_f64().unwrap(), b.as_f64().unwrap(), 1e-9, 1e-12);
            (!same).then(|| format!("{at} is {a} instead of {b}"))
        }
        _ => (got != want).then(|| format!("{at} is {got} instead of {want}")),
    }
}

fn short(s: &str) -> String {
    s.chars().take(300).collect()
}
fn check_backtest(r: &Request, a: &Answer) -> Res {
    ensure!(a.status == 200, "{} is answered with status {}: {}", r.show(), a.status, short(&a.text));
    if let Some(d) = differ(&a.body, &backtest_answer(r), "the answer") {
        fail!("{}: {d}", r.show());
    }
    for s in r.symbols() {
        let n = a.text.matches(&format!("\"{s}\":")).count();
        ensure!(n == 1, "{}: {s} is in the answer {n} times", r.show());
    }
    Ok(())
}

/// The requests go to an exchange of their own, so that nothing of other executions gets mixed in.
fn exchange(world: World) -> String {
    format!("market{}-{:08}", world.market, SERIAL.fetch_add(1, Ordering::SeqCst))
}
fn backtest(world: World, symbols: &[&str], trading: Value) -> Request {
    Request {
        kind: Kind::Backtest,
        world,
        body: json!({"exchange": exchange(world), "symbols": symbols, "start": START, "end": START + SPAN, "quote": 50.0, "trading": trading}),
    }
}
fn follow(interval: u64, c: u32) -> Value {
    let s = json!({"type": "DoubleMA", "mas": [{"type": "Sma", "period": 1 + c}, {"type": "Sma", "period": 3 + c}]});
    genes::individual(s, interval, genes::stop_loss(["Noop", "Trailing"][c as usize % 2], c), genes::take_profit(["Noop", "Basic"][c as usize % 2], c))
}
fn traded(a: &Answer) -> usize {
    a.body["symbol_stats"].as_object().map_or(0, |m| m.values().map(|s| s["positions"].as_array().map_or(0, |p| p.len())).sum())
}

/// Lists of up to `most` of the first `n` symbols, repetition included.
fn lists(n: usize, most: usize) -> Vec<Vec<&'static str>> {
    let mut out: Vec<Vec<&'static str>> = vec![];
    let mut last: Vec<Vec<&'static str>> = vec![vec![]];
    for _ in 0..most {
        last = last.iter().flat_map(|l| SYMBOLS[..n].iter().map(move |s| [l.clone(), vec![*s]].concat())).collect();
        out.extend(last.clone());
    }
    out
}

const W: World = World { market: 0, version: 0 };

fn c29(run: &mut Run) {
    run.assume("the statistics of a backtest are those of the library (C01-C17); results are compared as JSON, numbers to 1e-9");
    run.assume("one service process, answers of the data source released one by one at least 250 us apart");
    let mut all = lists(run.deep(3, 4), 3);
    all.push(vec![]);
    let all = all;
    run.section_n("orders", &format!("2 configurations x every list of none to 3 of {} symbols, repetition included, x every order in which the data source's answers arrive", run.deep(3, 4)), 1, |ch| {
        let (interval, c) = *ch.of(&[(HOUR, 0), (4 * HOUR, 1)]);
        let list = ch.of(&all).clone();
        let r = [backtest(W, &list, follow(interval, c))];
        let order = pick_order(ch, &r);
        note!(ch, "{} answered in the order {order:?}", r[0].show());
        let a = rigged(|rig| serve(rig, &r, &order, good))?;
        check_backtest(&r[0], &a[0])?;
        ch.hit(if traded(&a[0]) > 0 { "with positions" } else { "without positions" });
        let names: Vec<String> = order.iter().map(|q| format!("{q:?}")).collect();
        ch.state(H::new().s(&list.join(" ")).s(&names.join(" ")).u(interval).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
    run.section_n("interleavings", "two requests at once (same symbol, other symbol, other market, other interval) x every interleaving of the data source's answers to both", 1, |ch| {
        let (w, s, interval) = *ch.of(&[(W, "eth-btc", HOUR), (W, "ltc-btc", HOUR), (World { market: 1, version: 0 }, "eth-btc", HOUR), (W, "eth-btc", 4 * HOUR)]);
        let r = [backtest(W, &["eth-btc"], follow(HOUR, 0)), backtest(w, &[s], follow(interval, 1))];
        let order = pick_order(ch, &r);
        note!(ch, "{} and {} answered in the order {order:?}", r[0].show(), r[1].show());
        let a = rigged(|rig| serve(rig, &r, &order, good))?;
        check_backtest(&r[0], &a[0])?;
        check_backtest(&r[1], &a[1])?;
        let names: Vec<String> = order.iter().map(|q| format!("{q:?}")).collect();
        ch.state(H::new().s(&names.join(" ")).u(w.n()).s(s).u(interval).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
    let len = run.deep(3, 4);
    run.section_n("histories", &format!("a fresh process x every sequence of {len} requests out of 2 strategies x 2 states of the market x 2 spans"), 1, |ch| {
        fresh();
        let mut h = H::new();
        // The exchange stays the same over the history; the data source's knowledge changes.
        let name = exchange(W);
        for n in 0..len {
            let c = ch.pick(2) as u32;
            let world = World { market: 0, version: ch.pick(2) as u64 };
            let days = 2 + ch.pick(2) as u64;
            let mut r = backtest(world, &["eth-btc", "ltc-btc"], follow([HOUR, 4 * HOUR][c as usize], c));
            r.body["exchange"] = json!(name);
            r.body["end"] = json!(START + days * DAY);
            let r = [r];
            note!(ch, "request {n}: {world:?} {}", r[0].show());
            let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
            check_backtest(&r[0], &a[0])?;
            h = h.s(&a[0].text);
            ch.state(h.get());
            ch.trans(4);
        }
        ch.validated();
        Ok(())
    });
    let kinds = genes::strategy_kinds();
    let days = run.deep(1, 3);
    run.section_n("inputs", &format!("28 strategies x 5 stop losses x 4 take profits x times and intervals as numbers and as text, at and off day boundaries, over up to {days} days"), 1, |ch| {
        let k = ch.of(&kinds).clone();
        let (sl, tp) = (*ch.of(&genes::STOP_LOSSES), *ch.of(&genes::TAKE_PROFITS));
        let form = ch.pick(3);
        let days = 1 + ch.pick(days as usize) as u64;
        let mut t = genes::individual(genes::strategy(&k, 0), HOUR, genes::stop_loss(sl, 0), genes::take_profit(tp, 0));
        if t["strategy"].get("buffer_interval").is_some() {
            t["strategy"]["buffer_interval"] = if form == 0 { json!(2 * HOUR) } else { json!("2h") };
        }
        if form == 1 {
            t["trader"]["interval"] = json!("1h");
        }
        let mut r = backtest(W, &["ltc-btc", "xmr-eth"], t);
        r.body["end"] = json!(START + days * DAY);
        if form == 1 {
            r.body["start"] = json!("2020-01-01");
            r.body["end"] = json!(Timestamp(START + days * DAY).to_string());
        }
        if form == 2 {
            r.body["start"] = json!(START + 5 * HOUR + 7);
            r.body["end"] = json!(START + days * DAY + 3 * HOUR + 1);
        }
        let r = [r];
        note!(ch, "{}", r[0].show());
        let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
        check_backtest(&r[0], &a[0])?;
        ch.hit(if traded(&a[0]) > 0 { "with positions" } else { "without positions" });
        ch.state(H::new().s(&a[0].text).get());
        ch.trans(4);
        ch.validated();
        Ok(())
    });

    let lengths = [HOUR / 2, HOUR, 6 * HOUR, DAY, 2 * DAY, 7 * DAY];
    run.section_n("intervals", "6 candle intervals from half an hour to a week x 28 strategies x 2 stop losses x 2 take profits x from midnight or not, over 8 candles or 3 days", 1, |ch| {
        let interval = *ch.of(&lengths);
        let k = ch.of(&kinds).clone();
        let (sl, tp) = (genes::STOP_LOSSES[ch.pick(2)], genes::TAKE_PROFITS[ch.pick(2)]);
        let mut t = genes::individual(genes::strategy(&k, 0), interval, genes::stop_loss(sl, 0), genes::take_profit(tp, 0));
        if t["strategy"].get("buffer_interval").is_some() {
            // Weeks are the longest that candles are aggregated to, but for months.
            t["strategy"]["buffer_interval"] = json!((2 * interval).min(7 * DAY));
        }
        let mut r = backtest(W, &["ltc-btc", "xmr-eth"], t);
        let start = START + if ch.flag() { interval } else { 0 };
        r.body["start"] = json!(start);
        r.body["end"] = json!(start + (8 * interval).max(3 * DAY));
        let r = [r];
        note!(ch, "{}", r[0].show());
        let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
        check_backtest(&r[0], &a[0])?;
        ch.hit(if traded(&a[0]) > 0 { "with positions" } else { "without positions" });
        ch.state(H::new().s(&a[0].text).get());
        ch.trans(4);
        ch.validated();
        Ok(())
    });
    neighbourly(run, Kind::Backtest);
    crowds(run, Kind::Backtest);
    let step = run.deep(4, 1) as usize;
    run.section_n("sizes", &format!("1 to 16 symbols, from {} places of their list on, x 3 orders of the answers, over 3 to 60 days", 16 / step), 1, |ch| {
        let n = 1 + ch.pick(16);
        let from = ch.pick(16 / step) * step;
        let list: Vec<&str> = (0..n).map(|i| SYMBOLS[(from + i) % 16]).collect();
        let mut r = backtest(W, &list, follow(HOUR, 1));
        r.body["end"] = json!(START + [3, 20, 60][(n + from) % 3] * DAY);
        let r = [r];
        let mut order = plain_order(&r);
        match ch.pick(3) {
            0 => {}
            1 => order.reverse(),
            _ => order.rotate_left(2),
        }
        note!(ch, "{} answered in the order {order:?}", r[0].show());
        let a = rigged(|rig| serve(rig, &r, &order, good))?;
        check_backtest(&r[0], &a[0])?;
        ch.hit(if traded(&a[0]) > 500 { "more than 500 positions" } else { "less" });
        ch.state(H::new().s(&a[0].text).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
}

/// The request and those that differ from it in one field each, all to the same exchange (but the
/// one that differs in it).
fn neighbours(base: &Request) -> Vec<(String, Request)> {
    let day = DAY;
    let mut fields = vec![("start", json!(START + day)), ("end", json!(START + SPAN + day)), ("quote", json!(75.0)), ("exchange", json!(exchange(base.world)))];
    match base.kind {
        Kind::Backtest => fields.extend([
            ("symbols", json!(["ltc-btc", "eth-btc"])),
            ("symbols", json!(["eth-btc"])),
            ("symbols", json!(["eth-btc", "xmr-eth"])),
            ("/trading/trader/interval", json!(4 * HOUR)),
            ("/trading/strategy", json!({"type": "DoubleMA", "mas": [{"type": "Ema", "period": 1}, {"type": "Sma", "period": 3}]})),
            ("/trading/strategy/mas/1/period", json!(4)),
            ("/trading/stop_loss", genes::stop_loss("Trailing", 1)),
            ("/trading/take_profit", genes::take_profit("Basic", 1)),
        ]),
        Kind::Optimize => fields.extend([
            ("training_symbols", json!(["ltc-btc"])),
            ("training_symbols", json!(["eth-btc", "xmr-eth"])),
            ("validation_symbols", json!([])),
            ("validation_symbols", json!(["xmr-eth"])),
            ("population_size", json!(5)),
            ("generations", json!(4)),
            ("hall_of_fame_size", json!(2)),
            ("seed", json!(8)),
            ("seed", json!(null)),
            ("evaluation_statistic", json!("SharpeRatio")),
            ("evaluation_aggregation", json!("Log10")),
            ("context", json!({"trader": {"intervals": [HOUR]}})),
            ("context", json!({"trader": {"intervals": [4 * HOUR]}, "stop_loss": genes::stop_loss("Trailing", 1)})),
        ]),
    }
    let mut out = vec![("the same".to_string(), base.clone()), ("other data".to_string(), Request { world: World { version: 2, ..base.world }, ..base.clone() })];
    for (k, v) in fields {
        let mut r = base.clone();
        let name = format!("{k}: {}", if k == "exchange" { json!("another") } else { v.clone() });
        *if k.starts_with('/') { r.body.pointer_mut(k).unwrap() } else { &mut r.body[k] } = v;
        out.push((name, r));
    }
    out
}
/// One request after or next to another that differs little from it.
fn neighbourly(run: &mut Run, kind: Kind) {
    let make = move || match kind {
        Kind::Backtest => backtest(W, &["eth-btc", "ltc-btc"], follow(HOUR, 0)),
        Kind::Optimize => optimize(W, &["eth-btc"], &["ltc-btc"], Some(3)),
    };
    let n = neighbours(&make()).len();
    run.section_n("neighbours", &format!("a request, one that differs from it in one field or in the data behind it, one that differs in another, on one exchange: all {n} x {n} histories of 3"), 1, move |ch| {
        let base = make();
        let near = neighbours(&base);
        let (a, b) = (ch.of(&near).clone(), ch.of(&near).clone());
        note!(ch, "{}, then {}, then {}", base.show(), a.0, b.0);
        let mut h = H::new();
        for r in [base, a.1, b.1] {
            let r = [r];
            let got = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
            check_good(&r[0], &got[0])?;
            let mut body = got[0].body.clone();
            if r[0].kind == Kind::Optimize && r[0].body["seed"].is_null() {
                body = json!(null);
            }
            h = h.s(&body.to_string());
            ch.state(h.get());
            ch.trans(r[0].queries().len());
        }
        ch.validated();
        Ok(())
    });
    let n = n - 2;
    run.section_n("neighbours at once", &format!("a request and one that differs from it in one field, at once, on one exchange: {n} pairs, with every query of the one answered before, or after, those of the other"), 1, move |ch| {
        let base = make();
        let near = neighbours(&base);
        let (name, other) = near[2 + ch.pick(n)].clone();
        let mut r = [base, other];
        // Their queries are told apart by the exchange, so that must differ.
        r[1].body["exchange"] = json!(exchange(W));
        let mut order = plain_order(&r);
        match ch.pick(3) {
            0 => {}
            1 => order.reverse(),
            _ => order.sort_by_key(|(c, q)| (q.clone(), *c)),
        }
        note!(ch, "{} and the one with {name}, answered in the order {order:?}", r[0].show());
        let got = rigged(|rig| serve(rig, &r, &order, good))?;
        check_good(&r[0], &got[0])?;
        check_good(&r[1], &got[1])?;
        ch.state(H::new().s(&name).s(&named(&order)).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
}

/// Many requests at once.
fn crowds(run: &mut Run, kind: Kind) {
    let sizes: &[usize] = match (run.thorough(), kind) {
        (false, Kind::Backtest) => &[33, 17, 16, 9, 8, 5, 4, 3],
        (false, Kind::Optimize) => &[17, 9, 5, 3],
        (true, _) => &[65, 48, 33, 32, 24, 17, 16, 12, 9, 8, 7, 6, 5, 4, 3],
    };
    run.section_n("crowds", &format!("{sizes:?} requests at once, all of this kind or every second of the other, on markets of their own or the same, with 5 orders of the data source's answers to them"), 1, move |ch| {
        // The largest first: a slow service may not get through all of them.
        let how = ch.pick(5);
        let mixed = ch.flag();
        let apart = ch.flag();
        let n = *ch.of(sizes);
        let lists: [&[&str]; 3] = [&["eth-btc"], &["ltc-btc", "eth-btc"], &["xmr-eth"]];
        let r: Vec<Request> = (0..n)
            .map(|i| {
                let world = World { market: if apart { i as u64 % 7 } else { 0 }, version: 0 };
                let list = lists[i % 3];
                let other = if kind == Kind::Backtest { Kind::Optimize } else { Kind::Backtest };
                match if mixed && i % 2 == 1 { other } else { kind } {
                    Kind::Backtest => backtest(world, list, follow([HOUR, 4 * HOUR][i / 3 % 2], i as u32 % 2)),
                    Kind::Optimize => optimize(world, &list[..1], &list[1..], Some(i as u64)),
                }
            })
            .collect();
        let mut order = plain_order(&r);
        match how {
            0 => {}
            1 => order.reverse(),
            // First queries of all, then second ones, ...
            2 => order.sort_by_key(|(c, q)| (q.clone(), *c)),
            3 => order.sort_by_key(|(c, q)| (q.clone(), n - *c)),
            // The first request waits for the longest.
            _ => order.sort_by_key(|(c, _)| (*c == 0, *c % 2 == 0)),
        }
        note!(ch, "{n} requests{}{}, answers in order {how}", if mixed { ", mixed" } else { "" }, if apart { ", markets apart" } else { "" });
        let got = rigged(|rig| serve(rig, &r, &order, good))?;
        let mut h = H::new();
        for (r, a) in r.iter().zip(&got) {
            check_good(r, a)?;
            h = h.s(&a.text);
        }
        ch.state(h.u(how as u64).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
}

// ---- failures of the data source ----

const FAULTS: [&str; 14] = [
    "400 with a message",
    "404 with a message and valid data",
    "422 in plain text",
    "403 without a message",
    "500 with valid data",
    "503 with a message",
    "200 that is not JSON",
    "200 of another shape",
    "200 cut short",
    "200 with a value of another type",
    "200 that ends before its announced length",
    "200 without a body",
    "something that is not HTTP",
    "a closed connection",
];
/// Turns the first number into text that is none.
fn mistype(v: &mut Value) -> bool {
    match v {
        Value::Number(_) => {
            *v = json!("twelve");
            true
        }
        Value::Array(a) => a.iter_mut().any(mistype),
        Value::Object(m) => m.values_mut().any(mistype),
        _ => false,
    }
}
/// The faulty answer, and the message it carries for the user.
fn fault(kind: usize, tag: &str, data: Value) -> (Reply, Option<String>) {
    let http = |status: u16, v: Value| Reply::Http(status, v.to_string().into_bytes());
    let whole = data.to_string().into_bytes();
    let message = format!("No data for \"{tag}\" \u{2014} \u{fc}n\u{ef}c\u{f6}de");
    match kind {
        0 => (http(400, json!({ "message": message })), Some(message)),
        1 => {
            let mut v = if data.is_object() { data } else { json!({}) };
            v["message"] = json!(message);
            (http(404, v), Some(message))
        }
        2 => (Reply::Http(422, b"unprocessable".to_vec()), None),
        3 => (http(403, json!({"error": "forbidden"})), None),
        4 => (http(500, data), None),
        5 => (http(503, json!({"message": "maintenance"})), None),
        6 => (Reply::Http(200, b"<html>hello</html>".to_vec()), None),
        7 => (http(200, json!("text")), None),
        8 => (Reply::Http(200, whole[..whole.len() / 2].to_vec()), None),
        9 => {
            let mut v = data;
            mistype(&mut v);
            (http(200, v), None)
        }
        10 => (Reply::Short(whole), None),
        11 => (Reply::Http(200, vec![]), None),
        12 => (Reply::Raw(b"\x00\x01\x02 not at all\r\n\r\n".to_vec()), None),
        _ => (Reply::Close, None),
    }
}

fn check_error(r: &Request, a: &Answer, messages: &[Option<String>]) -> Res {
    ensure!(a.status == 500, "{}: status {} instead of 500: {}", r.show(), a.status, short(&a.text));
    let m = a.body["message"].as_str().unwrap_or("");
    ensure!(!m.is_empty(), "{}: the error answer has no message: {}", r.show(), short(&a.text));
    ensure!(a.body.as_object().map_or(false, |o| !o.contains_key("symbol_stats") && !o.contains_key("generations")), "{}: the error answer has results", r.show());
    if messages.iter().all(|x| x.is_some()) && !messages.is_empty() {
        ensure!(messages.iter().flatten().any(|x| m.contains(x.as_str())), "{}: the message {m:?} does not contain any of {messages:?}", r.show());
    }
    Ok(())
}
fn optimize(world: World, training: &[&str], validation: &[&str], seed: Option<u64>) -> Request {
    let mut body = json!({
        "population_size": 4, "generations": 2, "hall_of_fame_size": 1,
        "exchange": exchange(world), "start": START, "end": START + SPAN, "quote": 50.0,
        "training_symbols": training, "validation_symbols": validation,
        "evaluation_statistic": "Profit", "evaluation_aggregation": "Linear",
        "context": {"trader": {"intervals": [4 * HOUR]}},
    });
    if let Some(s) = seed {
        body["seed"] = json!(s);
    }
    Request { kind: Kind::Optimize, world, body }
}
fn either(kind: Kind, symbols: &[&str]) -> Request {
    match kind {
        Kind::Backtest => backtest(W, symbols, follow(HOUR, 0)),
        Kind::Optimize => optimize(W, &symbols[..1], &symbols[1..], Some(3)),
    }
}
fn check_good(r: &Request, a: &Answer) -> Res {
    match r.kind {
        Kind::Backtest => check_backtest(r, a),
        Kind::Optimize => check_optimize(r, a),
    }
}
/// The same request again, once the data source is well (and knows other data), must succeed.
fn again(r: &Request) -> Res {
    let r = [Request { world: World { version: 1, ..r.world }, ..r.clone() }];
    let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
    check_good(&r[0], &a[0])
}
/// A request that nothing stands in the way of must succeed.
fn afterwards(kind: Kind) -> Res {
    let r = [either(kind, &["ltc-btc"])];
    let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
    check_good(&r[0], &a[0])
}
fn named(order: &Queries) -> String {
    order.iter().map(|q| format!("{q:?}")).collect::<Vec<_>>().join(" ")
}
fn pick_kind(ch: &mut Ch) -> Kind {
    *ch.of(&[Kind::Backtest, Kind::Optimize])
}

fn c30(run: &mut Run) {
    run.assume("one service process, answers of the data source released one by one at least 250 us apart");
    run.assume("a fault is any of: error statuses with and without a JSON message, malformed, mistyped, truncated or incomplete data, broken or refused connections");
    run.section_n("single", &format!("backtest and optimisation of 2 symbols x each of their 4 queries x {} faults x every order of the answers, then the same request to a data source that is well", FAULTS.len()), 1, |ch| {
        let kind = pick_kind(ch);
        let f = ch.pick(FAULTS.len());
        let r = [either(kind, &["eth-btc", "ltc-btc"])];
        let victim = ch.pick(4);
        let order = pick_order(ch, &r);
        let victim = plain_order(&r)[victim].1.clone();
        note!(ch, "{kind:?}: {} for {victim:?}, answered in the order {order:?}", FAULTS[f]);
        let message = fault(f, &format!("{victim:?}"), json!([0.5])).1;
        let a = rigged(|rig| serve(rig, &r, &order, |_, q, data| if *q == victim { fault(f, &format!("{q:?}"), data).0 } else { Reply::ok(&data) }))?;
        check_error(&r[0], &a[0], &[message])?;
        again(&r[0])?;
        ch.hit(FAULTS[f]);
        ch.state(H::new().s(&named(&order)).u(f as u64).s(&format!("{victim:?}{kind:?}")).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
    let some: &[usize] = if run.thorough() { &[0, 1, 2, 3, 4, 5, 6, 8, 10, 13] } else { &[0, 4, 6, 13] };
    let thorough = run.thorough();
    run.section_n("double", &format!("2 of the 4 queries of a request for 2 symbols fail x {}x{} faults x every order of the answers, then the same request to a data source that is well", some.len(), some.len()), 1, |ch| {
        let kind = if thorough { pick_kind(ch) } else { Kind::Backtest };
        let r = [either(kind, &["eth-btc", "ltc-btc"])];
        let all = plain_order(&r);
        let i = ch.pick(3);
        let j = i + 1 + ch.pick(3 - i);
        let (f, g) = (*ch.of(some), *ch.of(some));
        let order = pick_order(ch, &r);
        let (a_, b_) = (all[i].1.clone(), all[j].1.clone());
        note!(ch, "{kind:?}: {} for {a_:?} and {} for {b_:?}, answered in the order {order:?}", FAULTS[f], FAULTS[g]);
        let tag = |q: &Query| format!("{q:?}");
        let messages = [fault(f, &tag(&a_), json!([0.5])).1, fault(g, &tag(&b_), json!([0.5])).1];
        let a = rigged(|rig| {
            serve(rig, &r, &order, |_, q, data| {
                if *q == a_ {
                    fault(f, &tag(q), data).0
                } else if *q == b_ {
                    fault(g, &tag(q), data).0
                } else {
                    Reply::ok(&data)
                }
            })
        })?;
        check_error(&r[0], &a[0], &messages)?;
        again(&r[0])?;
        ch.state(H::new().s(&named(&order)).u((i * 1000 + j * 100 + f * 20 + g) as u64).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
    let some: &[usize] = if run.thorough() { &[0, 4, 6, 8, 12, 13] } else { &[0, 13] };
    run.section_n("meanwhile", &format!("a request with a failing query (3 places, {} faults) and a good one at once, in every interleaving of the answers to both", some.len()), 1, |ch| {
        let f = *ch.of(some);
        let r = [either(Kind::Backtest, &["eth-btc"]), either(Kind::Backtest, &["ltc-btc"])];
        let victim = r[0].queries()[ch.pick(3)].clone();
        let order = pick_order(ch, &r);
        note!(ch, "{} for {victim:?}, answered in the order {order:?}", FAULTS[f]);
        let message = fault(f, &format!("{victim:?}"), json!([0.5])).1;
        let a = rigged(|rig| serve(rig, &r, &order, |c, q, data| if c == 0 && *q == victim { fault(f, &format!("{q:?}"), data).0 } else { Reply::ok(&data) }))?;
        check_error(&r[0], &a[0], &[message])?;
        check_good(&r[1], &a[1])?;
        again(&r[0])?;
        ch.state(H::new().s(&named(&order)).u(f as u64).s(&format!("{victim:?}")).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
    let len = run.deep(3, 4);
    run.section_n("outages", &format!("every sequence of {len} requests, each good, refused, or with the data source going down once 0 to 3 of its 4 queries are answered"), 1, |ch| {
        let mut h = H::new();
        for n in 0..len {
            let kind = if n % 2 == 0 { Kind::Backtest } else { Kind::Optimize };
            let r = [either(kind, &["eth-btc", "ltc-btc"])];
            let what = ch.pick(6);
            h = h.u(what as u64);
            ch.state(h.get());
            ch.trans(4);
            if what == 0 {
                note!(ch, "request {n} is good");
                let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
                check_good(&r[0], &a[0])?;
                continue;
            }
            note!(ch, "request {n}: down {}", if what == 1 { "throughout".into() } else { format!("after {} answers", what - 2) });
            let a = rigged(|rig| {
                let core = rig.core.take().unwrap();
                if what == 1 {
                    core.shut_down();
                    let c = Call::send("POST", r[0].path(), &r[0].body.to_string()).map_err(|e| Stop::Fail(format!("the service does not accept requests: {e}")))?;
                    return c.finish(ANSWER).map_err(Stop::Fail);
                }
                let c = Call::send("POST", r[0].path(), &r[0].body.to_string()).map_err(|e| Stop::Fail(format!("the service does not accept requests: {e}")))?;
                for k in 0..what - 2 {
                    // All of them before the first answer, unless they come one at a time.
                    core.wait(if rig.sequential { GRACE } else { PATIENCE }, |p| (p.len() >= 4 - k).then_some(()));
                    let Some(p) = core.take(|p| p.body["exchange"] == r[0].exchange()) else { break };
                    let d = r[0].data(&p);
                    p.answer(Reply::ok(&d));
                    std::thread::sleep(GAP);
                }
                if what == 2 {
                    core.wait(PATIENCE, |p| (!p.is_empty()).then_some(()));
                }
                core.shut_down();
                c.finish(ANSWER).map_err(Stop::Fail)
            })?;
            check_error(&r[0], &a, &[])?;
        }
        afterwards(Kind::Backtest)?;
        ch.validated();
        Ok(())
    });
    run.section_n("incomplete", "backtest and optimisation of 2 symbols x every place where the data source's answer lacks what one of them needs, then a good request", 1, |ch| {
        let kind = pick_kind(ch);
        let r = [either(kind, &["eth-btc", "ltc-btc"])];
        let s = *ch.of(&["eth-btc", "ltc-btc"]);
        let base = s.base_asset();
        let what = ch.pick(7);
        note!(ch, "{kind:?}: nothing on {s} in {what}");
        let a = rigged(|rig| {
            serve(rig, &r, &plain_order(&r), |_, q, mut d| {
                match (q, what) {
                    (Query::Info, 0..=2) => {
                        d[["fees", "filters", "borrow_info"][what]].as_object_mut().unwrap().remove(s);
                    }
                    (Query::Info, 3) => {
                        d["borrow_info"][s].as_object_mut().unwrap().remove(base);
                    }
                    (Query::Prices, 4) => {
                        d.as_object_mut().unwrap().remove(base);
                    }
                    (Query::Prices, 5) => {
                        d[base].as_array_mut().unwrap().pop();
                    }
                    (Query::Prices, 6) => d[base] = json!([]),
                    _ => {}
                }
                Reply::ok(&d)
            })
        })?;
        check_error(&r[0], &a[0], &[])?;
        afterwards(kind)?;
        ch.state(H::new().s(s).u(what as u64).u(kind as u64).get());
        ch.trans(4);
        ch.validated();
        Ok(())
    });
}

// ---- optimisation ----

fn parse<T: serde::de::DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap()
}
fn whole(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

/// The answer for the seed: the library's evolution with the service's operators, generations
/// without any improvement left out.
fn optimize_answer(r: &Request, seed: u64, data: &Inputs) -> Value {
    let b = &r.body;
    let ctx: TradingParamsContext = parse(&b["context"]);
    let (start, end) = span(b);
    let (training, quote) = (strings(&b["training_symbols"]), b["quote"].as_f64().unwrap());
    let algo = GeneticAlgorithm::new(
        BasicEvaluation::new(&BasicEvaluationInput {
            exchange_info: &data.0,
            candles: &data.1,
            prices: &data.2,
            symbols: &training,
            intervals: &ctx.trader.intervals,
            start,
            end,
            quote,
            evaluation_statistic: parse(&b["evaluation_statistic"]),
            evaluation_aggregation: parse(&b["evaluation_aggregation"]),
        }),
        selection::EliteSelection { shuffle: false },
        crossover::UniformCrossover::new(0.5),
        mutation::UniformMutation::new(0.25),
        reinsertion::EliteReinsertion::new(0.75, 0.5),
    );
    let e = algo.evolve(whole(&b["population_size"]), whole(&b["generations"]), whole(&b["hall_of_fame_size"]), Some(seed), |_, _| {}, &ctx);
    let mut best: Vec<Option<f64>> = vec![None; whole(&b["hall_of_fame_size"]).min(whole(&b["population_size"]))];
    let mut out = vec![];
    for (nr, g) in e.generations.iter().enumerate() {
        let better: Vec<usize> = (0..g.hall_of_fame.len()).filter(|i| best[*i].map_or(true, |x| g.hall_of_fame[*i].fitness > x)).collect();
        if better.is_empty() {
            continue;
        }
        for i in better {
            best[i] = Some(g.hall_of_fame[i].fitness);
        }
        let list: Vec<Value> = g
            .hall_of_fame
            .iter()
            .map(|i| {
                let stats: BTreeMap<String, Statistics> = r.symbols().into_iter().map(|s| (s.clone(), symbol_stats(&i.chromosome, &s, quote, data))).collect();
                json!({"individual": trip::<_, Value>(i), "symbol_stats": trip::<_, Value>(&stats)})
            })
            .collect();
        out.push(json!({"nr": nr, "hall_of_fame": list}));
    }
    json!({"generations": out, "seed": seed})
}

fn log10ish(v: f64) -> f64 {
    if v >= 0.0 {
        (v + 1.0).log10()
    } else {
        -(10f64.powf(1.0 - v))
    }
}
/// What the report says of itself: fitness over the training symbols, improvements, numbering.
fn check_report(r: &Request, a: &Value) -> Res {
    let show = r.show();
    let b = &r.body;
    let gens = a["generations"].as_array().unwrap();
    ensure!(!gens.is_empty() && gens[0]["nr"] == 0, "{show}: the initial generation is not reported first");
    let mut best: Vec<f64> = vec![];
    let mut last = None;
    for g in gens {
        let nr = g["nr"].as_u64();
        ensure!(nr > last || last.is_none(), "{show}: generation {nr:?} after {last:?}");
        ensure!(nr.unwrap() <= b["generations"].as_u64().unwrap(), "{show}: generation {nr:?} reported");
        last = nr;
        let list = g["hall_of_fame"].as_array().unwrap();
        ensure!(list.len() == whole(&b["hall_of_fame_size"]).min(whole(&b["population_size"])), "{show}: {} best reported", list.len());
        let mut improved = false;
        let mut previous = f64::INFINITY;
        for (i, x) in list.iter().enumerate() {
            // JSON has no infinity; losses beyond all bounds aggregate to minus infinity.
            let fitness = x["individual"]["fitness"].as_f64().unwrap_or(f64::NEG_INFINITY);
            ensure!(fitness <= previous, "{show}: the best list of generation {nr:?} is not in order");
            previous = fitness;
            if i >= best.len() {
                best.push(fitness);
                improved = true;
            } else if fitness > best[i] {
                best[i] = fitness;
                improved = true;
            }
            // The chosen aggregate of the chosen statistic, as reported for the training symbols.
            let key = match b["evaluation_statistic"].as_str().unwrap() {
                "Profit" => &["core", "profit"],
                "ReturnOverMaxDrawdown" => &["core", "return_over_max_drawdown"],
                "SharpeRatio" => &["extended", "sharpe_ratio"],
                _ => &["extended", "sortino_ratio"],
            };
            let mut want = 0.0;
            for s in strings(&b["training_symbols"]) {
                let v = &x["symbol_stats"][&s][key[0]][key[1]];
                let Some(v) = v.as_f64() else { fail!("{show}: {key:?} of {s} is {v}") };
                want += match b["evaluation_aggregation"].as_str().unwrap() {
                    "Linear" => v,
                    "Log10" => log10ish(v),
                    _ => log10ish(v * 10.0),
                };
            }
            ensure!(close(fitness, want, 1e-8, 1e-8), "{show}: fitness {fitness}, but the training symbols' statistics make {want}");
        }
        ensure!(improved, "{show}: generation {nr:?} is reported without any improvement");
    }
    Ok(())
}
fn check_optimize(r: &Request, a: &Answer) -> Res {
    ensure!(a.status == 200, "{} is answered with status {}: {}", r.show(), a.status, short(&a.text));
    let Some(seed) = a.body["seed"].as_u64() else { fail!("{}: seed {}", r.show(), a.body["seed"]) };
    if let Some(s) = r.body.get("seed").and_then(|s| s.as_u64()) {
        ensure!(s == seed, "{}: seed {seed} reported", r.show());
    }
    check_report(r, &a.body)?;
    if let Some(d) = differ(&a.body, &optimize_answer(r, seed, &inputs(r)), "the report") {
        fail!("{} with seed {seed}: {d}", r.show());
    }
    Ok(())
}


fn c31(run: &mut Run) {
    run.assume("the evolution is that of the library (C18-C24) with the service's operators, run outside of the service with the same seed; results are compared as JSON, numbers to 1e-9");
    let stats = ["Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio"];
    let aggs = ["Linear", "Log10", "Log10Factored"];
    let seeds: &[u64] = if run.thorough() { &[0, 1, 2, 3, 5, 8, 13, 21, (1 << 53) + 1, u64::MAX] } else { &[0, 1, (1 << 53) + 1] };
    let sizes: &[(usize, usize, usize)] =
        if run.thorough() { &[(2, 0, 1), (2, 5, 2), (3, 1, 3), (3, 8, 1), (4, 12, 3), (6, 10, 9), (8, 20, 3), (16, 20, 16)] } else { &[(2, 0, 1), (3, 1, 3), (4, 6, 2), (6, 10, 9)] };
    let splits: [(&[&str], &[&str]); 4] = [(&["eth-btc"], &[]), (&["eth-btc", "ltc-btc"], &["eth-btc"]), (&["ltc-btc"], &["xmr-eth"]), (&["xmr-eth", "eth-btc", "btc-usdt"], &["ltc-btc", "xmr-eth"])];
    run.section_n("reports", &format!("{} seeds x {} combinations of population, generations and best list x 4 statistics x 3 aggregations x 4 splits of symbols x 1 or 2 intervals", seeds.len(), sizes.len()), 1, |ch| {
        let seed = *ch.of(seeds);
        let (pop, gens, best) = *ch.of(sizes);
        let (stat, agg) = (*ch.of(&stats), *ch.of(&aggs));
        let (t, v) = *ch.of(&splits);
        let mut r = optimize(W, t, v, Some(seed));
        for (k, x) in [("population_size", json!(pop)), ("generations", json!(gens)), ("hall_of_fame_size", json!(best)), ("evaluation_statistic", json!(stat)), ("evaluation_aggregation", json!(agg))] {
            r.body[k] = x;
        }
        if ch.flag() {
            r.body["context"]["trader"]["intervals"] = json!(["1h", 4 * HOUR]);
        }
        let r = [r];
        note!(ch, "{}", r[0].show());
        let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
        check_optimize(&r[0], &a[0])?;
        let n = a[0].body["generations"].as_array().unwrap().len();
        ch.hit(if n == gens + 1 { "all generations reported" } else { "some generations left out" });
        ch.state(H::new().s(&a[0].body["generations"].to_string()).get());
        ch.trans(r[0].queries().len());
        ch.validated();
        Ok(())
    });
    run.section_n("seeds", "no seed, then the reported one; the smallest and largest seeds as given", 1, |ch| {
        let seed = *ch.of(&[None, Some(0), Some(1), Some((1 << 53) - 1), Some((1 << 53) + 1), Some(1 << 63), Some(u64::MAX - 1), Some(u64::MAX)]);
        let split = *ch.of(&splits);
        let stat = *ch.of(&stats);
        let mut r = optimize(W, split.0, split.1, seed);
        r.body["evaluation_statistic"] = json!(stat);
        r.body["generations"] = json!(5);
        if seed.is_none() && ch.flag() {
            r.body["seed"] = json!(null);
        }
        let mut r = [r];
        let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
        check_optimize(&r[0], &a[0])?;
        r[0].body["seed"] = a[0].body["seed"].clone();
        r[0].body["exchange"] = json!(exchange(W));
        let b = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
        note!(ch, "{}", r[0].show());
        if let Some(d) = differ(&b[0].body, &a[0].body, "the report") {
            fail!("{}: sent again with the reported seed, {d}", r[0].show());
        }
        ch.state(H::new().u(seed.unwrap_or(7)).u(seed.is_some() as u64).s(&format!("{split:?}{stat}")).get());
        ch.trans(8);
        ch.validated();
        Ok(())
    });
    run.section_n("orders", "1 or 2 symbols and 1 or 2 intervals, up to 6 queries, x every order in which the data source's answers arrive", 1, |ch| {
        let (t, v, i): (&[&str], &[&str], Value) = match ch.pick(3) {
            0 => (&["eth-btc"], &["ltc-btc"], json!([HOUR])),
            1 => (&["eth-btc"], &["ltc-btc"], json!([HOUR, "4h"])),
            _ => (&["ltc-btc", "eth-btc"], &["xmr-eth"], json!([4 * HOUR])),
        };
        let mut r = optimize(W, t, v, Some(11));
        r.body["context"]["trader"]["intervals"] = i;
        let r = [r];
        let order = pick_order(ch, &r);
        note!(ch, "{} answered in the order {order:?}", r[0].show());
        let a = rigged(|rig| serve(rig, &r, &order, good))?;
        check_optimize(&r[0], &a[0])?;
        ch.state(H::new().s(&named(&order)).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
    run.section_n("interleavings", "two optimisations, or an optimisation and a backtest, at once x every interleaving of the data source's answers to both", 1, |ch| {
        let other = match ch.pick(3) {
            0 => optimize(W, &["eth-btc"], &[], Some(5)),
            1 => optimize(World { market: 1, version: 0 }, &["ltc-btc"], &[], Some(6)),
            _ => backtest(W, &["eth-btc"], follow(HOUR, 0)),
        };
        let r = [optimize(W, &["eth-btc"], &[], Some(5)), other];
        let order = pick_order(ch, &r);
        note!(ch, "{} and {} answered in the order {order:?}", r[0].show(), r[1].show());
        let a = rigged(|rig| serve(rig, &r, &order, good))?;
        check_good(&r[0], &a[0])?;
        check_good(&r[1], &a[1])?;
        ch.state(H::new().s(&named(&order)).s(&r[1].show()).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
    let kinds = genes::strategy_kinds();
    let deep = run.thorough();
    run.section_n("contexts", "28 strategies x stop losses x take profits, pinned whole, by kind, or not at all", 1, |ch| {
        let k = ch.of(&kinds).clone();
        let (sl, tp) = if deep {
            (*ch.of(&genes::STOP_LOSSES), *ch.of(&genes::TAKE_PROFITS))
        } else {
            *ch.of(&[("BasicPlusTrailing", "Basic"), ("Basic", "Legacy"), ("Legacy", "Noop"), ("Noop", "Trending"), ("Trailing", "Trending")])
        };
        let person = genes::individual(genes::strategy(&k, 0), 4 * HOUR, genes::stop_loss(sl, 0), genes::take_profit(tp, 0));
        let all = genes::genes(&person);
        let parts: Vec<String> = all.iter().filter(|g| genes::is_part(g.rsplit('/').next().unwrap())).cloned().collect();
        let pinned = match ch.pick(3) {
            0 => all,
            1 => parts,
            _ => vec![],
        };
        let mut r = optimize(W, &["eth-btc"], &["ltc-btc"], Some(17));
        r.body["context"] = genes::pinning(&person, &pinned, &[4 * HOUR]);
        r.body["hall_of_fame_size"] = json!(4);
        r.body["generations"] = json!(4);
        let r = [r];
        note!(ch, "{}", r[0].show());
        let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
        check_optimize(&r[0], &a[0])?;
        for g in a[0].body["generations"].as_array().unwrap() {
            for x in g["hall_of_fame"].as_array().unwrap() {
                let c = &x["individual"]["chromosome"];
                for p in &pinned {
                    let (want, got) = (person.pointer(p).unwrap(), c.pointer(p).unwrap_or(&Value::Null));
                    let same = if genes::is_part(p.rsplit('/').next().unwrap()) { want.get("type") == got.get("type") } else { want == got };
                    ensure!(same, "{}: {p} is {got} instead of {want}", r[0].show());
                }
            }
        }
        ch.state(H::new().s(&a[0].body["generations"].to_string()).get());
        ch.trans(4);
        ch.validated();
        Ok(())
    });
    let len = run.deep(3, 4);
    run.section_n("histories", &format!("a fresh process x every sequence of {len} requests out of 2 seeds, no seed, a failing one and another state of the market"), 1, |ch| {
        fresh();
        let name = exchange(W);
        let mut h = H::new();
        for n in 0..len {
            let what = ch.pick(5);
            let mut r = optimize(World { market: 0, version: (what == 4) as u64 }, &["eth-btc"], &["ltc-btc"], [Some(1), Some(2), None, Some(1), Some(1)][what]);
            r.body["exchange"] = json!(name);
            let r = [r];
            note!(ch, "request {n}: {what} {}", r[0].show());
            let a = rigged(|rig| serve(rig, &r, &plain_order(&r), |_, q, d| if what == 3 && *q == Query::Prices { fault(0, "x", d).0 } else { Reply::ok(&d) }))?;
            if what == 3 {
                check_error(&r[0], &a[0], &[])?;
            } else {
                check_optimize(&r[0], &a[0])?;
            }
            h = h.u(what as u64);
            ch.state(h.get());
            ch.trans(4);
        }
        ch.validated();
        Ok(())
    });
    run.section_n("info", "the statistics and aggregations on offer, before and after an optimisation that uses them", 1, |ch| {
        let get = || -> Result<Answer, Stop> {
            rigged(|_| Call::send("GET", "/optimize", "").map_err(|e| Stop::Fail(e.to_string()))?.finish(ANSWER).map_err(Stop::Fail))
        };
        let (s, g) = (ch.pick(4), ch.pick(3));
        let i = get()?;
        ensure!(i.status == 200, "status {}", i.status);
        let (offered, aggregations) = (strings(&i.body["evaluation_statistics"]), strings(&i.body["evaluation_aggregations"]));
        ensure!(offered == stats && aggregations == aggs, "on offer are {offered:?} and {aggregations:?}");
        let mut r = optimize(W, &["eth-btc"], &["ltc-btc"], Some(1));
        r.body["evaluation_statistic"] = json!(offered[s]);
        r.body["evaluation_aggregation"] = json!(aggregations[g]);
        let r = [r];
        let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
        check_optimize(&r[0], &a[0])?;
        ensure!(get()?.body == i.body, "the offer changed");
        note!(ch, "{}", i.body);
        ch.state(H::new().u((s * 3 + g) as u64).get());
        ch.trans(6);
        ch.validated();
        Ok(())
    });
    neighbourly(run, Kind::Optimize);
    crowds(run, Kind::Optimize);
    run.section_n("sizes", "up to 12 symbols divided in every way, 1 to 5 intervals, populations, generations and best lists of up to 60", 1, |ch| {
        let n = *ch.of(&[1usize, 2, 5, 12]);
        let training = 1 + ch.pick(n);
        let list = &SYMBOLS[3..3 + n];
        let intervals: Vec<u64> = [4, 1, 6, 2, 12][..1 + ch.pick(5)].iter().map(|h| h * HOUR).collect();
        let (pop, gens, best) = [(40, 12, 40), (7, 60, 4), (60, 3, 60)][(n + training + intervals.len()) % 3];
        let mut r = optimize(W, &list[..training], &list[training..], Some(23));
        for (k, x) in [("population_size", json!(pop)), ("generations", json!(gens)), ("hall_of_fame_size", json!(best)), ("context", json!({"trader": {"intervals": intervals}}))] {
            r.body[k] = x;
        }
        let r = [r];
        note!(ch, "{}", r[0].show());
        let a = rigged(|rig| serve(rig, &r, &plain_order(&r), good))?;
        check_optimize(&r[0], &a[0])?;
        ch.state(H::new().s(&a[0].body["generations"].to_string()).get());
        ch.trans(r[0].queries().len());
        ch.validated();
        Ok(())
    });
}


// ---- requests that make no sense ----

/// What the service takes for a request: the documented fields with the library's parameters.
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct BacktestFields {
    exchange: String,
    symbols: Vec<String>,
    start: Timestamp,
    end: Timestamp,
    quote: f64,
    trading: TradingParams,
}
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct OptimizeFields {
    population_size: usize,
    generations: usize,
    hall_of_fame_size: usize,
    seed: Option<u64>,
    exchange: String,
    start: Timestamp,
    end: Timestamp,
    quote: f64,
    training_symbols: Vec<String>,
    validation_symbols: Vec<String>,
    evaluation_statistic: EvaluationStatistic,
    evaluation_aggregation: EvaluationAggregation,
    context: TradingParamsContext,
}
/// What comes first in a body; the service does not look at what follows.
fn leading<T: serde::de::DeserializeOwned>(body: &[u8]) -> Option<T> {
    T::deserialize(&mut serde_json::Deserializer::from_slice(body)).ok()
}
/// The candle intervals of a request that can be read.
fn read(kind: Kind, body: &[u8]) -> Option<Vec<Interval>> {
    match kind {
        Kind::Backtest => leading::<BacktestFields>(body).map(|r| vec![r.trading.trader.interval]),
        Kind::Optimize => leading::<OptimizeFields>(body).map(|r| r.context.trader.intervals),
    }
}

/// How the data source takes what it does not know or what makes no sense.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Manner {
    Refuse,
    /// Nothing is there.
    Empty,
}
const MOST: u64 = 5_000;
/// The data source's answer to any query; the flag says that it is a refusal.
fn source(manner: Manner, p: &Pending) -> (Value, bool) {
    let b = &p.body;
    let no = |m: &str| (json!({ "message": m }), true);
    let t = |k: &str| serde_json::from_value::<Timestamp>(b[k].clone());
    if p.path == "/exchange_info" {
        return (serde_json::to_value(W.info()).unwrap(), false);
    }
    let (Ok(start), Ok(end), Ok(interval)) = (t("start"), t("end"), serde_json::from_value::<Interval>(b["interval"].clone())) else {
        return no("what span?");
    };
    let sane = interval.0 > 0 && start.0 <= end.0;
    if sane && (end.0 - start.0) / interval.0 > MOST {
        return no("too much");
    }
    match p.path.as_str() {
        "/candles" => {
            let known = b["symbol"].as_str().is_some_and(|s| SYMBOLS.contains(&s));
            match (sane && known, manner) {
                (true, _) => (serde_json::to_value(W.candles(b["symbol"].as_str().unwrap(), interval, start, end)).unwrap(), false),
                (_, Manner::Refuse) => no("no such candles"),
                _ => (json!([]), false),
            }
        }
        _ => match (sane, manner) {
            (true, _) => (serde_json::to_value(W.prices(&strings(&b["assets"]), start, end)).unwrap(), false),
            (_, Manner::Refuse) => no("no such prices"),
            _ => (serde_json::to_value(strings(&b["assets"]).into_iter().map(|a| (a, json!([]))).collect::<BTreeMap<_, _>>()).unwrap(), false),
        },
    }
}
struct Outcome {
    answer: Answer,
    /// What the data source was asked, and what it said.
    asked: Vec<(String, Value, Value)>,
    refused: bool,
}
/// Makes the call and answers whatever the service asks until it answers.
fn freely(rig: &mut Rig, manner: Manner, call: std::io::Result<Call>) -> Result<Outcome, Stop> {
    let core = rig.core.as_ref().unwrap();
    let call = match call {
        Ok(c) => c,
        Err(e) => fail!("the service does not accept requests: {e}"),
    };
    let (mut asked, mut refused) = (vec![], false);
    let until = Instant::now() + ANSWER;
    while Instant::now() < until {
        let done = core.wait(until.saturating_duration_since(Instant::now()), |p| if !p.is_empty() { Some(false) } else { call.answered().then_some(true) });
        if done != Some(false) {
            break;
        }
        if let Some(p) = core.take(|_| true) {
            let (v, no) = source(manner, &p);
            if stale(&p.body["exchange"]) {
                // An answered request no longer waits for this.
                p.answer(Reply::ok(&v));
                continue;
            }
            refused |= no;
            asked.push((p.path.clone(), p.body.clone(), v.clone()));
            p.answer(if no { Reply::Http(404, v.to_string().into_bytes()) } else { Reply::ok(&v) });
        }
    }
    let answer = match call.finish(Duration::from_millis(if Instant::now() < until { 20_000 } else { 10 })) {
        Ok(a) => a,
        Err(e) => fail!("{e}"),
    };
    core.clear();
    ANSWERED.store(SERIAL.load(Ordering::SeqCst), Ordering::SeqCst);
    Ok(Outcome { answer, asked, refused })
}
/// Exchanges numbered below this belong to requests that were answered.
static ANSWERED: AtomicU64 = AtomicU64::new(0);
fn stale(exchange: &Value) -> bool {
    let number = exchange.as_str().and_then(|e| e.split_once('-')).and_then(|e| e.1.parse::<u64>().ok());
    number.is_some_and(|n| n < ANSWERED.load(Ordering::SeqCst))
}

/// The refusal of what cannot be taken: the service did not act upon it.
fn check_refusal(show: &str, o: &Outcome) -> Res {
    ensure!((400..500).contains(&o.answer.status), "{show}: status {}: {}", o.answer.status, short(&o.answer.text));
    ensure!(o.asked.is_empty(), "{show}: the data source was asked {:?}", o.asked[0].0);
    Ok(())
}
/// Whatever the text, the answer to it is the right one or a refusal.
fn check_any(ch: &mut Ch, kind: Kind, manner: Manner, body: &[u8]) -> Res {
    let path = if kind == Kind::Backtest { "/backtest" } else { "/optimize" };
    let text = String::from_utf8_lossy(body).into_owned();
    let show = format!("{path} {}", text.chars().take(2_000).collect::<String>());
    note!(ch, "{show}, {manner:?}");
    let o = rigged(|rig| freely(rig, manner, Call::raw("POST", path, Some("application/json"), body)))?;
    ch.trans(1 + o.asked.len());
    ch.state(H::new().s(&text).u(manner as u64).u(kind as u64).get());
    let Some(intervals) = read(kind, body) else {
        ch.hit("cannot be read");
        return check_refusal(&show, &o);
    };
    let r = Request { kind, world: W, body: leading(body).unwrap() };
    for (path, asked, _) in &o.asked {
        let q = r.meant(path, asked);
        ensure!(
            asked["exchange"] == r.body["exchange"]
                && q.is_some_and(|q| match q {
                    Query::Candles(s, i) => r.symbols().contains(&s) && intervals.contains(&Interval(i)),
                    _ => true,
                }),
            "{show}: the service asks for {path} {asked}"
        );
    }
    let error = |why: &str| -> Res {
        let (s, m) = (o.answer.status, o.answer.body["message"].as_str().unwrap_or(""));
        ensure!((400..600).contains(&s) && !m.is_empty(), "{show}: {why}, but the answer has status {s}: {}", short(&o.answer.text));
        Ok(())
    };
    if let Some(s) = r.symbols().iter().find(|s| !s.contains('-')) {
        ch.hit("no symbol");
        return error(&format!("{s:?} is no symbol"));
    }
    if o.refused {
        ch.hit("refused by the data source");
        error("the data source refused")?;
        ensure!(o.answer.status == 500 && o.asked.iter().any(|q| q.2["message"].as_str().is_some_and(|m| o.answer.text.contains(m))), "{show}: its message is not in {}", short(&o.answer.text));
        return Ok(());
    }
    // The data as the source gave it.
    let mut data: Inputs = (trip(&W.info()), HashMap::new(), HashMap::new());
    for s in r.symbols() {
        let m = data.1.entry(s.clone()).or_default();
        for i in intervals.iter().copied() {
            let mut found = o.asked.iter().filter(|q| q.0 == "/candles" && q.1["symbol"] == json!(s) && serde_json::from_value::<Interval>(q.1["interval"].clone()).ok() == Some(i));
            match found.next() {
                Some(q) => m.insert(i, serde_json::from_value(q.2.clone()).unwrap()),
                None if o.answer.status != 200 => None,
                None => fail!("{show}: answered without the candles of {s}"),
            };
        }
    }
    match o.asked.iter().find(|q| q.0 == "/prices") {
        Some(q) => data.2 = serde_json::from_value(q.2.clone()).unwrap(),
        None if o.answer.status == 200 => fail!("{show}: answered without any prices"),
        None => {}
    }
    let nonsense = match kind {
        Kind::Backtest if data.1.values().any(|m| m.values().any(|c| !c.is_empty())) => mc::sense::trading(&parse(&r.body["trading"])).err(),
        Kind::Backtest => None,
        Kind::Optimize => {
            let n = |k: &str| r.body[k].as_u64();
            [("population_size", 2), ("hall_of_fame_size", 1)].iter().find(|(k, least)| n(k).is_some_and(|n| n < *least)).map(|(k, _)| format!("{k} is {}", r.body[k]))
        }
    };
    if let Some(why) = nonsense {
        ch.hit("makes no sense");
        return error(&why);
    }
    let seed = r.body["seed"].as_u64().or_else(|| o.answer.body["seed"].as_u64());
    if o.answer.status == 200 && kind == Kind::Optimize && seed.is_none() {
        fail!("{show}: no seed in {}", short(&o.answer.text));
    }
    let want = guarded(|| match kind {
        Kind::Backtest => {
            let p: TradingParams = parse(&r.body["trading"]);
            let quote = r.body["quote"].as_f64().unwrap();
            let m: BTreeMap<String, Statistics> = r.symbols().into_iter().map(|s| (s.clone(), symbol_stats(&p, &s, quote, &data))).collect();
            json!({ "symbol_stats": trip::<_, Value>(&m) })
        }
        Kind::Optimize => optimize_answer(&r, seed.unwrap_or(0), &data),
    });
    match want {
        Ok(want) => {
            ch.hit("good after all");
            ensure!(o.answer.status == 200, "{show}: status {}: {}", o.answer.status, short(&o.answer.text));
            if let Some(d) = differ(&o.answer.body, &want, "the answer") {
                fail!("{show}: {d}");
            }
            Ok(())
        }
        Err(e) if kind == Kind::Optimize && r.body["seed"].is_null() => {
            // Whether it fails may depend on the seed.
            ch.hit("impossible");
            ensure!(o.answer.status == 200 || !o.answer.body["message"].is_null(), "{show}: {e}, and status {} without a message", o.answer.status);
            Ok(())
        }
        Err(e) => {
            ch.hit("impossible");
            error(&e)
        }
    }
}

fn all_places(v: &Value) -> Vec<String> {
    fn go(v: &Value, at: String, out: &mut Vec<String>) {
        let mut each = |k: String, x: &Value| {
            out.push(format!("{at}/{k}"));
            go(x, format!("{at}/{k}"), out)
        };
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| each(k.clone(), x)),
            Value::Array(a) => a.iter().enumerate().for_each(|(k, x)| each(k.to_string(), x)),
            _ => {}
        }
    }
    let mut out = vec![String::new()];
    go(v, String::new(), &mut out);
    out
}
fn leave_out(v: &mut Value, at: &str) {
    let (p, k) = at.rsplit_once('/').unwrap();
    match v.pointer_mut(p).unwrap() {
        Value::Object(m) => {
            m.remove(k);
        }
        Value::Array(a) => {
            a.remove(k.parse().unwrap());
        }
        _ => unreachable!(),
    }
}
type StrategyKind = (String, String, String);
/// A sensible request with all there can be in it.
fn sensible(kind: Kind, k: &StrategyKind, sl: &str, tp: &str) -> Request {
    let person = genes::individual(genes::strategy(k, 0), 4 * HOUR, genes::stop_loss(sl, 0), genes::take_profit(tp, 0));
    match kind {
        Kind::Backtest => backtest(W, &["eth-btc", "ltc-btc"], person),
        Kind::Optimize => {
            let mut r = optimize(W, &["eth-btc"], &["ltc-btc"], Some(3));
            let all = genes::genes(&person);
            r.body["context"] = genes::pinning(&person, &all, &[4 * HOUR]);
            r
        }
    }
}

/// Serves the good request in the given order, with the bad one made after `when` answers.
fn between(rig: &mut Rig, r: &Request, order: &Queries, when: usize, times: usize, bad: &Request) -> Result<Answer, Stop> {
    let core = rig.core.as_ref().unwrap();
    let send = |r: &Request| Call::send("POST", r.path(), &r.body.to_string()).map_err(|e| Stop::Fail(format!("the service does not accept requests: {e}")));
    let call = send(r)?;
    let all = r.queries().len();
    for k in 0..=all {
        let mine = |p: &Pending| p.body["exchange"] == r.exchange();
        if !rig.sequential && core.wait(PATIENCE, |p| (p.iter().filter(|p| mine(p)).count() >= all - k).then_some(())).is_none() {
            one_at_a_time(&mut rig.sequential);
        }
        if k == when {
            for _ in 0..times {
                let c = send(bad)?;
                let until = Instant::now() + ANSWER;
                while core.wait(until.saturating_duration_since(Instant::now()), |p| if p.iter().any(|p| !mine(p)) { Some(true) } else { c.answered().then_some(false) }) == Some(true) {
                    if let Some(p) = core.take(|p| !mine(p)) {
                        let (v, no) = source(Manner::Refuse, &p);
                        p.answer(if no { Reply::Http(404, v.to_string().into_bytes()) } else { Reply::ok(&v) });
                    }
                }
                let a = c.finish(Duration::from_secs(1)).map_err(|e| Stop::Fail(format!("{}: {e}", bad.show())))?;
                ensure!((400..600).contains(&a.status), "{}: status {}", bad.show(), a.status);
            }
        }
        if k == all {
            break;
        }
        let q = order.iter().skip(k).chain(order).find_map(|(_, q)| core.take(|p| mine(p) && r.recognise(p).as_ref() == Some(q)));
        let q = match q {
            Some(p) => Some(p),
            None => core.wait(ANSWER, |p| p.iter().any(mine).then_some(())).and_then(|_| core.take(mine)),
        };
        let Some(p) = q else { fail!("{}: nothing is asked after {k} answers", r.show()) };
        let d = r.data(&p);
        p.answer(Reply::ok(&d));
        std::thread::sleep(GAP);
    }
    call.finish(ANSWER).map_err(Stop::Fail)
}

fn c34(run: &mut Run) {
    run.assume("what the library makes of a request that can be read is judged by the library itself, panics included, but for parameters that make no sense; populations that are huge but might fit into memory are not tried");
    run.assume("one service process; the data source refuses what it does not know, or answers that there is nothing");
    let values: Vec<Value> = vec![
        json!(null), json!(true), json!("x"), json!(""), json!(-1), json!(-50.5), json!(0), json!(1), json!(0.5), json!(1e300), json!([]), json!({}), json!([0]), json!("1h"), json!({"type": "x"}), json!("2020-01-02"),
    ];
    let kinds = genes::strategy_kinds();
    let deep = run.thorough();
    let some: Vec<StrategyKind> = if deep { kinds.clone() } else { [0, 9, 20, 27].iter().map(|i| kinds[*i % kinds.len()].clone()).collect() };
    run.section_n("places", &format!("a backtest and an optimisation with {} strategies, 5 stop losses and 4 take profits x every place in it left out, doubled or replaced by {} other values, then a good request", some.len(), values.len()), 1, |ch| {
        let kind = pick_kind(ch);
        let k = ch.of(&some).clone();
        let (sl, tp) = if deep { *ch.of(&[("BasicPlusTrailing", "Basic"), ("Basic", "Legacy"), ("Legacy", "Noop"), ("Noop", "Trending"), ("Trailing", "Trending")]) } else { ("BasicPlusTrailing", "Trending") };
        let mut r = sensible(kind, &k, sl, tp);
        let places = all_places(&r.body);
        let at = ch.of(&places).clone();
        let what = ch.pick(values.len() + 2);
        let text = if what < values.len() {
            *r.body.pointer_mut(&at).unwrap() = values[what].clone();
            r.body.to_string()
        } else if at.is_empty() {
            return Err(Stop::Prune);
        } else if what == values.len() {
            leave_out(&mut r.body, &at);
            r.body.to_string()
        } else {
            // The entry stands there twice.
            let (p, key) = at.rsplit_once('/').unwrap();
            let Value::Object(m) = r.body.pointer(p).unwrap() else { return Err(Stop::Prune) };
            let inner = json!(m).to_string();
            let entry = format!("{}:{}", json!(key), m[key]);
            let mark = "\u{1}MARK\u{1}";
            let mut b = r.body.clone();
            *b.pointer_mut(p).unwrap() = json!(mark);
            b.to_string().replace(&json!(mark).to_string(), &format!("{},{entry}}}", &inner[..inner.len() - 1]))
        };
        let manner = if deep { *ch.of(&[Manner::Refuse, Manner::Empty]) } else { Manner::Refuse };
        check_any(ch, kind, manner, text.as_bytes())?;
        afterwards(kind)?;
        ch.validated();
        Ok(())
    });
    let letters = ['a', '-', '\u{e9}', '"'];
    let mut names = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..run.deep(3, 5) {
        last = last.iter().flat_map(|s| letters.iter().map(move |c| format!("{s}{c}"))).collect();
        names.extend(last.clone());
    }
    names.extend(["ethbtc", "ETH-BTC", "eth-btc-x", "eth_btc", " eth-btc", "btc-eth", "eth-eth"].map(String::from));
    run.section_n("symbols", &format!("both requests x {} texts for a symbol, alone, before or after a good one, in each list x a data source that refuses or has nothing, then a good request", names.len()), 1, |ch| {
        let kind = pick_kind(ch);
        let s = ch.of(&names).clone();
        let list = ch.of(&[json!([s]), json!([s, "eth-btc"]), json!(["eth-btc", s])]).clone();
        let mut r = either(kind, &["eth-btc"]);
        let places: &[&str] = if kind == Kind::Backtest { &["symbols"] } else { &["training_symbols", "validation_symbols"] };
        r.body[*ch.of(places)] = list;
        let manner = *ch.of(&[Manner::Refuse, Manner::Empty]);
        check_any(ch, kind, manner, r.body.to_string().as_bytes())?;
        afterwards(kind)?;
        ch.validated();
        Ok(())
    });
    let times = [0, 1, START - 1, START, START + 1, START + HOUR, START + DAY, START + SPAN, START + SPAN + 1, u64::MAX / 2, u64::MAX];
    let lengths = [json!(0), json!(1), json!(HOUR), json!("1h"), json!(DAY), json!(10_000_000_000_000u64)];
    run.section_n("spans", &format!("both requests x every pair of {} times x {} intervals x a data source that refuses or has nothing, then a good request", times.len(), lengths.len()), 1, |ch| {
        let kind = pick_kind(ch);
        let mut r = either(kind, &["eth-btc"]);
        r.body["start"] = json!(*ch.of(&times));
        r.body["end"] = json!(*ch.of(&times));
        let i = ch.of(&lengths).clone();
        if kind == Kind::Backtest {
            r.body["trading"]["trader"]["interval"] = i;
        } else {
            r.body["context"]["trader"]["intervals"] = json!([i]);
        }
        let manner = *ch.of(&[Manner::Refuse, Manner::Empty]);
        check_any(ch, kind, manner, r.body.to_string().as_bytes())?;
        afterwards(kind)?;
        ch.validated();
        Ok(())
    });
    run.section_n("sizes", "optimisations with every population, best list and generations of 0 to 4 (5) x lists of none to 2 symbols, then a good request", 1, |ch| {
        let n = if deep { 6 } else { 5 };
        let mut r = optimize(W, &["eth-btc", "ltc-btc"][..ch.pick(3)], &["xmr-eth", "eth-btc"][..ch.pick(3)], Some(3));
        for k in ["population_size", "generations", "hall_of_fame_size"] {
            r.body[k] = json!(ch.pick(n));
        }
        check_any(ch, Kind::Optimize, Manner::Refuse, r.body.to_string().as_bytes())?;
        afterwards(Kind::Optimize)?;
        ch.validated();
        Ok(())
    });
    run.section_n("best of few", "optimisations of 2 or 4 individuals over none or 2 generations with best lists of 12 sizes from 5 to 2^64 - 1, then a good request", 1, |ch| {
        let mut r = optimize(W, &["eth-btc"], &["ltc-btc"], Some(3));
        r.body["population_size"] = json!(*ch.of(&[2, 4]));
        r.body["generations"] = json!(*ch.of(&[0, 2]));
        r.body["hall_of_fame_size"] = json!(*ch.of(&[5u64, 99, 1000, 65_536, 1 << 20, 1 << 40, (1 << 53) + 1, 1 << 56, 1 << 60, 1 << 61, u64::MAX - 1, u64::MAX]));
        check_any(ch, Kind::Optimize, Manner::Refuse, r.body.to_string().as_bytes())?;
        afterwards(Kind::Optimize)?;
        ch.validated();
        Ok(())
    });
    run.section_n("texts", "both requests cut off after every byte, followed or preceded by one of 8 texts, nested 1 to 100000 deep, then a good request", 1, |ch| {
        let kind = pick_kind(ch);
        let mut r = either(kind, &["eth-btc"]);
        r.body["exchange"] = json!("market");
        let whole = r.body.to_string().into_bytes();
        let odd: [&[u8]; 8] = [b"x", b"}", b",", b"{}", b"\0", b"\xff", b"\xef\xbb\xbf", b" "];
        let body = match ch.pick(4) {
            0 => whole[..ch.pick(whole.len())].to_vec(),
            1 => [&whole[..], *ch.of(&odd)].concat(),
            2 => [*ch.of(&odd), &whole[..]].concat(),
            _ => {
                let n = *ch.of(&[1usize, 100, 126, 127, 128, 129, 1_000, 100_000]);
                let (open, close) = *ch.of(&[("[", "]"), ("{\"a\":", "}"), ("{\"trading\":", "}")]);
                let inner = if ch.flag() { String::from_utf8(whole.clone()).unwrap() } else { "1".into() };
                (open.repeat(n) + &inner + &close.repeat(n)).into_bytes()
            }
        };
        check_any(ch, kind, Manner::Refuse, &body)?;
        afterwards(kind)?;
        ch.validated();
        Ok(())
    });
    run.section_n("ways", "5 methods x 8 paths x 6 content types x 3 bodies, then a good request", 1, |ch| {
        let method = *ch.of(&["POST", "GET", "PUT", "DELETE", "PATCH"]);
        let path = *ch.of(&["/", "/backtest", "/optimize", "/backtests", "/optimize/x", "/backtest/optimize", "/Backtest", "//backtest"]);
        let content = *ch.of(&[Some("application/json"), Some("application/json; charset=utf-8"), Some("text/plain"), Some("application/x-www-form-urlencoded"), Some(""), None]);
        let body = match ch.pick(3) {
            0 => either(Kind::Backtest, &["eth-btc"]).body.to_string(),
            1 => either(Kind::Optimize, &["eth-btc"]).body.to_string(),
            _ => String::new(),
        };
        let kind = match path {
            "/backtest" => Some(Kind::Backtest),
            "/optimize" => Some(Kind::Optimize),
            _ => None,
        };
        let show = format!("{method} {path} {content:?} {body}");
        note!(ch, "{show}");
        let o = rigged(|rig| freely(rig, Manner::Refuse, Call::raw(method, path, content, body.as_bytes())))?;
        let offered = method == "GET" && (path == "/" || path == "/optimize");
        let taken = method == "POST" && content.is_some_and(|c| c.starts_with("application/json")) && kind.is_some_and(|k| read(k, body.as_bytes()).is_some());
        if offered {
            ensure!(o.answer.status == 200 && o.asked.is_empty(), "{show}: status {}", o.answer.status);
        } else if taken {
            let r = Request { kind: kind.unwrap(), world: W, body: serde_json::from_str(&body).unwrap() };
            check_good(&r, &o.answer)?;
        } else {
            check_refusal(&show, &o)?;
        }
        afterwards(pick_kind(ch))?;
        ch.state(H::new().s(&show).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });
    let samples = mc::sense::samples();
    run.section_n("parameters", &format!("backtests with {} signals that make sense or break one rule each, alone and filtered, longer intervals, oscillators and trends that do or do not make sense, then a good request", samples.len()), 1, |ch| {
        let p = {
            use juno::strategies::*;
            use mc::tkit::*;
            let sig = *ch.of(&samples);
            let policy = juno::utils::MidTrendPolicy::Current;
            let s = match ch.pick(3) {
                0 => mc::sense::of(sig),
                1 => StrategyParams::Sig(SigParams { sig, persistence: 1, mid_trend_policy: policy, buffer_interval: *ch.of(&[None, Some(Interval(0)), Some(Interval(HOUR / 2)), Some(Interval(4 * HOUR)), Some(Interval(8 * DAY))]) }),
                _ => StrategyParams::SigOsc(sig_osc(sig, *ch.of(&[
                    OscillatorParams::Rsi(RsiParams { period: 2, up_threshold: 70.0, down_threshold: 30.0 }),
                    OscillatorParams::Rsi(RsiParams { period: 0, up_threshold: 70.0, down_threshold: 30.0 }),
                    OscillatorParams::Stoch(stoch_params(0, 1, 1, 70.0, 30.0)),
                    OscillatorParams::Stoch(stoch_params(2, 1, 0, 70.0, 30.0)),
                ]), "Prevent", 0, policy)),
            };
            params(s, HOUR, NO_SL, if ch.flag() { tp_trending((0.01, 0.02), (0.01, 0.02), ch.pick(2) as u32, false, "Linear") } else { NO_TP })
        };
        let r = backtest(W, &["eth-btc"], serde_json::to_value(p).unwrap());
        check_any(ch, Kind::Backtest, Manner::Refuse, r.body.to_string().as_bytes())?;
        afterwards(Kind::Backtest)?;
        ch.validated();
        Ok(())
    });
    run.section_n("too large", "a service that may have 16 GB: backtests with each kind of moving average, weeks and a stochastic over 2^30 to 2^32-1 candles find no positions, optimisations of 2^36 to 2^64-1 individuals are refused, ones over 2^40 generations leave others be; each followed by a good request", 1, |ch| {
        let check_after = |ch: &mut Ch| -> Res {
            afterwards(pick_kind(ch))?;
            ch.validated();
            Ok(())
        };
        match ch.pick(3) {
            0 => {
                use juno::strategies::*;
                use mc::tkit::*;
                let n = *ch.of(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 30]);
                let s = match ch.pick(mc::sense::MA_KINDS + 2) {
                    0 => StrategyParams::FourWeekRule(FourWeekRuleParams { period: n, ma: sma(1) }),
                    1 => StrategyParams::DoubleMAStoch(DoubleMAStochParams { double_ma: double_ma(sma(1), sma(2)), stoch: stoch_params(n, 1, 1, 60.0, 40.0) }),
                    k => StrategyParams::SingleMA(SingleMAParams { ma: mc::sense::kind_of_ma(k - 2, n) }),
                };
                let r = backtest(W, &["eth-btc"], serde_json::to_value(params(s, HOUR, NO_SL, NO_TP)).unwrap());
                note!(ch, "{}", r.show());
                ch.state(H::new().s(&r.body["trading"].to_string()).get());
                ch.trans(1);
                let o = rigged(|rig| freely(rig, Manner::Refuse, Call::raw("POST", r.path(), Some("application/json"), r.body.to_string().as_bytes())))?;
                ensure!(o.answer.status == 200, "{}: status {}: {}", r.show(), o.answer.status, short(&o.answer.text));
                ensure!(o.answer.body["symbol_stats"]["eth-btc"]["positions"] == json!([]), "{}: positions in {}", r.show(), short(&o.answer.text));
            }
            1 => {
                let mut r = optimize(W, &["eth-btc"], &["ltc-btc"], Some(3));
                r.body["population_size"] = json!(*ch.of(&[1u64 << 36, 1 << 40, 1 << 60, 1 << 63, u64::MAX]));
                r.body["generations"] = json!(*ch.of(&[0u64, 2, u64::MAX]));
                note!(ch, "{}", r.show());
                ch.state(H::new().s(&r.body.to_string()).get());
                ch.trans(1);
                let o = rigged(|rig| freely(rig, Manner::Refuse, Call::raw("POST", r.path(), Some("application/json"), r.body.to_string().as_bytes())))?;
                ensure!(o.answer.status >= 400 && o.answer.body["message"].is_string(), "{}: status {}: {}", r.show(), o.answer.status, short(&o.answer.text));
            }
            _ => {
                let mut r = optimize(W, &["eth-btc"], &["ltc-btc"], Some(3));
                r.body["generations"] = json!(*ch.of(&[1u64 << 40, 1 << 60, u64::MAX - 1, u64::MAX]));
                note!(ch, "{}", r.show());
                ch.state(H::new().s(&r.body.to_string()).get());
                ch.trans(1);
                // Gets its data and is never done. Its service is not used again.
                rigged(|rig| -> Res {
                    let call = Call::send("POST", r.path(), &r.body.to_string()).map_err(|e| Stop::Fail(format!("the service does not accept requests: {e}")))?;
                    let core = rig.core.as_ref().unwrap();
                    let until = Instant::now() + Duration::from_millis(300);
                    while Instant::now() < until {
                        if core.wait(Duration::from_millis(20), |p| (!p.is_empty()).then_some(())).is_some() {
                            for p in core.take(|_| true) {
                                let (d, _) = source(Manner::Refuse, &p);
                                p.answer(Reply::ok(&d));
                            }
                        }
                    }
                    ensure!(!call.answered(), "{}: is done at once: {}", r.show(), call.finish(ANSWER).map_or_else(|e| e, |a| short(&a.text)));
                    ensure!(rig._service.alive(), "{}: ends the service", r.show());
                    Ok(())
                })?;
                check_after(ch)?;
                fresh();
                return Ok(());
            }
        }
        check_after(ch)
    });
    let bads: [(Kind, &str, Value); 6] = [
        (Kind::Backtest, "/quote", json!("x")),
        (Kind::Backtest, "/symbols/0", json!("ethbtc")),
        (Kind::Backtest, "/symbols/0", json!("no-such")),
        (Kind::Backtest, "/trading/strategy/mas/0/period", json!(0)),
        (Kind::Optimize, "/training_symbols/0", json!("ethbtc")),
        (Kind::Optimize, "/context/trader/intervals", json!([])),
    ];
    run.section_n("meanwhile", "a good backtest or optimisation of one symbol, its 3 queries answered in every order, x 6 requests that make no sense, each made and answered before, between or after these answers, once or twice", 1, |ch| {
        let kind = pick_kind(ch);
        let (k, at, v) = ch.of(&bads).clone();
        let mut bad = either(k, &["eth-btc"]);
        *bad.body.pointer_mut(at).unwrap() = v;
        let bad = bad;
        let r = [either(kind, &["ltc-btc"])];
        let order = pick_order(ch, &r);
        let when = ch.pick(4);
        let times = 1 + ch.pick(2);
        note!(ch, "{} answered in the order {order:?}, {} {times} times after {when} answers", r[0].show(), bad.show());
        let a = rigged(|rig| between(rig, &r[0], &order, when, times, &bad))?;
        check_good(&r[0], &a)?;
        ch.state(H::new().s(&named(&order)).u((when * 2 + times) as u64).s(&bad.show()).get());
        ch.trans(order.len());
        ch.validated();
        Ok(())
    });
}

fn main() {
    main_with(&[("C29", c29), ("C30", c30), ("C31", c31), ("C34", c34), ("C35", web_ways::c35)]);
}
