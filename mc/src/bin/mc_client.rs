//! The data source's client (juno::clients::juno_core) against a controlled data source: C33.
use juno::clients::juno_core::{Client, Error, GetExchangeInfo, ListCandles, MapAssetPrices};
use juno::{CandleType, Interval, Timestamp};
use mc::explore::*;
use mc::tkit::{DAY, HOUR};
use mc::util::*;
use mc::web::*;
use mc::{ensure, fail, note};
use serde_json::{json, Value};
use std::sync::Arc;
use std::time::Duration;
use tokio::runtime::Runtime;
use tokio::task::JoinHandle;

const PATIENCE: Duration = Duration::from_secs(20);

struct Rig {
    core: Core,
    runtime: Runtime,
}
thread_local! {
    /// Never dropped: a runtime cannot go down together with its thread.
    static RIG: &'static Rig = Box::leak(Box::new(Rig {
        core: Core::start_anywhere().expect("harness: no port"),
        runtime: tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap(),
    }));
}
fn with_rig<T>(f: impl FnOnce(&Rig) -> T) -> T {
    RIG.with(|rig| f(rig))
}

// ---- the five queries ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Method {
    Info,
    Candles,
    Gaps,
    Intervals,
    Prices,
}
const METHODS: [Method; 5] = [Method::Info, Method::Candles, Method::Gaps, Method::Intervals, Method::Prices];
impl Method {
    fn path(self) -> &'static str {
        match self {
            Method::Info => "/exchange_info",
            Method::Candles => "/candles",
            Method::Gaps => "/candles_fill_missing_with_none",
            Method::Intervals => "/candle_intervals",
            Method::Prices => "/prices",
        }
    }
}

#[derive(Clone, Debug)]
struct Ask {
    method: Method,
    exchange: String,
    symbol: String,
    assets: Vec<String>,
    target: String,
    interval: u64,
    start: u64,
    end: u64,
    heikin: bool,
}
impl Ask {
    fn plain(method: Method, exchange: &str) -> Ask {
        Ask {
            method,
            exchange: exchange.into(),
            symbol: "eth-btc".into(),
            assets: vec!["eth".into(), "btc".into()],
            target: "usdt".into(),
            interval: HOUR,
            start: 18_262 * DAY,
            end: 18_262 * DAY + 5 * HOUR,
            heikin: false,
        }
    }
    /// What has to be sent.
    fn body(&self) -> Value {
        match self.method {
            Method::Info | Method::Intervals => json!({ "exchange": self.exchange }),
            Method::Candles | Method::Gaps => json!({
                "exchange": self.exchange, "symbol": self.symbol, "interval": self.interval, "start": self.start, "end": self.end,
                "type_": if self.heikin { "heikin-ashi" } else { "regular" },
            }),
            Method::Prices => json!({
                "exchange": self.exchange, "assets": self.assets, "interval": self.interval, "start": self.start, "end": self.end,
                "target_asset": self.target,
            }),
        }
    }
}

#[derive(Debug)]
enum Failure {
    Api { status: u16, url: String, message: String },
    Other(String),
}
type Got = Result<Value, Failure>;

/// Asks, and gives what came back as JSON (what was read is written again).
async fn ask(client: Arc<Client>, a: Ask) -> Got {
    let type_ = if a.heikin { CandleType::HeikinAshi } else { CandleType::Regular };
    let (interval, start, end) = (Interval(a.interval), Timestamp(a.start), Timestamp(a.end));
    let candles = ListCandles { exchange: &a.exchange, symbol: &a.symbol, interval, start, end, type_ };
    let value = |v: serde_json::Result<Value>| v.map_err(|e| Failure::Other(format!("harness: {e}")));
    let fail = |e: Error| match e {
        Error::Api { status, url, message } => Failure::Api { status: status.as_u16(), url: url.to_string(), message },
        e => Failure::Other(e.to_string()),
    };
    match a.method {
        Method::Info => value(serde_json::to_value(client.get_exchange_info(GetExchangeInfo { exchange: &a.exchange }).await.map_err(fail)?)),
        Method::Candles => value(serde_json::to_value(client.list_candles(candles).await.map_err(fail)?)),
        Method::Gaps => value(serde_json::to_value(client.list_candles_fill_missing_with_none(candles).await.map_err(fail)?)),
        Method::Intervals => value(serde_json::to_value(client.list_candle_intervals(GetExchangeInfo { exchange: &a.exchange }).await.map_err(fail)?)),
        Method::Prices => {
            let assets: Vec<&str> = a.assets.iter().map(String::as_str).collect();
            let request = MapAssetPrices { exchange: &a.exchange, assets: &assets, interval, start, end, target_asset: &a.target };
            value(serde_json::to_value(client.map_asset_prices(request).await.map_err(fail)?))
        }
    }
}

fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64() == y.as_f64(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        _ => a == b,
    }
}

fn candle(time: u64, k: u64) -> Value {
    let p = 8.0 + k as f64 / 4.0;
    json!({ "time": time, "open": p, "high": p + 2.0, "low": p - 2.0, "close": p + 1.0, "volume": k as f64 + 0.5 })
}
fn info(k: u64) -> Value {
    let f = k as f64;
    let (mut assets, mut fees, mut filters, mut borrow) = (json!({}), json!({}), json!({}), json!({}));
    for (i, s) in ["eth-btc", "ltc-btc", "xmr-eth"].iter().enumerate().take(1 + k as usize % 3) {
        let g = f + i as f64;
        assets[&s[..3]] = json!({ "precision": k + i as u64 });
        fees[*s] = json!({ "maker": g / 64.0, "taker": g / 32.0 });
        filters[*s] = json!({
            "price": { "min": g, "max": g + 100.0, "step": 0.25 }, "size": { "min": g / 4.0, "max": g + 50.0, "step": 0.125 },
            "base_precision": 2 + k, "quote_precision": 8 - (k % 4),
        });
        borrow[*s] = json!({ &s[..3]: { "interest_interval": (1 + k) * HOUR, "interest_rate": g / 1024.0, "limit": 10.0 + g } });
        borrow["margin"] = json!({ "btc": { "interest_interval": DAY, "interest_rate": 0.5, "limit": g } });
    }
    json!({ "assets": assets, "fees": fees, "filters": filters, "borrow_info": borrow })
}
/// An answer that differs for every k, with the parts that are there chosen by `mask`.
fn answer(a: &Ask, k: u64, mask: u64) -> Value {
    let there = |i: u64| mask >> i & 1 == 1;
    match a.method {
        Method::Info => info(mask + k),
        Method::Candles => (0..5).filter(|i| there(*i)).map(|i| candle(a.start + i * a.interval, k + i)).collect(),
        Method::Gaps => (0..5).map(|i| if there(i) { candle(a.start + i * a.interval, k + i) } else { Value::Null }).collect(),
        Method::Intervals => (0..5).filter(|i| there(*i)).map(|i| json!([1, 60_000, HOUR + k, DAY, 7 * DAY][i as usize])).collect(),
        Method::Prices => {
            let assets = ["eth", "btc", "ltc", "a b", "é"];
            Value::Object((0..5).filter(|i| there(*i)).map(|i| (assets[i as usize].to_string(), json!((0..i).map(|d| (k + d) as f64 / 8.0).collect::<Vec<_>>()))).collect())
        }
    }
}

struct Flight {
    ask: Ask,
    handle: JoinHandle<Got>,
}
impl Rig {
    fn url(&self, prefix: &str) -> String {
        format!("http://{}{prefix}", self.core.addr())
    }
    fn client(&self, prefix: &str) -> Arc<Client> {
        Arc::new(Client::new(&self.url(prefix)))
    }
    fn send(&self, client: &Arc<Client>, a: Ask) -> Flight {
        Flight { handle: self.runtime.spawn(ask(client.clone(), a.clone())), ask: a }
    }
    /// The query that has to have come of it.
    fn query(&self, f: &Flight, prefix: &str) -> Result<Pending, Stop> {
        let path = format!("{prefix}{}", f.ask.method.path());
        let mine = |p: &Pending| p.path == path && p.body["exchange"] == json!(f.ask.exchange);
        if self.core.wait(PATIENCE, |all| all.iter().any(mine).then_some(())).is_none() {
            let seen = self.core.wait(Duration::ZERO, |all| Some(all.iter().map(|p| format!("{} {} {}", p.method, p.path, p.body)).collect::<Vec<_>>()));
            self.core.clear();
            return Err(Stop::Fail(format!("no query to {path} for {:?} arrives, pending are {seen:?}", f.ask)));
        }
        let p = self.core.take(mine).unwrap();
        if p.method != "POST" || !same(&p.body, &f.ask.body()) {
            return Err(Stop::Fail(format!("asked {} {path} {} instead of {}", p.method, p.body, f.ask.body())));
        }
        Ok(p)
    }
    fn finish(&self, f: Flight) -> Result<Got, Stop> {
        match self.runtime.block_on(async { tokio::time::timeout(PATIENCE, f.handle).await }) {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(Stop::Fail(format!("{:?}: the client panicked: {e}", f.ask))),
            Err(_) => Err(Stop::Fail(format!("{:?}: the client gives nothing back", f.ask))),
        }
    }
}

fn expect(a: &Ask, got: Got, want: &Value) -> Res {
    match got {
        Ok(v) if same(&v, want) => Ok(()),
        r => fail!("{a:?}: answered {want}, given back {r:?}"),
    }
}

// ---- faults ----

#[derive(Clone, Debug)]
struct Fault {
    name: &'static str,
    reply: Reply,
    /// Of a client error with a message: both have to come through.
    api: Option<(u16, String)>,
}
/// `good` is an answer that would be right.
fn faults(good: &Value, statuses: &[u16]) -> Vec<Fault> {
    let text = good.to_string().into_bytes();
    let mut out = vec![];
    for &s in statuses {
        for (m, extra) in [("no such exchange", false), ("", false), ("\"ünïcode\"\n", true)] {
            let mut b = json!({ "message": m });
            if extra {
                b["detail"] = json!([1, 2]);
            }
            let api = (400..500).contains(&s).then(|| (s, m.to_string()));
            out.push(Fault { name: "error with message", reply: Reply::Http(s, b.to_string().into_bytes()), api });
        }
        out.push(Fault { name: "error with the good answer", reply: Reply::Http(s, text.clone()), api: None });
        out.push(Fault { name: "error without body", reply: Reply::Http(s, vec![]), api: None });
        out.push(Fault { name: "error with other text", reply: Reply::Http(s, b"<html>".to_vec()), api: None });
        out.push(Fault { name: "error with other JSON", reply: Reply::Http(s, b"{\"error\":\"x\"}".to_vec()), api: None });
    }
    for b in ["", "null", "7", "\"x\"", "true", "{\"message\":\"x\"}", "[{}]", "[[]]", "{\"eth\":1}", "[\"1\",{}]", "<html>"] {
        out.push(Fault { name: "success with something else", reply: Reply::Http(200, b.as_bytes().to_vec()), api: None });
    }
    // Every truncation of the answer that is not one itself.
    for n in 0..text.len() {
        if n % 16 == 0 || n + 3 > text.len() {
            out.push(Fault { name: "success cut off", reply: Reply::Http(200, text[..n].to_vec()), api: None });
        }
    }
    out.push(Fault { name: "success and more", reply: Reply::Http(200, [&text[..], b"]"].concat()), api: None });
    out.push(Fault { name: "connection ends within the body", reply: Reply::Short(text.clone()), api: None });
    out.push(Fault { name: "not HTTP", reply: Reply::Raw(text), api: None });
    out.push(Fault { name: "connection closes", reply: Reply::Close, api: None });
    out
}
fn expect_failure(a: &Ask, got: Got, f: &Fault, url: &str) -> Res {
    match (got, &f.api) {
        (Ok(v), _) => fail!("{a:?}: made {v} of a failure ({})", f.name),
        (Err(Failure::Other(m)), None) if m.starts_with("harness") => fail!("{m}"),
        (Err(Failure::Api { status, url: u, message }), Some((s, m))) => {
            ensure!(status == *s && message == *m && u == url, "{a:?}: answered {s} {m:?} by {url}, given back {status} {message:?} by {u}");
            Ok(())
        }
        (Err(Failure::Api { message, .. }), None) => fail!("{a:?}: made up the message {message:?} ({})", f.name),
        (Err(Failure::Other(e)), Some((s, m))) => fail!("{a:?}: the message {m:?} of status {s} is lost: {e}"),
        (Err(_), None) => Ok(()),
    }
}

fn c33(run: &mut Run) {
    run.assume("times and intervals are asked for in milliseconds; connections that stay silent are not judged (the client sets no timeout)");
    let (exchanges, symbols) = (["binance", "", "a/b?c=\"d\" é"], ["eth-btc", "a-b-c é", ""]);

    let intervals = [1, HOUR, 7 * DAY, 2_629_746_000];
    let times = [(0, 0), (0, 5 * DAY), (18_262 * DAY, 18_267 * DAY), (18_262 * DAY + 1, u64::MAX >> 11)];
    let deep = run.thorough();
    let bound = "5 queries x 3 exchanges x 3 symbols (asset lists) x 4 intervals x 4 spans x 2 candle types x address with and without a path x all and none there";
    run.section("queries", bound, |ch| {
        let method = *ch.of(&METHODS);
        let mut a = Ask::plain(method, exchanges[ch.pick(3)]);
        if !matches!(method, Method::Info | Method::Intervals) {
            a.interval = *ch.of(&intervals);
            (a.start, a.end) = *ch.of(&times);
            if method == Method::Prices {
                let n = ch.pick(4);
                a.assets = ["eth", "btc", "é \"", "eth"][..n].iter().map(|s| s.to_string()).collect();
                a.target = ch.of(&["usdt", "btc", ""]).to_string();
            } else {
                a.symbol = symbols[ch.pick(3)].to_string();
                a.heikin = ch.flag();
            }
        }
        let prefix = *ch.of(&["", "/juno/v1"]);
        let mut b = Ask { start: a.start, ..a.clone() };
        // The answer stays within what times can express.
        b.start = b.start.min(1 << 50);
        let want = answer(&b, 0, if ch.flag() { 31 } else { 0 });
        with_rig(|rig| {
            let f = rig.send(&rig.client(prefix), a.clone());
            rig.query(&f, prefix)?.answer(Reply::ok(&want));
            let got = rig.finish(f)?;
            note!(ch, "{a:?} -> {got:?}");
            expect(&a, got, &want)?;
            ch.state(H::new().s(&a.body().to_string()).s(prefix).get());
            ch.validated();
            Ok(())
        })
    });

    run.section("answers", "5 queries x every selection of what may be there (5 candles, gaps, intervals or assets; exchanges of 1 to 3 symbols) x 3 sets of values x one after the other or each by a client of its own", |ch| {
        let method = *ch.of(&METHODS);
        let a = Ask::plain(method, "x");
        let own = ch.flag();
        let k = ch.pick(3) as u64 * 5;
        // The second answer must not show anything of the first one.
        let masks = [ch.pick(32) as u64, ch.pick(if deep { 32 } else { 4 }) as u64 * if deep { 1 } else { 9 }];
        with_rig(|rig| {
            let mut client = rig.client("");
            for m in masks {
                if own {
                    client = rig.client("");
                }
                let want = answer(&a, k, m);
                let f = rig.send(&client, a.clone());
                rig.query(&f, "")?.answer(Reply::ok(&want));
                expect(&a, rig.finish(f)?, &want)?;
                ch.state(H::new().s(&want.to_string()).get());
                ch.trans(1);
                ch.validated();
            }
            Ok(())
        })
    });

    let most = run.deep(4, 5);
    let bound = format!("the 3 queries answered with lists x every list of up to {most} of 3 elements (a candle, another one of the same values, a gap; 3 intervals), in any order and repeated; prices of an asset likewise");
    run.section("lists", &bound, |ch| {
        let method = *ch.of(&[Method::Candles, Method::Gaps, Method::Intervals, Method::Prices]);
        let a = Ask::plain(method, "x");
        let twin = |t: u64, k: u64| {
            let mut c = candle(a.start, k);
            c["time"] = json!(t);
            c
        };
        let kinds: [Value; 3] = match method {
            Method::Candles => [twin(a.start, 1), twin(a.start + a.interval, 1), twin(a.start + 7, 2)],
            Method::Gaps => [twin(a.start, 1), Value::Null, twin(a.start + a.interval, 1)],
            Method::Intervals => [json!(DAY), json!(1), json!(HOUR)],
            _ => [json!(0.0), json!(2.5), json!(-1.0)],
        };
        let n = ch.pick(most + 1);
        let list: Vec<Value> = (0..n).map(|_| ch.of(&kinds).clone()).collect();
        let want = if method == Method::Prices { json!({ "eth": list, "btc": [1.0] }) } else { json!(list) };
        with_rig(|rig| {
            let f = rig.send(&rig.client(""), a.clone());
            rig.query(&f, "")?.answer(Reply::ok(&want));
            let got = rig.finish(f)?;
            note!(ch, "{a:?} -> {got:?}");
            expect(&a, got, &want)?;
            ch.state(H::new().s(&want.to_string()).get());
            ch.trans(1);
            ch.validated();
            Ok(())
        })
    });

    let sizes = [9u64, 99, 100, 101, 255, 256, 499, 500, 501, 999, 1000, 1001, 1024, 1440, 1500, 2048, 4096, 10_000];
    run.section("sizes", "5 queries x answers of 18 sizes (9 to 10000 candles, gaps, intervals, prices; as many assets, symbols and characters, in what is asked for too) x good or a refusal whose message has as many characters, twice by one client", |ch| {
        let method = *ch.of(&METHODS);
        let n = *ch.of(&sizes);
        let mut a = Ask::plain(method, "x");
        a.end = a.start + n * a.interval;
        if method == Method::Prices {
            a.assets = (0..n.min(300)).map(|i| format!("a{i}")).collect();
        }
        a.symbol = format!("{}-btc", "s".repeat(n as usize / 8));
        let list: Vec<Value> = (0..n)
            .map(|i| match method {
                Method::Candles => candle(a.start + i * a.interval, i % 1000),
                Method::Gaps if i % 3 == 1 => Value::Null,
                Method::Gaps => candle(a.start + i * a.interval, i % 1000),
                Method::Intervals => json!(1000 * (i + 1)),
                _ => json!(i as f64 / 4.0),
            })
            .collect();
        let want = match method {
            Method::Info => {
                let mut v = info(1);
                for i in 0..n.min(1500) {
                    let (s, f) = (format!("a{i}-btc"), i as f64);
                    v["assets"][&s[..s.len() - 4]] = json!({ "precision": i % 9 });
                    v["fees"][&s] = json!({ "maker": f / 8192.0, "taker": f / 16384.0 });
                    v["filters"][&s] = json!({
                        "price": { "min": f, "max": f + 100.0, "step": 0.25 }, "size": { "min": f / 4.0, "max": f + 50.0, "step": 0.125 },
                        "base_precision": i % 9, "quote_precision": i % 7,
                    });
                    v["borrow_info"][&s] = json!({ "btc": { "interest_interval": HOUR * (i + 1), "interest_rate": f / 1024.0, "limit": f } });
                }
                v
            }
            Method::Prices => {
                let mut v = json!({});
                for i in 0..n.min(300) {
                    v[format!("a{i}")] = json!([i as f64, 1.0]);
                }
                v["a0"] = json!(list);
                v
            }
            _ => json!(list),
        };
        let refused = ch.flag();
        let message: String = "sorry, é ".chars().cycle().take(n as usize).collect();
        with_rig(|rig| {
            let client = rig.client("");
            for again in [false, true] {
                let f = rig.send(&client, a.clone());
                let q = rig.query(&f, "")?;
                if refused && !again {
                    let fault = Fault { name: "client error", reply: Reply::Http(404, json!({ "message": message }).to_string().into_bytes()), api: Some((404, message.clone())) };
                    q.answer(fault.reply.clone());
                    expect_failure(&a, rig.finish(f)?, &fault, &(rig.url("") + method.path()))?;
                } else {
                    q.answer(Reply::ok(&want));
                    match rig.finish(f)? {
                        Ok(v) if same(&v, &want) => {}
                        Ok(v) => fail!("{method:?} answered with {n}: {} bytes of JSON given back differ from the {} of the answer", v.to_string().len(), want.to_string().len()),
                        Err(e) => fail!("{method:?} answered with {n}: {e:?}"),
                    }
                }
            }
            note!(ch, "{method:?} {n} refused {refused}");
            ch.state(H::new().s(method.path()).u(n).u(refused as u64).get());
            ch.trans(2);
            ch.validated();
            Ok(())
        })
    });

    let statuses: Vec<u16> = if deep { (400..600).collect() } else { vec![400, 401, 403, 404, 408, 409, 418, 422, 429, 451, 499, 500, 501, 502, 503, 504, 599] };
    let bound = format!("5 queries x {} error statuses x 7 bodies, 11 other bodies, truncations, broken connections, then a good query by the same client", statuses.len());
    run.section("faults", &bound, |ch| {
        let method = *ch.of(&METHODS);
        let prefix = *ch.of(&["", "/p"]);
        let a = Ask::plain(method, "x");
        let want = answer(&a, 1, 31);
        let all = faults(&want, &statuses);
        // What is an answer to this query after all.
        let fine = |f: &Fault| matches!(&f.reply, Reply::Http(200, b) if serde_json::from_slice::<Value>(b).is_ok_and(|v| match method {
            Method::Prices => v == json!({}),
            Method::Intervals => v == json!([]),
            _ => false,
        }));
        let f = ch.of(&all).clone();
        if fine(&f) {
            return Err(Stop::Prune);
        }
        ch.hit(f.name);
        with_rig(|rig| {
            let client = rig.client(prefix);
            let url = rig.url(prefix) + method.path();
            let q = rig.send(&client, a.clone());
            rig.query(&q, prefix)?.answer(f.reply.clone());
            let got = rig.finish(q)?;
            note!(ch, "{a:?}, {f:?} -> {got:?}");
            expect_failure(&a, got, &f, &url)?;
            let q = rig.send(&client, a.clone());
            rig.query(&q, prefix)?.answer(Reply::ok(&want));
            expect(&a, rig.finish(q)?, &want)?;
            ch.state(H::new().s(&format!("{a:?}{f:?}")).get());
            ch.validated();
            Ok(())
        })
    });

    let n = run.deep(3, 4);
    let bound = format!("{n} queries of every kind (the same one repeated included) in flight at once on one client, one of them possibly failing in 4 ways, x every order of the answers");
    run.section("in flight", &bound, |ch| {
        let methods: Vec<Method> = (0..n).map(|_| *ch.of(&METHODS)).collect();
        let bad = ch.pick(n + 1);
        let how = if bad < n { ch.pick(4) } else { 0 };
        with_rig(|rig| {
            let client = rig.client("");
            let mut flights: Vec<Option<Flight>> = vec![];
            let mut queries: Vec<(usize, Pending)> = vec![];
            for (i, m) in methods.iter().enumerate() {
                let f = rig.send(&client, Ask::plain(*m, &format!("x{i}")));
                queries.push((i, rig.query(&f, "")?));
                flights.push(Some(f));
            }
            while !queries.is_empty() {
                let (i, q) = queries.remove(ch.pick(queries.len()));
                let f = flights[i].take().unwrap();
                let a = f.ask.clone();
                let want = answer(&a, 3 * i as u64, 31 - (1 << i));
                if i == bad {
                    let fault = match how {
                        0 => Fault { name: "client error", reply: Reply::Http(404, br#"{"message":"gone"}"#.to_vec()), api: Some((404, "gone".into())) },
                        1 => Fault { name: "server error", reply: Reply::Http(503, br#"{"message":"busy"}"#.to_vec()), api: None },
                        2 => Fault { name: "connection ends within the body", reply: Reply::Short(want.to_string().into_bytes()), api: None },
                        _ => Fault { name: "connection closes", reply: Reply::Close, api: None },
                    };
                    q.answer(fault.reply.clone());
                    expect_failure(&a, rig.finish(f)?, &fault, &(rig.url("") + a.method.path()))?;
                } else {
                    q.answer(Reply::ok(&want));
                    expect(&a, rig.finish(f)?, &want)?;
                }
                ch.trans(1);
                // Nothing else has been given back meanwhile.
                for (j, f) in flights.iter().enumerate() {
                    if let Some(f) = f {
                        ensure!(!f.handle.is_finished(), "query {j} is given back before it is answered");
                    }
                }
            }
            ch.validated();
            Ok(())
        })
    });

    let n = run.deep(4, 5);
    let bound = format!("every sequence of {n} queries by one client, each one of 3 kinds and good, refused, failing or cut off");
    run.section("histories", &bound, |ch| {
        let plan: Vec<(Method, usize)> = (0..n).map(|_| (*ch.of(&[Method::Info, Method::Gaps, Method::Intervals]), ch.pick(4))).collect();
        with_rig(|rig| {
            let client = rig.client("");
            for (i, (m, how)) in plan.iter().enumerate() {
                let a = Ask::plain(*m, &format!("x{i}"));
                let want = answer(&a, i as u64, 21 + i as u64);
                let f = rig.send(&client, a.clone());
                let q = rig.query(&f, "")?;
                let fault = match how {
                    0 => {
                        q.answer(Reply::ok(&want));
                        expect(&a, rig.finish(f)?, &want)?;
                        continue;
                    }
                    1 => Fault { name: "client error", reply: Reply::Http(422, json!({ "message": format!("no {i}") }).to_string().into_bytes()), api: Some((422, format!("no {i}"))) },
                    2 => Fault { name: "server error", reply: Reply::Http(500, want.to_string().into_bytes()), api: None },
                    _ => Fault { name: "connection ends within the body", reply: Reply::Short(want.to_string().into_bytes()), api: None },
                };
                q.answer(fault.reply.clone());
                expect_failure(&a, rig.finish(f)?, &fault, &(rig.url("") + a.method.path()))?;
            }
            ch.trans(n);
            ch.state(H::new().s(&format!("{plan:?}")).get());
            ch.validated();
            Ok(())
        })
    });
}

fn main() {
    // Loading certificates takes most of the time of setting up a client, and none are needed here.
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/dev/null");
    std::env::set_var("NO_PROXY", "*");
    for v in ["http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    main_with(&[("C33", c33)]);
}
