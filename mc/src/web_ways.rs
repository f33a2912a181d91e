//! C35: how, from where and next to what a request is made (part of mc_web).
use super::*;

/// Something to ask of the service and what kind of answer is due.
#[derive(Clone)]
struct Ask {
    method: &'static str,
    path: &'static str,
    content: Option<&'static str>,
    body: String,
    due: Due,
}
#[derive(Clone)]
enum Due {
    Good(Request),
    /// A status from 400 to 499.
    Refusal,
    /// An error status with a message, and what has to be in it.
    Error(&'static str),
    Info,
}
const ASKS: usize = 12;
const FIT: usize = 2;
fn ask(n: usize) -> Ask {
    let json = Some("application/json");
    let post = |r: Request, due: fn(Request) -> Due| Ask { method: "POST", path: r.path(), content: json, body: r.body.to_string(), due: due(r) };
    let with = |at: &str, v: Value, due: fn(Request) -> Due| {
        let mut r = either(Kind::Backtest, &["eth-btc"]);
        *r.body.pointer_mut(at).unwrap() = v;
        post(r, due)
    };
    let other = |method, path, due| Ask { method, path, content: json, body: String::new(), due };
    match n {
        0 => post(either(Kind::Backtest, &["eth-btc", "ltc-btc"]), Due::Good),
        1 => post(either(Kind::Optimize, &["eth-btc", "ltc-btc"]), Due::Good),
        2 => with("/quote", json!("x"), |_| Due::Refusal),
        3 => Ask { content: Some("text/plain"), ..with("/quote", json!(50.0), |_| Due::Refusal) },
        4 => with("/symbols/0", json!("no-such"), |_| Due::Error("no such candles")),
        5 => with("/exchange", json!(format!("broken-{:08}", SERIAL.fetch_add(1, Ordering::SeqCst))), |_| Due::Error("")),
        6 => with("/symbols/0", json!("ethbtc"), |_| Due::Error("")),
        7 => with("/trading/strategy/mas/0/period", json!(0), |_| Due::Error("")),
        8 => Ask { path: "/backtests", ..with("/quote", json!(50.0), |_| Due::Refusal) },
        9 => other("GET", "/backtest", Due::Refusal),
        10 => other("GET", "/optimize", Due::Info),
        _ => other("GET", "/", Due::Info),
    }
}
impl Ask {
    fn show(&self) -> String {
        let mut b: Value = serde_json::from_str(&self.body).unwrap_or(Value::Null);
        if let Some(e) = b["exchange"].as_str() {
            b["exchange"] = json!(e.split('-').next());
        }
        format!("{} {} {b}", self.method, self.path)
    }
    fn head(&self, more: &[(&str, String)], last: bool) -> String {
        let mut h = format!("{} {} HTTP/1.1\r\nhost: localhost\r\n", self.method, self.path);
        if let Some(c) = self.content {
            h += &format!("content-type: {c}\r\n");
        }
        for (k, v) in more {
            h += &format!("{k}: {v}\r\n");
        }
        if last {
            h += "connection: close\r\n";
        }
        h
    }
    fn announced(&self, more: &[(&str, String)], last: bool) -> Vec<u8> {
        (self.head(more, last) + &format!("content-length: {}\r\n\r\n", self.body.len()) + &self.body).into_bytes()
    }
    /// The body in chunks of this size.
    fn chunked(&self, size: usize, last: bool) -> Vec<u8> {
        let mut m = (self.head(&[], last) + "transfer-encoding: chunked\r\n\r\n").into_bytes();
        for c in self.body.as_bytes().chunks(size) {
            m.extend(format!("{:x}\r\n", c.len()).into_bytes());
            m.extend_from_slice(c);
            m.extend(b"\r\n");
        }
        m.extend(b"0\r\n\r\n");
        m
    }
    fn check(&self, a: &Answer) -> Res {
        let show = self.show();
        match &self.due {
            Due::Good(r) => check_good(r, a),
            Due::Refusal => {
                ensure!((400..500).contains(&a.status), "{show}: status {}: {}", a.status, short(&a.text));
                Ok(())
            }
            Due::Error(m) => {
                let said = a.body["message"].as_str().unwrap_or("");
                ensure!((400..600).contains(&a.status) && !said.is_empty() && said.contains(m), "{show}: status {}: {}", a.status, short(&a.text));
                Ok(())
            }
            Due::Info => {
                ensure!(a.status == 200 && !a.text.is_empty(), "{show}: status {}: {}", a.status, short(&a.text));
                Ok(())
            }
        }
    }
}

/// Answers what the service asks until `done`.
fn feed(core: &Core, patience: Duration, mut done: impl FnMut() -> bool) -> bool {
    let until = Instant::now() + patience;
    while Instant::now() < until {
        let over = core.wait(until.saturating_duration_since(Instant::now()), |p| if p.iter().any(|p| !stale(&p.body["exchange"])) { Some(false) } else { done().then_some(true) });
        match over {
            Some(true) => return true,
            Some(false) => {
                if let Some(p) = core.take(|p| !stale(&p.body["exchange"])) {
                    if p.body["exchange"].as_str().is_some_and(|e| e.starts_with("broken")) {
                        p.answer(Reply::Close);
                    } else {
                        let (v, no) = source(Manner::Refuse, &p);
                        p.answer(if no { Reply::Http(404, v.to_string().into_bytes()) } else { Reply::ok(&v) });
                    }
                }
            }
            None => return false,
        }
    }
    false
}
fn over(core: &Core) {
    core.clear();
    ANSWERED.store(SERIAL.load(Ordering::SeqCst), Ordering::SeqCst);
}
fn line() -> Result<Line, Stop> {
    Line::open().map_err(|e| Stop::Fail(format!("the service does not accept connections: {e}")))
}
fn next(core: &Core, l: &mut Line, bodyless: bool, show: &str) -> Result<Option<Full>, Stop> {
    if !feed(core, ANSWER, || l.ready()) {
        fail!("{show}: no answer");
    }
    l.next(ANSWER, bodyless).map_err(|e| Stop::Fail(format!("{show}: {e}")))
}
fn only(core: &Core, l: &mut Line, bodyless: bool, show: &str) -> Result<Full, Stop> {
    match next(core, l, bodyless, show)? {
        Some(f) => Ok(f),
        None => fail!("{show}: the connection ended without an answer"),
    }
}

// ---- who may read an answer, as browsers decide it ----

/// The origins a page may have.
const ORIGINS: [&str; 6] = ["http://localhost:3000", "https://juno.example", "null", "http://127.0.0.1:4040", "http://[::1]:8080", "https://a-page.of.some.length.example.org:65535"];

fn may_read(f: &Full, origin: &str) -> Result<(), String> {
    match f.field("access-control-allow-origin")[..] {
        [o] if o == "*" || o == origin => Ok(()),
        ref o => Err(format!("a page of {origin} may not read the answer, which allows {o:?}")),
    }
}
fn listed(f: &Full, name: &str, what: &str, case: bool) -> bool {
    f.field(name).iter().flat_map(|v| v.split(',')).map(|v| v.trim()).any(|v| v == "*" || v == what || !case && v.eq_ignore_ascii_case(what))
}
/// Whether the answer to a preflight permits the request that it announces.
fn granted(f: &Full, origin: &str, method: &str, names: &[&str]) -> Result<(), String> {
    if !(200..300).contains(&f.answer.status) {
        return Err(format!("the preflight is answered with status {}", f.answer.status));
    }
    may_read(f, origin)?;
    let simple = ["GET", "HEAD", "POST"].contains(&method);
    if !simple && !listed(f, "access-control-allow-methods", method, true) {
        return Err(format!("{method} is not allowed, only {:?}", f.field("access-control-allow-methods")));
    }
    match names.iter().find(|n| !listed(f, "access-control-allow-headers", n, false)) {
        Some(n) => Err(format!("{n} is not allowed, only {:?}", f.field("access-control-allow-headers"))),
        None => Ok(()),
    }
}

// ---- clients that leave ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Exit {
    Close,
    Reset,
}
fn leave(l: Line, how: Exit) {
    match how {
        Exit::Close => drop(l),
        Exit::Reset => l.reset(),
    }
}
/// Sends the request and leaves once this many of its queries are answered, in the order given.
fn leaver(rig: &mut Rig, r: &Request, order: &Queries, answers: usize, how: Exit) -> Res {
    let core = rig.core.as_ref().unwrap();
    let a = Ask { method: "POST", path: r.path(), content: Some("application/json"), body: r.body.to_string(), due: Due::Good(r.clone()) };
    let mut l = line()?;
    l.write(&a.announced(&[], false));
    let mine = |p: &Pending| p.body["exchange"] == r.exchange();
    let all = order.len();
    // At the end it is up to the service when it notices.
    for k in 0..=answers.min(all - 1) {
        let wanted = if rig.sequential { 1 } else { all - k };
        if core.wait(PATIENCE, |p| (p.iter().filter(|p| mine(p)).count() >= wanted).then_some(())).is_none() {
            if rig.sequential {
                // It may have to wait for others; whether the service still serves shows afterwards.
                break;
            }
            one_at_a_time(&mut rig.sequential);
        }
        if k == answers {
            break;
        }
        let p = order.iter().find_map(|(_, q)| core.take(|p| mine(p) && r.recognise(p).as_ref() == Some(q)));
        let Some(p) = p else { break };
        let d = r.data(&p);
        p.answer(Reply::ok(&d));
        std::thread::sleep(GAP);
    }
    leave(l, how);
    Ok(())
}

pub fn c35(run: &mut Run) {
    run.assume("one service process and HTTP/1.1 over loopback; a client that shuts down only its sending side counts as gone");
    run.assume("browsers decide by the Fetch standard's CORS check without credentials");
    let deep = run.thorough();
    let pause = Duration::from_micros(400);
    let step = run.deep(3, 1);
    run.section_n("pieces", &format!("a backtest and an optimisation, their length announced or in chunks of 9, in two pieces cut at every byte of the head and every {step} of the rest, or in chunks or pieces of 1 to 200 bytes, or once told to go on"), 1, |ch| {
        let a = ask(ch.pick(FIT));
        let (bytes, pieces): (Vec<u8>, Vec<usize>) = match ch.pick(5) {
            k @ (0 | 1) => {
                let m = if k == 0 { a.announced(&[], true) } else { a.chunked(9, true) };
                let head = m.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
                let i = ch.pick(head + (m.len() - head - 1) / step);
                let cut = if i < head { i + 1 } else { head + (i - head + 1) * step };
                (m, vec![cut.clamp(1, 1 << 20)])
            }
            2 => (a.chunked(*ch.of(&[1, 2, 3, 15, 16, 17, 100, 200, 10_000]), true), vec![]),
            3 => {
                let n = *ch.of(&[1usize, 2, 7, 50, 200]);
                let m = a.announced(&[], true);
                let cuts = (1..m.len().div_ceil(n)).map(|i| i * n).collect();
                (m, cuts)
            }
            _ => (a.announced(&[("expect", "100-continue".into())], true), vec![0]),
        };
        let head = bytes.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        note!(ch, "{} of {} bytes (head {head}) cut at {pieces:?}", a.show(), bytes.len());
        let f = rigged(|rig| {
            let core = rig.core.as_ref().unwrap();
            let mut l = line()?;
            let show = a.show();
            if pieces == [0] {
                l.write(&bytes[..head]);
                let f = only(core, &mut l, true, &show)?;
                ensure!(f.answer.status == 100, "{show}: status {} instead of 100", f.answer.status);
                l.write(&bytes[head..]);
            } else {
                let mut at = 0;
                for c in pieces.iter().copied().chain([bytes.len()]) {
                    let c = c.min(bytes.len());
                    if at > 0 {
                        std::thread::sleep(if pieces.len() > 10 { pause / 10 } else { pause });
                    }
                    l.write(&bytes[at..c]);
                    at = c;
                }
            }
            let f = only(core, &mut l, false, &show)?;
            over(core);
            Ok(f)
        })?;
        a.check(&f.answer)?;
        ch.state(H::new().s(&a.show()).u(bytes.len() as u64).u(pieces.first().copied().unwrap_or(1 << 30) as u64).u(pieces.len() as u64).get());
        ch.trans(pieces.len() + 1);
        ch.validated();
        Ok(())
    });
    let len = run.deep(2, 3);
    run.section_n("connections", &format!("every sequence of {len} out of {ASKS} kinds of requests on one connection, each sent once the one before is answered, all at once, or in pieces that end halfway through a request"), 1, |ch| {
        let asks: Vec<Ask> = (0..len).map(|_| ask(ch.pick(ASKS))).collect();
        let way = ch.pick(3);
        let show = format!("{} {}", ["one by one:", "at once:", "in halves:"][way], asks.iter().map(|a| a.show()).collect::<Vec<_>>().join("; "));
        note!(ch, "{show}");
        let answers = rigged(|rig| {
            let core = rig.core.as_ref().unwrap();
            let mut out: Vec<Full> = vec![];
            let mut again = 0;
            // A connection may end after an answer; then the rest is asked on the next one.
            while out.len() < asks.len() {
                let rest = &asks[out.len()..];
                let had = out.len();
                let mut l = line()?;
                let all: Vec<u8> = rest.iter().flat_map(|a| a.announced(&[], false)).collect();
                if way == 1 {
                    l.write(&all);
                } else if way == 2 {
                    let half = rest[0].announced(&[], false).len() + rest.get(1).map_or(0, |a| a.announced(&[], false).len() / 2);
                    l.write(&all[..half]);
                    std::thread::sleep(pause);
                    l.write(&all[half..]);
                }
                for a in rest {
                    if way == 0 && !l.write(&a.announced(&[], false)) {
                        break;
                    }
                    match next(core, &mut l, false, &show)? {
                        Some(f) => out.push(f),
                        None => break,
                    }
                }
                again += 1;
                ensure!(out.len() > had, "{show}: the connection ended without an answer to request {}", had + 1);
            }
            over(core);
            ch.hit(if again == 1 { "kept" } else { "ended by the service" });
            Ok(out)
        })?;
        for (a, f) in asks.iter().zip(&answers) {
            a.check(&f.answer)?;
        }
        afterwards(Kind::Backtest)?;
        ch.state(H::new().s(&show).get());
        ch.trans(len);
        ch.validated();
        Ok(())
    });
    let names: [&[&str]; 6] = [&[], &["content-type"], &["Content-Type", "X-Requested-With"], &["x-a"], &["accept", "cache-control", "content-type", "if-none-match", "x-trace-id"], &["range"]];
    run.section_n("preflights", &format!("{} origins x 8 paths x 7 methods x {} sets of header fields, and the request announced when there is one", ORIGINS.len(), names.len()), 1, |ch| {
        let origin = *ch.of(&ORIGINS);
        let path = *ch.of(&["/", "/backtest", "/optimize", "/backtests", "/optimize/x", "/backtest/optimize", "/x/y/z", "/backtest?x=1"]);
        let method = *ch.of(&["POST", "GET", "HEAD", "PUT", "DELETE", "PATCH", "PROPFIND"]);
        let names = *ch.of(&names);
        let show = format!("from {origin}: {method} {path} with {names:?}");
        note!(ch, "{show}");
        let mut more = vec![("origin", origin.to_string()), ("access-control-request-method", method.to_string())];
        if !names.is_empty() {
            let mut n: Vec<String> = names.iter().map(|n| n.to_ascii_lowercase()).collect();
            n.sort();
            more.push(("access-control-request-headers", n.join(",")));
        }
        let a = Ask { method: "OPTIONS", path, content: None, body: String::new(), due: Due::Info };
        let f = rigged(|rig| {
            let core = rig.core.as_ref().unwrap();
            over(core);
            let mut l = line()?;
            l.write(&a.announced(&more, true));
            let until = Instant::now() + ANSWER;
            // Whatever is asked here is left to wait.
            let asked = core.wait(until.saturating_duration_since(Instant::now()), |p| if p.iter().any(|p| !stale(&p.body["exchange"])) { Some(true) } else { l.ready().then_some(false) });
            ensure!(asked != Some(true), "{show}: the preflight makes the service ask the data source");
            only(core, &mut l, false, &show)
        })?;
        if let Err(e) = granted(&f, origin, method, names) {
            fail!("{show}: {e}");
        }
        ch.state(H::new().s(&show).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });
    run.section_n("pages", &format!("{} origins x {ASKS} kinds of requests x with and without what a browser adds, on a connection of their own or after another", ORIGINS.len()), 1, |ch| {
        let origin = *ch.of(&ORIGINS);
        let a = ask(ch.pick(ASKS));
        let mut more = vec![("origin", origin.to_string())];
        if ch.flag() {
            more.extend([("referer", format!("{origin}/x")), ("sec-fetch-mode", "cors".into()), ("sec-fetch-site", "cross-site".into()), ("user-agent", "Mozilla/5.0".into()), ("accept", "*/*".into()), ("x-requested-with", "fetch".into())]);
        }
        let before = ch.flag();
        let show = format!("from {origin}: {}", a.show());
        note!(ch, "{show} with {} fields{}", more.len(), if before { ", second" } else { "" });
        let f = rigged(|rig| {
            let core = rig.core.as_ref().unwrap();
            let mut l = line()?;
            if before {
                l.write(&ask(ASKS - 1).announced(&[], false));
                only(core, &mut l, false, &show)?;
            }
            l.write(&a.announced(&more, true));
            let f = only(core, &mut l, false, &show)?;
            over(core);
            Ok(f)
        })?;
        a.check(&f.answer)?;
        if let Err(e) = may_read(&f, origin) {
            fail!("{show}, answered with status {}: {e}", f.answer.status);
        }
        ch.state(H::new().s(&show).u(before as u64).u(more.len() as u64).get());
        ch.trans(1);
        ch.validated();
        Ok(())
    });
    let step = run.deep(9, 2);
    run.section_n("halfway", &format!("a client that leaves by an end or a reset after every {step} bytes of a backtest or optimisation, or of the second on its connection, then a good request"), 1, |ch| {
        let a = ask(ch.pick(FIT));
        let how = *ch.of(&[Exit::Close, Exit::Reset]);
        let second = ch.flag();
        let m = a.announced(&[], false);
        let cut = ch.pick(m.len().div_ceil(step)) * step;
        let show = format!("{} broken off after {cut} of {} bytes ({how:?}{})", a.show(), m.len(), if second { ", second" } else { "" });
        note!(ch, "{show}");
        rigged(|rig| {
            let core = rig.core.as_ref().unwrap();
            let mut l = line()?;
            if second {
                l.write(&ask(ASKS - 1).announced(&[], false));
                only(core, &mut l, false, &show)?;
            }
            l.write(&m[..cut]);
            std::thread::sleep(pause);
            leave(l, how);
            let mine = serde_json::from_str::<Value>(&a.body).unwrap()["exchange"].clone();
            let asked = core.wait(pause, |p| p.iter().any(|p| p.body["exchange"] == mine).then_some(()));
            ensure!(asked.is_none(), "{show}: the service asks the data source all the same");
            Ok(())
        })?;
        afterwards(pick_kind(ch))?;
        ch.state(H::new().s(&show).get());
        ch.trans(2);
        ch.validated();
        Ok(())
    });
    run.section_n("leaving", "a client that leaves, by an end or a reset, once none to all of its request's 4 queries are answered, in every order, then a good request", 1, |ch| {
        let r = [either(pick_kind(ch), &["eth-btc", "ltc-btc"])];
        let how = *ch.of(&[Exit::Close, Exit::Reset]);
        let answers = ch.pick(5);
        // What is left unanswered has no order.
        let mut left = plain_order(&r);
        let mut order = vec![];
        for k in 0..left.len() {
            order.push(left.remove(if k < answers { ch.pick(left.len()) } else { 0 }));
        }
        note!(ch, "{} left ({how:?}) after {answers} answers in the order {order:?}", r[0].show());
        rigged(|rig| leaver(rig, &r[0], &order, answers, how))?;
        afterwards(pick_kind(ch))?;
        ch.state(H::new().s(&r[0].show()).s(&named(&order)).u(answers as u64).u(how as u64).get());
        ch.trans(answers + 1);
        ch.validated();
        Ok(())
    });
    run.section_n("left meanwhile", "a good request, its 3 queries answered in every order, and another client that leaves, by an end or a reset, once none to all of its 3 queries are answered, before, between or after these answers, once or twice", 1, |ch| {
        let kind = pick_kind(ch);
        let r = [either(kind, &["ltc-btc"])];
        let order = pick_order(ch, &r);
        let when = ch.pick(4);
        let times = 1 + ch.pick(2);
        let how = *ch.of(&[Exit::Close, Exit::Reset]);
        let answers = ch.pick(4);
        let other = pick_kind(ch);
        if !deep && times == 2 && how == Exit::Close {
            // The quick run takes either.
            return Ok(());
        }
        note!(ch, "{} answered in the order {order:?}; after {when} answers {other:?} is left ({how:?}) {times} times with {answers} answered", r[0].show());
        let a = rigged(|rig| {
            let mut l = line()?;
            let a = Ask { method: "POST", path: r[0].path(), content: Some("application/json"), body: r[0].body.to_string(), due: Due::Good(r[0].clone()) };
            l.write(&a.announced(&[], false));
            let mine = |p: &Pending| p.body["exchange"] == r[0].exchange();
            let all = order.len();
            for k in 0..=all {
                let core = rig.core.as_ref().unwrap();
                if k < all && !rig.sequential && core.wait(PATIENCE, |p| (p.iter().filter(|p| mine(p)).count() >= all - k).then_some(())).is_none() {
                    one_at_a_time(&mut rig.sequential);
                }
                if k == when {
                    for _ in 0..times {
                        let o = [either(other, &["eth-btc"])];
                        leaver(rig, &o[0], &plain_order(&o), answers, how)?;
                    }
                }
                if k == all {
                    break;
                }
                let core = rig.core.as_ref().unwrap();
                if core.wait(ANSWER, |p| p.iter().any(mine).then_some(())).is_none() {
                    fail!("{}: nothing is asked after {k} answers", r[0].show());
                }
                let p = order.iter().find_map(|(_, q)| core.take(|p| mine(p) && r[0].recognise(p).as_ref() == Some(q)));
                let Some(p) = p else { fail!("{}: nothing of use is asked after {k} answers", r[0].show()) };
                let d = r[0].data(&p);
                p.answer(Reply::ok(&d));
                std::thread::sleep(GAP);
            }
            let core = rig.core.as_ref().unwrap();
            let f = match l.next(ANSWER, false) {
                Ok(Some(f)) => f,
                Ok(None) => fail!("{}: the connection ended without an answer", r[0].show()),
                Err(e) => fail!("{}: {e}", r[0].show()),
            };
            over(core);
            Ok(f)
        })?;
        check_good(&r[0], &a.answer)?;
        ch.state(H::new().s(&r[0].show()).s(&named(&order)).u((when * 8 + times * 4 + answers) as u64).u(how as u64).u(other as u64).get());
        ch.trans(order.len() + times);
        ch.validated();
        Ok(())
    });
    let most = run.deep(100, 600);
    run.section_n("left often", &format!("10 and {most} clients that leave one after another, by an end or a reset, halfway through a request or once none to all of its 3 queries are answered, then 2 good requests"), 1, |ch| {
        let kind = pick_kind(ch);
        let n = *ch.of(&[10, most]);
        let how = *ch.of(&[Exit::Close, Exit::Reset]);
        let stage = ch.pick(5);
        note!(ch, "{n} times {kind:?} left ({how:?}) at stage {stage}");
        for _ in 0..n {
            rigged(|rig| {
                let r = [either(kind, &["eth-btc"])];
                if stage < 4 {
                    return leaver(rig, &r[0], &plain_order(&r), stage, how);
                }
                let m = ask(kind as usize).announced(&[], false);
                let mut l = line()?;
                l.write(&m[..m.len() - 9]);
                leave(l, how);
                Ok(())
            })?;
        }
        afterwards(kind)?;
        afterwards(Kind::Backtest)?;
        ch.state(H::new().u(n as u64).u(stage as u64).u(kind as u64).u(how as u64).get());
        ch.trans(n + 2);
        ch.validated();
        Ok(())
    });
}
