//! The real service under control: a data source whose every answer waits for the explorer's
//! leave, and a client, both on loopback.
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub const CORE: &str = "127.0.0.1:3030";
pub const SERVICE: &str = "127.0.0.1:4040";

#[derive(Clone, Debug)]
pub enum Reply {
    Http(u16, Vec<u8>),
    /// Announces more than it sends, then closes.
    Short(Vec<u8>),
    /// Something that is not HTTP, then closes.
    Raw(Vec<u8>),
    Close,
}
impl Reply {
    pub fn ok(v: &Value) -> Reply {
        Reply::Http(200, v.to_string().into_bytes())
    }
}

/// A query of the service that waits for its answer.
pub struct Pending {
    pub method: String,
    pub path: String,
    pub body: Value,
    reply: Sender<Reply>,
}
impl Pending {
    pub fn answer(self, r: Reply) {
        let _ = self.reply.send(r);
    }
}

#[derive(Default)]
struct Desk {
    pending: Vec<Pending>,
    arrivals: u64,
}

pub struct Core {
    desk: Arc<(Mutex<Desk>, Condvar)>,
    stop: Arc<std::sync::atomic::AtomicBool>,
    open: Arc<Mutex<Vec<TcpStream>>>,
    addrs: Vec<std::net::SocketAddr>,
    acceptors: Vec<std::thread::JoinHandle<()>>,
}

/// One HTTP/1.1 message: first line, body. None at a clean end.
pub fn read_message(s: &mut impl Read, buf: &mut Vec<u8>) -> std::io::Result<Option<(String, Vec<u8>)>> {
    Ok(read_whole(s, buf, false)?.map(|(first, _, body)| (first, body)))
}
type Whole = (String, Vec<(String, String)>, Vec<u8>);
/// The same with the header fields, names in lower case.
fn read_whole(s: &mut impl Read, buf: &mut Vec<u8>, bodyless: bool) -> std::io::Result<Option<Whole>> {
    let bad = |m: &str| std::io::Error::new(std::io::ErrorKind::InvalidData, m.to_string());
    let mut chunk = [0u8; 65536];
    let head_end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        let n = s.read(&mut chunk)?;
        if n == 0 {
            return if buf.is_empty() { Ok(None) } else { Err(bad("ended within the head")) };
        }
        buf.extend_from_slice(&chunk[..n]);
    };
    let head = String::from_utf8_lossy(&buf[..head_end]).into_owned();
    buf.drain(..head_end + 4);
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    let (mut length, mut chunked, mut fields) = (0usize, false, vec![]);
    for l in lines {
        if let Some((k, v)) = l.split_once(':') {
            let (k, v) = (k.trim().to_ascii_lowercase(), v.trim());
            if k == "content-length" {
                length = v.parse().map_err(|_| bad("content length"))?;
            }
            chunked |= k == "transfer-encoding" && v.eq_ignore_ascii_case("chunked");
            fields.push((k, v.to_string()));
        }
    }
    if bodyless {
        return Ok(Some((first, fields, vec![])));
    }
    let mut more = |buf: &mut Vec<u8>| -> std::io::Result<()> {
        let n = s.read(&mut chunk)?;
        if n == 0 {
            return Err(bad("ended within the body"));
        }
        buf.extend_from_slice(&chunk[..n]);
        Ok(())
    };
    if !chunked {
        while buf.len() < length {
            more(buf)?;
        }
        return Ok(Some((first, fields, buf.drain(..length).collect())));
    }
    let mut body = vec![];
    loop {
        let end = loop {
            if let Some(i) = buf.windows(2).position(|w| w == b"\r\n") {
                break i;
            }
            more(buf)?;
        };
        let size = usize::from_str_radix(String::from_utf8_lossy(&buf[..end]).trim(), 16).map_err(|_| bad("chunk size"))?;
        buf.drain(..end + 2);
        while buf.len() < size + 2 {
            more(buf)?;
        }
        body.extend(buf.drain(..size));
        buf.drain(..2);
        if size == 0 {
            return Ok(Some((first, fields, body)));
        }
    }
}

fn serve(mut s: TcpStream, desk: Arc<(Mutex<Desk>, Condvar)>) {
    let _ = s.set_nodelay(true);
    let mut buf = vec![];
    while let Ok(Some((first, body))) = read_message(&mut s, &mut buf) {
        let (tx, rx) = channel();
        {
            let mut d = desk.0.lock().unwrap();
            d.pending.push(Pending {
                method: first.split(' ').next().unwrap_or("").to_string(),
                path: first.split(' ').nth(1).unwrap_or("").to_string(),
                body: serde_json::from_slice(&body).unwrap_or(Value::Null),
                reply: tx,
            });
            d.arrivals += 1;
            desk.1.notify_all();
        }
        let head = |status: u16, n: usize| format!("HTTP/1.1 {status} X\r\ncontent-type: application/json\r\ncontent-length: {n}\r\n\r\n").into_bytes();
        let (bytes, keep) = match rx.recv() {
            Ok(Reply::Http(status, b)) => ([head(status, b.len()), b].concat(), true),
            Ok(Reply::Short(b)) => ([head(200, b.len() + 7), b].concat(), false),
            Ok(Reply::Raw(b)) => (b, false),
            Ok(Reply::Close) | Err(_) => (vec![], false),
        };
        if s.write_all(&bytes).is_err() || !keep {
            break;
        }
    }
    let _ = s.shutdown(std::net::Shutdown::Both);
}

impl Core {
    pub fn start() -> std::io::Result<Core> {
        let mut listeners = vec![TcpListener::bind(CORE)?];
        // The service asks for "localhost", which may be this address as well.
        listeners.extend(TcpListener::bind("[::1]:3030"));
        Core::on(listeners)
    }

    /// At an address of its own.
    pub fn start_anywhere() -> std::io::Result<Core> {
        Core::on(vec![TcpListener::bind("127.0.0.1:0")?])
    }

    pub fn addr(&self) -> std::net::SocketAddr {
        self.addrs[0]
    }

    fn on(listeners: Vec<TcpListener>) -> std::io::Result<Core> {
        let addrs = listeners.iter().map(|l| l.local_addr()).collect::<Result<_, _>>()?;
        let desk: Arc<(Mutex<Desk>, Condvar)> = Default::default();
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let open: Arc<Mutex<Vec<TcpStream>>> = Default::default();
        let acceptors = listeners
            .into_iter()
            .map(|l| {
                let (desk, stop, open) = (desk.clone(), stop.clone(), open.clone());
                std::thread::spawn(move || {
                    for s in l.incoming() {
                        if stop.load(std::sync::atomic::Ordering::SeqCst) {
                            return;
                        }
                        let Ok(s) = s else { continue };
                        let mut all = open.lock().unwrap();
                        if all.len() > 64 {
                            all.retain(|s| s.take_error().is_ok() && s.peer_addr().is_ok());
                        }
                        all.extend(s.try_clone());
                        drop(all);
                        let desk = desk.clone();
                        std::thread::spawn(move || serve(s, desk));
                    }
                })
            })
            .collect();
        Ok(Core { desk, stop, open, addrs, acceptors })
    }

    pub fn take(&self, which: impl Fn(&Pending) -> bool) -> Option<Pending> {
        let mut d = self.desk.0.lock().unwrap();
        let i = d.pending.iter().position(which)?;
        Some(d.pending.remove(i))
    }

    /// Runs `f` over what is pending, and again at each arrival, until it says so or time is up.
    pub fn wait<T>(&self, patience: Duration, mut f: impl FnMut(&[Pending]) -> Option<T>) -> Option<T> {
        let until = Instant::now() + patience;
        let mut d = self.desk.0.lock().unwrap();
        loop {
            if let Some(t) = f(&d.pending) {
                return Some(t);
            }
            let left = until.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return None;
            }
            d = self.desk.1.wait_timeout(d, left.min(Duration::from_millis(1))).unwrap().0;
        }
    }

    pub fn arrivals(&self) -> u64 {
        self.desk.0.lock().unwrap().arrivals
    }

    /// Forgets what nobody answered; those connections close.
    pub fn clear(&self) {
        self.desk.0.lock().unwrap().pending.clear();
    }

    /// Goes down: nothing listens and every connection is gone.
    pub fn shut_down(self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        for a in &self.addrs {
            let _ = TcpStream::connect(a);
        }
        for a in self.acceptors {
            let _ = a.join();
        }
        self.desk.0.lock().unwrap().pending.clear();
        for s in self.open.lock().unwrap().drain(..) {
            let _ = s.shutdown(std::net::Shutdown::Both);
        }
    }
}

extern "C" {
    fn prctl(option: i32, arg: u64) -> i32;
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const [i32; 2], n: u32) -> i32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}
type SpawnRequest = (String, Sender<std::io::Result<Child>>);
static SPAWNER: Mutex<Option<Sender<SpawnRequest>>> = Mutex::new(None);

/// Starts a process that ends with this one. (It is bound to the thread that starts it, so that
/// thread must last.)
fn spawn_bound(bin: String) -> std::io::Result<Child> {
    let mut g = SPAWNER.lock().unwrap();
    let spawner = g.get_or_insert_with(|| {
        let (tx, rx) = channel::<SpawnRequest>();
        std::thread::spawn(move || {
            for (bin, reply) in rx {
                let mut c = Command::new(&bin);
                // Loading certificates is most of its start.
                c.env("SSL_CERT_FILE", "/dev/null").env("SSL_CERT_DIR", "/dev/null");
                c.env("RUST_LOG", "off").env("NO_PROXY", "*").env_remove("http_proxy").env_remove("HTTP_PROXY");
                c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
                // PR_SET_PDEATHSIG, SIGKILL
                unsafe {
                    std::os::unix::process::CommandExt::pre_exec(&mut c, || {
                        prctl(1, 9);
                        // RLIMIT_AS: what asks for too much is refused it, whatever the system's policy.
                        setrlimit(9, &[16 << 30, 16 << 30]);
                        Ok(())
                    });
                }
                let _ = reply.send(c.spawn());
            }
        });
        tx
    });
    let (tx, rx) = channel();
    spawner.send((bin, tx)).unwrap();
    rx.recv().unwrap()
}

pub struct Service(Child);
impl Service {
    pub fn start() -> Result<Service, String> {
        if TcpStream::connect(SERVICE).is_ok() {
            return Err(format!("something else listens on {SERVICE}"));
        }
        let bin = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()) + "/target/axum/release/juno_axum";
        let child = spawn_bound(bin.clone()).map_err(|e| format!("{bin}: {e}"))?;
        let mut s = Service(child);
        let until = Instant::now() + Duration::from_secs(20);
        while Instant::now() < until {
            if TcpStream::connect(SERVICE).is_ok() {
                return Ok(s);
            }
            if let Ok(Some(status)) = s.0.try_wait() {
                return Err(format!("the service ended at once: {status}"));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        Err("the service does not listen".into())
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.0.try_wait(), Ok(None))
    }
}
impl Drop for Service {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

/// A request to the service on its way.
pub struct Call {
    s: TcpStream,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Answer {
    /// 0 if the connection ended without an answer.
    pub status: u16,
    pub body: Value,
    pub text: String,
}
impl Call {
    pub fn send(method: &str, path: &str, body: &str) -> std::io::Result<Call> {
        Call::raw(method, path, Some("application/json"), body.as_bytes())
    }
    pub fn raw(method: &str, path: &str, kind: Option<&str>, body: &[u8]) -> std::io::Result<Call> {
        let mut s = TcpStream::connect(SERVICE)?;
        s.set_nodelay(true)?;
        let kind = kind.map_or(String::new(), |k| format!("content-type: {k}\r\n"));
        let head = format!("{method} {path} HTTP/1.1\r\nhost: localhost\r\nconnection: close\r\n{kind}content-length: {}\r\n\r\n", body.len());
        s.write_all(&[head.as_bytes(), body].concat())?;
        Ok(Call { s })
    }
    pub fn answered(&self) -> bool {
        let _ = self.s.set_nonblocking(true);
        let r = self.s.peek(&mut [0u8; 1]);
        let _ = self.s.set_nonblocking(false);
        !matches!(r, Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock)
    }
    pub fn finish(mut self, patience: Duration) -> Result<Answer, String> {
        let _ = self.s.set_read_timeout(Some(patience));
        match read_message(&mut self.s, &mut vec![]) {
            Ok(Some((first, body))) => {
                let text = String::from_utf8_lossy(&body).into_owned();
                Ok(Answer {
                    status: first.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0),
                    body: serde_json::from_str(&text).unwrap_or(Value::Null),
                    text,
                })
            }
            Ok(None) => Ok(Answer { status: 0, body: json!(null), text: String::new() }),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
                Err(format!("no answer within {patience:?}"))
            }
            Err(_) => Ok(Answer { status: 0, body: json!(null), text: String::new() }),
        }
    }
}

/// A connection to the service, for as many requests as it takes.
pub struct Line {
    s: TcpStream,
    buf: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Full {
    pub answer: Answer,
    pub fields: Vec<(String, String)>,
}
impl Full {
    pub fn field(&self, name: &str) -> Vec<&str> {
        self.fields.iter().filter(|f| f.0 == name).map(|f| f.1.as_str()).collect()
    }
}
impl Line {
    pub fn open() -> std::io::Result<Line> {
        let s = TcpStream::connect(SERVICE)?;
        s.set_nodelay(true)?;
        Ok(Line { s, buf: vec![] })
    }
    /// False if the other side no longer listens.
    pub fn write(&mut self, b: &[u8]) -> bool {
        self.s.write_all(b).is_ok()
    }
    /// Whether there is something to read, if only the end.
    pub fn ready(&self) -> bool {
        if !self.buf.is_empty() {
            return true;
        }
        let _ = self.s.set_nonblocking(true);
        let r = self.s.peek(&mut [0u8; 1]);
        let _ = self.s.set_nonblocking(false);
        !matches!(r, Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock)
    }
    /// The next answer, or none if the connection ended.
    pub fn next(&mut self, patience: Duration, bodyless: bool) -> Result<Option<Full>, String> {
        let _ = self.s.set_read_timeout(Some(patience));
        match read_whole(&mut self.s, &mut self.buf, bodyless) {
            Ok(Some((first, fields, body))) => {
                let text = String::from_utf8_lossy(&body).into_owned();
                let status = first.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
                Ok(Some(Full { answer: Answer { status, body: serde_json::from_str(&text).unwrap_or(Value::Null), text }, fields }))
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => Err(format!("no answer within {patience:?}")),
            _ => Ok(None),
        }
    }
    /// Goes away at once, by a reset instead of an end.
    pub fn reset(self) {
        // SOL_SOCKET, SO_LINGER: on, for no time.
        unsafe { setsockopt(std::os::fd::AsRawFd::as_raw_fd(&self.s), 1, 13, &[1, 0], 8) };
    }
}
