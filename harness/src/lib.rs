//! Shared plumbing of the concrete search: seeded cases, model comparison, replay files.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = if self.chance(1, 6) { 0 } else { self.below(max + 1) };
        (0..n).map(|_| match self.below(4) { 0 => 0, 1 => 0xff, _ => self.next() as u8 }).collect()
    }
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn take_panics() -> Vec<String> { std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner())) }

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    out: String,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    failures: Vec<Value>,
    groups: BTreeMap<String, u64>,
    start: std::time::Instant,
    pub rule: String,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

impl Run {
    pub fn from_args() -> Run {
        let a: Vec<String> = std::env::args().collect();
        std::panic::set_hook(Box::new(|i| {
            let bt = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            // a file operation of the runtime cut short while the harness tears it down
            if bt.contains("/tokio-") { return; }
            PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("panic at {bt}: {m}"));
        }));
        Run { prop: a[1].clone(), tier: a.get(2).cloned().unwrap_or("quick".into()), seed: a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1), out: a.get(4).cloned().unwrap_or("/tmp".into()), evaluations: 0, distinct: HashSet::new(), samples: vec![], failures: vec![], groups: BTreeMap::new(), start: std::time::Instant::now(), rule: String::new() }
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    /// cases for this tier
    pub fn n(&self, quick: usize) -> usize { if self.thorough() { quick * 12 } else { quick } }
    pub fn rng(&self, salt: &str) -> Rng { Rng::new(self.seed ^ fnv(salt)) }
    pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }
    pub fn done(&self) -> bool { self.failures.len() >= 6 || self.elapsed() > if self.thorough() { 600.0 } else { 150.0 } }
    /// one case: `desc` is everything needed to re-run it by hand; Err(text) or a panic is a failing input
    pub fn case(&mut self, key: &str, desc: Value, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        if self.failures.iter().any(|x| x["key"] == key) && self.failures.len() >= 2 { return; }
        self.evaluations += 1;
        *self.groups.entry(key.to_string()).or_default() += 1;
        let ds = desc.to_string();
        if nontrivial { self.distinct.insert(fnv(&format!("{key}{ds}"))); }
        let _ = std::fs::write(format!("{}/current.json", self.out), format!("{{\"check\":\"{key}\",\"case\":{ds}}}"));
        take_panics();
        let r = catch_unwind(AssertUnwindSafe(f));
        let ps = take_panics();
        let r = match r {
            Err(_) => Err(format!("the server code panicked: {}", ps.join("; "))),
            Ok(Ok(())) if !ps.is_empty() => Err(format!("the server code panicked in a background task: {}", ps.join("; "))),
            Ok(x) => x,
        };
        if self.samples.len() < 3 && nontrivial { self.samples.push(json!({"check": key, "case": if ds.len() > 1500 { json!(ds[..ds.char_indices().take_while(|c| c.0 < 1500).last().map_or(0, |c| c.0)].to_string()) } else { desc.clone() }})); }
        if let Err(what) = r {
            let p = format!("{}/{}-{}.json", self.out, self.prop, self.failures.len());
            let v = json!({"property": self.prop, "check": key, "seed": self.seed, "case": desc, "what": what});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
            eprintln!("FAIL {key}: {what}");
            self.failures.push(json!({"key": key, "what": format!("{key}: {what}"), "replay": p}));
        }
    }
    pub fn finish(self) -> ! {
        let v = json!({"evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len(), "samples": self.samples, "failures": self.failures, "groups": self.groups,
            "rule": if self.rule.is_empty() { "seeded random cases plus fixed edge cases; distinct by digest of the whole case; non-trivial as flagged by the generator".to_string() } else { self.rule.clone() }});
        let _ = std::fs::write(format!("{}/result.json", self.out), serde_json::to_string_pretty(&v).unwrap());
        std::process::exit(if self.failures.is_empty() { 0 } else { 1 });
    }
}

pub fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap() }
/// run to completion or fail: 20 s without an answer counts as no answer
pub fn wait<F: std::future::Future>(rt: &tokio::runtime::Runtime, what: &str, f: F) -> Result<F::Output, String> {
    rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(20), f).await }).map_err(|_| format!("no answer within 20 s: {what}"))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub fn hx(b: &[u8]) -> String { hex::encode(b) }
/// clip for messages
pub fn clip(s: &str) -> String { s.chars().take(300).collect() }

// ---------------------------------------------------------------- an engine in a scratch folder, and a raw client
pub fn scratch_config(dir: &std::path::Path) -> nexo::config::Config {
    let mut c = nexo::config::Config::global().clone();
    let p = |s: &str| dir.join(s).to_string_lossy().to_string();
    c.queue.persistence_path = p("queues");
    c.pubsub.persistence_path = p("pubsub");
    c.stream.persistence_path = p("streams");
    c.queue.default_flush_ms = 5;
    c.stream.default_flush_ms = 5;
    c.pubsub.retained_flush_ms = 5;
    c
}
pub fn put_str(b: &mut Vec<u8>, s: &str) { b.extend((s.len() as u32).to_be_bytes()); b.extend(s.as_bytes()); }
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> { if self.0.len() < n { return Err(format!("response body ends early: {n} bytes expected, {} left", self.0.len())); } let (a, b) = self.0.split_at(n); self.0 = b; Ok(a) }
    pub fn u8(&mut self) -> Result<u8, String> { Ok(self.take(1)?[0]) }
    pub fn u32(&mut self) -> Result<u32, String> { Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn u64(&mut self) -> Result<u64, String> { Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap())) }
    pub fn bytes(&mut self) -> Result<Vec<u8>, String> { let n = self.u32()? as usize; Ok(self.take(n)?.to_vec()) }
    pub fn end(&self) -> Result<(), String> { if self.0.is_empty() { Ok(()) } else { Err(format!("{} bytes too many at the end of the response body", self.0.len())) } }
}
pub fn frame(ty: u8, op: u8, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![ty, op]; b.extend(id.to_be_bytes()); b.extend((payload.len() as u32).to_be_bytes()); b.extend(payload); b
}
/// listen on a free local port and serve every connection with the real session code
pub async fn serve(engine: nexo::NexoEngine) -> std::net::SocketAddr {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    tokio::spawn(async move { while let Ok((s, _)) = l.accept().await { let e = engine.clone(); tokio::spawn(async move { let _ = nexo::transport::tcp::connection::handle_connection(s, e).await; }); } });
    a
}
pub struct Client { pub s: tokio::net::TcpStream }
pub struct Frame { pub ty: u8, pub meta: u8, pub id: u32, pub body: Vec<u8> }
impl Client {
    pub async fn connect(a: std::net::SocketAddr) -> Client { let s = tokio::net::TcpStream::connect(a).await.unwrap(); let _ = s.set_nodelay(true); Client { s } }
    pub async fn send(&mut self, b: &[u8]) -> Result<(), String> { use tokio::io::AsyncWriteExt; self.s.write_all(b).await.map_err(|e| e.to_string()) }
    pub async fn recv(&mut self) -> Result<Frame, String> {
        use tokio::io::AsyncReadExt;
        let mut h = [0u8; 10];
        self.s.read_exact(&mut h).await.map_err(|e| format!("reading a frame header: {e}"))?;
        let n = u32::from_be_bytes(h[6..10].try_into().unwrap()) as usize;
        if n > 100_000_000 { return Err(format!("the server sent a frame of {n} bytes")); }
        let mut body = vec![0u8; n];
        self.s.read_exact(&mut body).await.map_err(|e| format!("reading a frame body: {e}"))?;
        Ok(Frame { ty: h[0], meta: h[1], id: u32::from_be_bytes(h[2..6].try_into().unwrap()), body })
    }
    /// one request, its response (pushes in between are dropped)
    pub async fn ask(&mut self, op: u8, id: u32, payload: &[u8]) -> Result<Frame, String> {
        self.send(&frame(1, op, id, payload)).await?;
        loop { let f = self.recv().await?; if f.ty == 2 && f.id == id { return Ok(f); } }
    }
}
