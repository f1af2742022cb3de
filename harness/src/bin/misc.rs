//! K01 (key-value map), C01 (options), H01 (listings and payload rendering), F01 (names and files).
use bytes::Bytes;
use nexo::brokers::pub_sub::ClientId;
use nexo::brokers::queue::options::QueueCreateOptions;
use nexo::brokers::store::config::StoreConfig;
use nexo::brokers::store::StoreManager;
use nexo::transport::http::payload::payload_to_json_value;
use nexo::NexoEngine;
use nexo_search::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn store(rt: &tokio::runtime::Runtime, default_ttl: u64, cleanup: u64) -> StoreManager { let _g = rt.enter(); StoreManager::new(Arc::new(StoreConfig { cleanup_interval_secs: cleanup, default_ttl_secs: default_ttl })) }
fn big(rng: &mut Rng) -> u64 { *rng.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 1000, i64::MAX as u64, 1 << 40, 1 << 33, 100_000_000_000_000]) }
fn unix() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }

// ---------------------------------------------------------------- K01
fn map_history(run: &mut Run, n: usize) {
    let mut rng = run.rng("map");
    for _ in 0..n {
        if run.done() { break; }
        let keys: Vec<String> = (0..rng.range(1, 6)).map(|_| (*rng.pick(&["", "a", "ab", "a/b", "é", "A", " a", "a\0", "b", "aa"])).to_string()).collect();
        let ops: Vec<(u8, usize, Option<u64>, Vec<u8>)> = (0..rng.range(1, 40)).map(|_| (rng.below(5) as u8, rng.below(keys.len()), match rng.below(4) { 0 => None, 1 => Some(0), 2 => Some(big(&mut rng)), _ => Some(rng.range(60, 9000) as u64) }, rng.bytes(12))).collect();
        run.case("map-history", json!({"keys": keys, "ops (0,1 set; 2 delete; 3,4 get), key, ttl, value": ops}), true, || {
            let rt1 = rt_small(); let s = store(&rt1, 500, 1); let mut want: BTreeMap<&str, Vec<u8>> = BTreeMap::new();
            for (i, (op, k, ttl, v)) in ops.iter().enumerate() {
                let k = keys[*k].as_str();
                match op {
                    0 | 1 => { s.map.set(k.to_string(), Bytes::from(v.clone()), *ttl); want.insert(k, v.clone()); }
                    2 => { let d = s.map.del(k); let w = want.remove(k).is_some(); ensure!(d == w, "step {i}: deleting {k:?} says {d}, the key {} there", if w { "was" } else { "was not" }); }
                    _ => {}
                }
                for q in &keys { let g = s.map.get(q).map(|b| b.to_vec()); ensure!(g.as_ref() == want.get(q.as_str()), "step {i}: reading {q:?} gives {g:?}, the latest write is {:?}", want.get(q.as_str())); }
            }
            Ok(())
        });
    }
}
fn rt_small() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap() }
fn map_expiry(run: &mut Run, n: usize) {
    let mut rng = run.rng("mapttl");
    for i in 0..n {
        if run.done() { break; }
        let default = rng.range(1, 3) as u64; let cleanup = if i % 2 == 0 { 1 } else { 3600 };
        let keys: Vec<(String, Option<u64>, bool)> = (0..rng.range(6, 14)).map(|k| (format!("k{k}"), match rng.below(6) { 0 => None, 1 => Some(0), 2 => Some(big(&mut rng)), _ => Some(rng.range(1, 3) as u64) }, rng.chance(1, 3))).collect();
        run.case("map-expiry", json!({"default_ttl_s": default, "cleanup_every_s": cleanup, "keys (key, ttl, written twice)": keys}), true, || {
            let rt1 = rt_small(); let s = store(&rt1, default, cleanup);
            for (k, ttl, twice) in &keys { if *twice { s.map.set(k.clone(), Bytes::from_static(b"old"), Some(if ttl.unwrap_or(0) > 1 { 1 } else { 4000 })); } }
            let t0 = Instant::now();
            for (k, ttl, _) in &keys { s.map.set(k.clone(), Bytes::from(format!("v-{k}")), *ttl); }
            let t1 = Instant::now();
            for r in 0..16 {
                let at = Duration::from_millis(60 + 215 * r); let e = t0.elapsed(); if at > e { std::thread::sleep(at - e); }
                for (k, ttl, _) in &keys {
                    let l = match ttl { None | Some(0) => default, Some(x) => *x } as f64;
                    let before = t1.elapsed().as_secs_f64(); let g = s.map.get(k).map(|b| String::from_utf8_lossy(&b).to_string()); let after = t0.elapsed().as_secs_f64();
                    if after < l - 0.003 { ensure!(g.as_deref() == Some(&format!("v-{k}")), "{k} with time-to-live {ttl:?} (default {default} s) reads {g:?} after {before:.3} s"); }
                    if before > l + 0.003 { ensure!(g.is_none(), "{k} with time-to-live {ttl:?} (default {default} s) still reads {g:?} after {after:.3} s"); }
                }
            }
            Ok(())
        });
    }
}
fn map_threads(run: &mut Run, n: usize) {
    let mut rng = run.rng("mapthreads");
    for _ in 0..n {
        if run.done() { break; }
        let (threads, per, seed) = (rng.range(2, 6), rng.range(50, 400), rng.next());
        run.case("map-threads", json!({"threads": threads, "writes_each": per, "seed": seed}), true, || {
            let rt1 = rt_small(); let s = Arc::new(store(&rt1, 500, 1));
            let hs: Vec<_> = (0..threads).map(|t| { let s = s.clone(); std::thread::spawn(move || -> Result<(), String> {
                for i in 0..per {
                    let k = format!("own{t}"); let v = format!("{t}:{i}");
                    s.map.set(k.clone(), Bytes::from(v.clone()), Some(1000)); s.map.set("shared".into(), Bytes::from(v.clone()), None);
                    ensure!(s.map.get(&k).map(|b| b.to_vec()) == Some(v.clone().into_bytes()), "thread {t} reads another value than it wrote to its own key at write {i}");
                    let g = s.map.get("shared").map(|b| String::from_utf8_lossy(&b).to_string()); ensure!(g.is_some(), "the shared key reads as missing");
                    if i % 3 == 0 { s.map.del(&k); ensure!(s.map.get(&k).is_none(), "a deleted key still reads"); }
                }
                Ok(())
            }) }).collect();
            for h in hs { h.join().map_err(|_| "thread panicked".to_string())??; }
            let g = s.map.get("shared").map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
            ensure!((0..threads).any(|t| g == format!("{t}:{}", per - 1)), "the shared key ends as {g:?}, which is nobody's last write");
            Ok(())
        });
    }
}
fn map_wire(run: &mut Run, n: usize) {
    let mut rng = run.rng("mapwire");
    for _ in 0..n {
        if run.done() { break; }
        let ttl = match rng.below(4) { 0 => Value::Null, 1 => json!(0), 2 => json!(big(&mut rng)), _ => json!(rng.range(50, 5000)) }; let val = rng.bytes(20);
        run.case("map-wire", json!({"ttl": ttl, "value": hx(&val)}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let rt1 = rt();
            wait(&rt1, "session", async {
                let e = NexoEngine::new(&scratch_config(tmp.path())).await; let a = serve(e).await; let mut c = Client::connect(a).await;
                let mut b = vec![]; put_str(&mut b, "k"); put_str(&mut b, &if ttl.is_null() { "{}".to_string() } else { json!({"ttl": ttl}).to_string() }); b.extend(&val);
                let f = c.ask(2, 1, &b).await.map_err(|e| format!("a write with time-to-live {ttl}: {e}"))?; ensure!(f.meta == 0, "a write with time-to-live {ttl} is answered with status {}", f.meta);
                let mut g = vec![]; put_str(&mut g, "k");
                let f = c.ask(3, 2, &g).await?; ensure!(f.body == val, "read back {} after writing {} with time-to-live {ttl}", hx(&f.body), hx(&val));
                c.ask(4, 3, &g).await?; let f = c.ask(3, 4, &g).await?; ensure!(f.meta == 2 || f.body.is_empty(), "a deleted key reads {}", hx(&f.body));
                Ok(())
            })?
        });
    }
}

// ---------------------------------------------------------------- C01
fn opt(rng: &mut Rng) -> Option<u64> { match rng.below(4) { 0 => None, 1 => Some(0), 2 => Some(rng.range(1, 100000) as u64), _ => Some(*rng.pick(&[1u64, u64::MAX, u32::MAX as u64, 1 << 40])) } }
fn options(run: &mut Run, n: usize) {
    let mut rng = run.rng("options");
    for i in 0..n {
        if run.done() { break; }
        let vis = opt(&mut rng); let retr = opt(&mut rng).map(|x| x.min(u32::MAX as u64)); let age = opt(&mut rng); let by = opt(&mut rng);
        let ret_given = rng.chance(3, 4); let retain = match rng.below(3) { 0 => None, 1 => Some(true), _ => Some(false) }; let ttl = opt(&mut rng); let nulls = rng.chance(1, 4);
        let d: Vec<u64> = (0..6).map(|_| rng.range(1, 1 << 30) as u64).collect();
        let obj = |f: &[(&str, Value)]| { let mut m = serde_json::Map::new(); for (k, v) in f { if !v.is_null() || nulls { m.insert(k.to_string(), v.clone()); } } Value::Object(m) };
        let qo = obj(&[("visibilityTimeoutMs", json!(vis)), ("maxRetries", json!(retr))]);
        let so = if ret_given { json!({"retention": obj(&[("maxAgeMs", json!(age)), ("maxBytes", json!(by))])}) } else if nulls { json!({"retention": null}) } else { json!({}) };
        let po = obj(&[("retain", json!(retain)), ("ttl", json!(ttl))]);
        run.case("options", json!({"queue": qo, "stream": so, "publish": po, "defaults": d, "n": i}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let rt1 = rt();
            let mut c = scratch_config(tmp.path());
            c.queue.visibility_timeout_ms = d[0]; c.queue.max_retries = d[1] as u32; c.stream.default_retention_age_ms = d[2]; c.stream.default_retention_bytes = d[3]; c.stream.ack_wait_ms = d[4]; c.stream.max_ack_pending = d[5] as usize;
            let dttl = nexo::config::Config::global().pubsub.default_retained_ttl_seconds;
            wait(&rt1, "session", async {
                let e = NexoEngine::new(&c).await; let a = serve(e.clone()).await; let mut cl = Client::connect(a).await;
                let mut b = vec![]; put_str(&mut b, "q"); put_str(&mut b, &qo.to_string()); let f = cl.ask(0x10, 1, &b).await?; ensure!(f.meta == 0, "creating a queue with {qo}: {}", String::from_utf8_lossy(&f.body));
                let mut b = vec![]; put_str(&mut b, "s"); put_str(&mut b, &so.to_string()); let f = cl.ask(0x30, 2, &b).await?; ensure!(f.meta == 0, "creating a stream with {so}: {}", String::from_utf8_lossy(&f.body));
                let mut b = vec![]; put_str(&mut b, "t"); put_str(&mut b, &po.to_string()); b.extend(b"\x00v"); let u0 = unix(); let f = cl.ask(0x21, 3, &b).await?; ensure!(f.meta == 0, "publishing with {po}: {}", String::from_utf8_lossy(&f.body)); let u1 = unix();
                for again in [false, true] {
                    let q = e.queue.get_snapshot().await; let q = q.iter().find(|x| x.name == "q").ok_or("no queue")?;
                    ensure!(q.config.visibility_timeout_ms == vis.unwrap_or(d[0]), "visibility timeout given {vis:?}, default {}: resolved to {}", d[0], q.config.visibility_timeout_ms);
                    ensure!(q.config.max_retries as u64 == retr.unwrap_or(d[1]), "retries given {retr:?}, default {}: resolved to {}", d[1], q.config.max_retries);
                    let s = e.stream.get_snapshot().await; let s = s.topics.iter().find(|x| x.name == "s").ok_or("no stream")?;
                    let w = |x: Option<u64>, d: u64| match if ret_given { x } else { None } { None => Some(d), Some(0) => None, Some(v) => Some(v) };
                    ensure!(s.config.retention.max_age_ms == w(age, d[2]), "retention age given {so}, default {}: resolved to {:?}", d[2], s.config.retention.max_age_ms);
                    ensure!(s.config.retention.max_bytes == w(by, d[3]), "retention bytes given {so}, default {}: resolved to {:?}", d[3], s.config.retention.max_bytes);
                    ensure!(s.config.ack_wait_ms == d[4] && s.config.max_ack_pending == d[5] as usize && s.config.max_segment_size == c.stream.max_segment_size && s.config.max_deliveries == c.stream.max_deliveries, "stream options without a client value differ from the configured ones");
                    if again { break; }
                    // options of a second creation do not change an existing queue or stream
                    let mut b = vec![]; put_str(&mut b, "q"); put_str(&mut b, "{\"visibilityTimeoutMs\":77,\"maxRetries\":78}"); cl.ask(0x10, 4, &b).await?;
                    let mut b = vec![]; put_str(&mut b, "s"); put_str(&mut b, "{\"retention\":{\"maxAgeMs\":77,\"maxBytes\":78}}"); cl.ask(0x30, 5, &b).await?;
                }
                // retain and ttl show in the stored retained values
                let t0 = Instant::now(); let kept = retain == Some(true); let live = ttl != Some(0);
                if !kept || !live { tokio::time::sleep(Duration::from_millis(30)).await; }
                loop {
                    let r = retained_row(tmp.path(), "t");
                    match r { Some(x) => { ensure!(kept, "a publish with options {po} is retained"); let l = ttl.unwrap_or(dttl); ensure!(x >= u0.saturating_add(l) && x <= u1.saturating_add(l), "a publish with options {po} (default time-to-live {dttl} s) expires at {x}, now is {u0}"); break; } None if !kept || !live => break, None => { ensure!(t0.elapsed() < Duration::from_secs(20), "a publish with options {po} is not retained"); tokio::time::sleep(Duration::from_millis(5)).await; } }
                }
                Ok(())
            })?
        });
    }
}
fn retained_row(dir: &Path, t: &str) -> Option<u64> {
    let c = rusqlite::Connection::open_with_flags(dir.join("pubsub").join("retained.db"), rusqlite::OpenFlags::SQLITE_OPEN_READ_ONLY).ok()?;
    let _ = c.busy_timeout(Duration::from_secs(5));
    c.query_row("SELECT expires_at FROM retained WHERE path = ?", [t], |r| r.get::<_, Option<i64>>(0)).ok()?.map(|x| x as u64)
}

// ---------------------------------------------------------------- H01
async fn http(engine: &NexoEngine) -> std::net::SocketAddr {
    let app = axum::Router::new().merge(nexo::brokers::store::http::routes()).merge(nexo::brokers::queue::http::routes()).merge(nexo::brokers::stream::http::routes()).merge(nexo::brokers::pub_sub::http::routes()).with_state(engine.clone());
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap(); let a = l.local_addr().unwrap();
    tokio::spawn(async move { let _ = axum::serve(l, app).await; });
    a
}
async fn get(a: std::net::SocketAddr, path: &str) -> Result<Value, String> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let mut s = tokio::net::TcpStream::connect(a).await.map_err(|e| e.to_string())?;
    s.write_all(format!("GET {path} HTTP/1.0\r\nHost: x\r\n\r\n").as_bytes()).await.map_err(|e| e.to_string())?;
    let mut b = vec![]; let _ = s.read_to_end(&mut b).await;
    let i = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("GET {path}: the connection ends without a response"))?;
    let head = String::from_utf8_lossy(&b[..i]).to_string();
    if !head.contains(" 200 ") { return Err(format!("GET {path}: {}", head.lines().next().unwrap_or(""))); }
    serde_json::from_slice(&b[i + 4..]).map_err(|e| format!("GET {path}: {e}"))
}
fn pct(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }
fn rendered(p: &[u8]) -> Value {
    if p.is_empty() { return Value::Null; }
    let text = |b: &[u8]| Value::String(String::from_utf8_lossy(b).to_string());
    let js = |b: &[u8]| serde_json::from_slice::<Value>(b).unwrap_or_else(|_| text(b));
    match p[0] { 0 => Value::String(format!("0x{}", p[1..].iter().map(|b| format!("{b:02x}")).collect::<String>())), 1 => text(&p[1..]), 2 => js(&p[1..]), _ => js(p) }
}
fn payload(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    match rng.below(8) { 0 => return v, 1 | 2 => v.push(2), 3 => v.push(1), 4 => v.push(0), 5 => v.push(rng.next() as u8), _ => {} }
    match rng.below(7) { 0 => v.extend(b"{\"a\":[1,null,true,\"x\"]}"), 1 => v.extend(b"{\"a\":"), 2 => v.extend("h\u{e9}llo \u{1F600}".as_bytes()), 3 => v.extend([0xff, 0xfe, 0xc3, 0x28]), 4 => v.extend(rng.bytes(40)), 5 => v.extend(format!("{}", rng.next()).as_bytes()), _ => v.extend(b"\"quoted\"") }
    v
}
fn render(run: &mut Run, n: usize) {
    let mut rng = run.rng("render");
    let mut fixed: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for t in [0u8, 1, 2, 3, 34, 91, 123] { for b in 0..=255u8 { fixed.push(vec![t, b]); } }
    for k in [100usize, 127, 128, 129, 4000] { let mut v = vec![2]; v.extend(vec![b'['; k]); v.extend(vec![b']'; k]); fixed.push(v.clone()); fixed.push(v[1..].to_vec()); }
    for s in ["1e400", "-0", "NaN", "1e5", "18446744073709551616", "\"\\ud800\"", "{\"a\":1,\"a\":2}", " 1 ", "", "null", "0x12"] { let mut v = vec![2]; v.extend(s.as_bytes()); fixed.push(v); fixed.push(s.as_bytes().to_vec()); }
    fixed.push(vec![0; 70000]); fixed.push(vec![b'x'; 70000]);
    for i in 0..n + fixed.len() {
        if run.done() { break; }
        let p = if i < fixed.len() { fixed[i].clone() } else { payload(&mut rng) };
        run.case("render", json!({"payload": clip(&hx(&p))}), true, || { let g = payload_to_json_value(&p); let w = rendered(&p); ensure!(g == w, "rendered as {}, expected {}", clip(&g.to_string()), clip(&w.to_string())); Ok(()) });
    }
}
fn pages(rng: &mut Rng, total: usize) -> Vec<(usize, usize)> {
    let mut v = vec![(0, usize::MAX), (usize::MAX, usize::MAX), (1, usize::MAX), (0, 0), (total, 1), (usize::MAX, 1), (total.saturating_sub(1), 5)];
    for _ in 0..6 { v.push((rng.below(total + 3), rng.below(total + 3))); }
    v
}
fn page<T: Clone>(all: &[T], o: usize, l: usize) -> Vec<T> { all.iter().skip(o).take(l).cloned().collect() }
/// keys: the pages of any size, put together, are the live matching keys, each once
fn list_keys(run: &mut Run, n: usize) {
    let mut rng = run.rng("listkeys");
    for i in 0..n {
        if run.done() { break; }
        let expired = i % 10 == 9;
        let keys: Vec<(String, Option<u64>, Vec<u8>)> = (0..rng.below(25)).map(|k| (format!("{}{k}", *rng.pick(&["a", "ab", "é", "x/", ""])), match rng.below(5) { 0 => Some(big(&mut rng)), 1 => Some(1), _ => None }, payload(&mut rng))).map(|(k, t, p)| (k, if expired || t != Some(1) { t } else { None }, p)).collect();
        let search = match rng.below(4) { 0 => Some("a"), 1 => Some("1"), 2 => Some("é"), _ => None };
        let seed = rng.next();
        run.case("list-keys", json!({"keys (key, ttl)": keys.iter().map(|k| (&k.0, k.1)).collect::<Vec<_>>(), "search": search, "after_expiry": expired}), keys.len() > 1, || {
            let mut rng = Rng::new(seed);
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let rt1 = rt();
            wait(&rt1, "listing", async {
                let mut c = scratch_config(tmp.path()); c.store.cleanup_interval_secs = 3600; let e = NexoEngine::new(&c).await; let a = http(&e).await;
                for (k, t, p) in &keys { e.store.map.set(k.clone(), Bytes::from(p.clone()), *t); }
                if expired { tokio::time::sleep(Duration::from_millis(1050)).await; }
                let want: BTreeMap<String, Vec<u8>> = keys.iter().filter(|k| !(expired && k.1 == Some(1)) && search.map_or(true, |s| k.0.contains(s))).map(|k| (k.0.clone(), k.2.clone())).collect();
                let full = e.store.scan(usize::MAX, 0, search.map(|s| s.to_string()));
                ensure!(full.total == want.len(), "{} keys match and are live, the listing's total is {}", want.len(), full.total);
                let order: Vec<String> = full.entries.iter().map(|x| x.key.clone()).collect();
                ensure!(order.len() == want.len() && order.iter().collect::<BTreeSet<_>>() == want.keys().collect(), "the full listing is {order:?}, live and matching are {:?}", want.keys());
                for x in &full.entries { ensure!(x.payload == want[&x.key], "{:?} is listed with another value", x.key); }
                for (o, l) in pages(&mut rng, want.len()) {
                    let p = e.store.scan(l, o, search.map(|s| s.to_string())); let got: Vec<String> = p.entries.iter().map(|x| x.key.clone()).collect();
                    ensure!(p.total == want.len(), "page {o}+{l}: total {} of {}", p.total, want.len()); ensure!(got == page(&order, o, l), "page {o}+{l} is {got:?} of {order:?}");
                    let q = format!("/api/store?limit={l}&offset={o}{}", search.map(|s| format!("&search={}", pct(s))).unwrap_or_default());
                    let v = get(a, &q).await?; let hk: Vec<String> = v["keys"].as_array().ok_or("no keys")?.iter().map(|x| x["key"].as_str().unwrap_or("?").to_string()).collect();
                    ensure!(hk == got && v["total"] == json!(want.len()), "GET {q} lists {hk:?} (total {}), the page is {got:?} (total {})", v["total"], want.len());
                    for x in v["keys"].as_array().unwrap() { let k = x["key"].as_str().unwrap(); ensure!(x["value"] == rendered(&want[k]), "GET {q} renders {} as {}", hx(&want[k]), x["value"]); }
                }
                Ok(())
            })?
        });
    }
}
fn list_topics(run: &mut Run, n: usize) {
    let mut rng = run.rng("listtopics");
    for _ in 0..n {
        if run.done() { break; }
        let segs = ["a", "b", "", "c", "é"];
        let subs: Vec<(u8, String)> = (0..rng.below(12)).map(|_| { let mut v: Vec<&str> = (0..rng.range(1, 3)).map(|_| if rng.chance(1, 5) { "+" } else { *rng.pick(&segs) }).collect(); if rng.chance(1, 5) { v.push("#"); } (rng.below(3) as u8, v.join("/")) }).collect();
        let rets: Vec<(String, Vec<u8>)> = (0..rng.below(10)).map(|_| { let v: Vec<&str> = (0..rng.range(1, 3)).map(|_| *rng.pick(&segs)).collect(); (v.join("/"), payload(&mut rng)) }).collect();
        let search = match rng.below(5) { 0 => Some("a"), 1 => Some("/"), 2 => Some("é"), 3 => Some("+"), _ => None }; let seed = rng.next();
        run.case("list-topics", json!({"subscriptions": subs, "retained": rets.iter().map(|r| (&r.0, hx(&r.1))).collect::<Vec<_>>(), "search": search}), subs.len() + rets.len() > 1, || {
            let mut rng = Rng::new(seed);
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let rt1 = rt();
            wait(&rt1, "listing", async {
                let e = NexoEngine::new(&scratch_config(tmp.path())).await; let a = http(&e).await;
                let mut rx = vec![]; for c in 0..3u8 { let (tx, r) = tokio::sync::mpsc::unbounded_channel(); e.pubsub.connect(ClientId(format!("c{c}")), tx); rx.push(r); }
                let mut want: BTreeMap<String, (BTreeSet<u8>, Option<Vec<u8>>)> = BTreeMap::new();
                for (c, p) in &subs { e.pubsub.subscribe(&ClientId(format!("c{c}")), p); want.entry(p.clone()).or_default().0.insert(*c); }
                for (t, v) in &rets { e.pubsub.publish(t, Bytes::from(v.clone()), true, Some(1000)); want.entry(t.clone()).or_default().1 = if v.is_empty() { None } else { Some(v.clone()) }; }
                let all: Vec<(String, usize, Option<Vec<u8>>)> = want.iter().filter(|(t, x)| (!x.0.is_empty() || x.1.is_some()) && search.map_or(true, |s| t.contains(s))).map(|(t, x)| (t.clone(), x.0.len(), x.1.clone())).collect();
                for (o, l) in pages(&mut rng, all.len()) {
                    let s = e.pubsub.scan_topics(l, o, search); let got: Vec<_> = s.topics.iter().map(|t| (t.full_path.clone(), t.subscribers, t.retained_payload.as_ref().map(|b| b.to_vec()))).collect();
                    ensure!(s.total_topics == all.len(), "page {o}+{l}: total {}, topics are {all:?}", s.total_topics); ensure!(got == page(&all, o, l), "page {o}+{l} is {got:?}, topics are {all:?}");
                    ensure!(s.active_clients == 3, "{} clients, 3 are connected", s.active_clients);
                    let wm: BTreeSet<(String, String)> = subs.iter().filter(|x| x.1.contains('#') && search.map_or(true, |s| x.1.contains(s))).map(|x| (x.1.clone(), format!("c{}", x.0))).collect();
                    let ws: BTreeSet<(String, String)> = subs.iter().filter(|x| !x.1.contains('#') && x.1.contains('+') && search.map_or(true, |s| x.1.contains(s))).map(|x| (x.1.clone(), format!("c{}", x.0))).collect();
                    let gm: Vec<(String, String)> = s.wildcards.multi_level.iter().map(|w| (w.pattern.clone(), w.client_id.clone())).collect(); let gs: Vec<(String, String)> = s.wildcards.single_level.iter().map(|w| (w.pattern.clone(), w.client_id.clone())).collect();
                    ensure!(gm.len() == wm.len() && gm.iter().cloned().collect::<BTreeSet<_>>() == wm && gs.len() == ws.len() && gs.iter().cloned().collect::<BTreeSet<_>>() == ws, "wildcard subscriptions are listed as {gm:?} and {gs:?}, they are {wm:?} and {ws:?}");
                    let q = format!("/api/pubsub?limit={l}&offset={o}{}", search.map(|s| format!("&search={}", pct(s))).unwrap_or_default());
                    let v = get(a, &q).await?; let ht: Vec<_> = v["topics"].as_array().ok_or("no topics")?.iter().map(|x| (x["full_path"].as_str().unwrap_or("?").to_string(), x["subscribers"].as_u64().unwrap_or(99) as usize, x["retained_value"].clone())).collect();
                    let hw: Vec<_> = page(&all, o, l.min(500)).into_iter().map(|x| (x.0, x.1, x.2.map(|p| rendered(&p)).unwrap_or(Value::Null))).collect();
                    ensure!(ht == hw && v["total_topics"] == json!(all.len()), "GET {q} lists {ht:?} (total {}), the page is {hw:?} (total {})", v["total_topics"], all.len());
                }
                Ok(())
            })?
        });
    }
}
fn list_queue(run: &mut Run, n: usize) {
    let mut rng = run.rng("listqueue");
    for _ in 0..n {
        if run.done() { break; }
        let msgs: Vec<(u8, Vec<u8>)> = (0..rng.below(14)).map(|_| (rng.below(4) as u8 * 85, payload(&mut rng))).collect();
        let (taken, acked, dead) = (rng.below(6), rng.below(3), rng.below(5));
        let search = match rng.below(4) { 0 => Some("a"), 1 => Some("1"), 2 => Some("é"), _ => None }; let seed = rng.next();
        run.case("list-queue", json!({"messages (priority, payload)": msgs.iter().map(|m| (m.0, hx(&m.1))).collect::<Vec<_>>(), "taken": taken, "acknowledged": acked, "dead-lettered": dead, "search": search}), msgs.len() > 1, || {
            let mut rng = Rng::new(seed);
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let rt1 = rt();
            wait(&rt1, "listing", async {
                let e = NexoEngine::new(&scratch_config(tmp.path())).await; let a = http(&e).await;
                e.queue.create_queue("q x".into(), QueueCreateOptions { visibility_timeout_ms: Some(600000), max_retries: Some(1) }).await?;
                e.queue.create_queue("other".into(), QueueCreateOptions::default()).await?; e.queue.push("other".into(), Bytes::from_static(b"o"), 0).await?;
                for (p, m) in &msgs { e.queue.push("q x".into(), Bytes::from(m.clone()), *p).await?; }
                type M = (String, Vec<u8>, u8, u32);
                let mut all: Vec<M> = vec![]; for m in e.queue.get_messages("q x".into(), "pending".into(), 0, usize::MAX, None).await.ok_or("queue not found")?.1 { all.push((m.id.to_string(), m.payload.to_vec(), m.priority, m.attempts)); }
                let mut a1: Vec<(u8, Vec<u8>)> = all.iter().map(|m| (m.2, m.1.clone())).collect(); let mut b1 = msgs.clone(); a1.sort(); b1.sort(); ensure!(a1 == b1, "waiting messages are listed as {a1:?}, pushed were {b1:?}");
                let (mut fly, mut dlq): (Vec<M>, Vec<M>) = (vec![], vec![]);
                for k in 0..taken + dead {
                    let Some(m) = e.queue.pop("q x").await else { break; };
                    let i = all.iter().position(|x| x.0 == m.id.to_string()).ok_or("popped an unknown message")?; let mut x = all.remove(i); x.3 += 1;
                    if k < dead { ensure!(e.queue.nack("q x", m.id, "r".into()).await, "nack refused"); dlq.push(x); } else if k < dead + acked { ensure!(e.queue.ack("q x", m.id).await, "ack refused"); } else { fly.push(x); }
                }
                for s in e.queue.get_snapshot().await { let w = if s.name == "other" { (1, 0, 0) } else { (all.len(), fly.len(), dlq.len()) }; ensure!((s.pending, s.inflight, s.dlq) == w, "queue {:?} counts {:?} waiting, in flight and dead, they are {w:?}", s.name, (s.pending, s.inflight, s.dlq)); }
                let v = get(a, "/api/queue").await?; let q = v.as_array().ok_or("no list")?.iter().find(|x| x["name"] == "q x").ok_or("queue not listed")?.clone(); ensure!(q["pending"] == json!(all.len()) && q["inflight"] == json!(fly.len()) && q["dlq"] == json!(dlq.len()), "GET /api/queue says {q}");
                for (state, set) in [("pending", &all), ("InFlight", &fly)] {
                    let sel: Vec<M> = set.iter().filter(|m| search.map_or(true, |s| String::from_utf8_lossy(&m.1).contains(s))).cloned().collect();
                    let f = e.queue.get_messages("q x".into(), state.into(), 0, usize::MAX, search.map(|s| s.to_string())).await.ok_or("queue not found")?;
                    let order: Vec<M> = f.1.iter().map(|m| (m.id.to_string(), m.payload.to_vec(), m.priority, m.attempts)).collect();
                    let (mut x, mut y) = (order.clone(), sel.clone()); x.sort(); y.sort(); ensure!(x == y && f.0 == sel.len(), "{state} messages matching {search:?} are {y:?}, listed are {x:?} (total {})", f.0);
                    for (o, l) in pages(&mut rng, sel.len()) {
                        let p = e.queue.get_messages("q x".into(), state.into(), o, l, search.map(|s| s.to_string())).await.ok_or("queue not found")?;
                        let got: Vec<M> = p.1.iter().map(|m| (m.id.to_string(), m.payload.to_vec(), m.priority, m.attempts)).collect(); ensure!(p.0 == sel.len() && got == page(&order, o, l), "{state} page {o}+{l} has {} of {} messages or a wrong total {}", got.len(), page(&order, o, l).len(), p.0);
                        let u = format!("/api/queue/q%20x/messages?state={state}&limit={l}&offset={o}{}", search.map(|s| format!("&search={}", pct(s))).unwrap_or_default());
                        let v = get(a, &u).await?; let h: Vec<(String, Value, String)> = v["messages"].as_array().ok_or("no messages")?.iter().map(|m| (m["id"].as_str().unwrap_or("?").to_string(), m["payload"].clone(), m["state"].as_str().unwrap_or("?").to_string())).collect();
                        let w: Vec<(String, Value, String)> = page(&order, o, l.min(1000)).into_iter().map(|m| (m.0, rendered(&m.1), state.to_lowercase())).collect(); ensure!(h == w && v["total"] == json!(sel.len()), "GET {u} lists {h:?} (total {}), the page is {w:?}", v["total"]);
                    }
                }
                let want: Vec<M> = dlq.iter().rev().cloned().collect();
                for (o, l) in pages(&mut rng, want.len()) {
                    let p = e.queue.peek_dlq("q x", l, o).await?; let got: Vec<(String, Vec<u8>, u32)> = p.1.iter().map(|m| (m.id.to_string(), m.payload.to_vec(), m.attempts)).collect(); let w: Vec<_> = page(&want, o, l).into_iter().map(|m| (m.0, m.1, m.3)).collect();
                    ensure!(p.0 == want.len() && got == w, "dead-letter page {o}+{l} is {got:?} (total {}), expected {w:?} of {}", p.0, want.len());
                    let u = format!("/api/queue/q%20x/messages?state=dlq&limit={l}&offset={o}"); let v = get(a, &u).await?; ensure!(v["messages"].as_array().map(|x| x.len()) == Some(w.len()) && v["total"] == json!(want.len()), "GET {u} lists {}", v["messages"]);
                }
                Ok(())
            })?
        });
    }
}
fn list_stream(run: &mut Run, n: usize) {
    let mut rng = run.rng("liststream");
    for _ in 0..n {
        if run.done() { break; }
        let msgs: Vec<Vec<u8>> = (0..rng.below(12)).map(|_| payload(&mut rng)).collect(); let seed = rng.next();
        run.case("list-stream", json!({"messages": msgs.iter().map(|m| hx(m)).collect::<Vec<_>>()}), msgs.len() > 1, || {
            let mut rng = Rng::new(seed);
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let rt1 = rt();
            wait(&rt1, "listing", async {
                let e = NexoEngine::new(&scratch_config(tmp.path())).await; let a = http(&e).await;
                e.stream.create_topic("s".into(), Default::default()).await?; for m in &msgs { e.stream.publish("s", Bytes::from(m.clone())).await?; }
                let v = get(a, "/api/stream").await?; ensure!(v["topics"][0]["name"] == "s" && v["topics"][0]["last_seq"] == json!(msgs.len()), "GET /api/stream says {}", v["topics"]);
                for _ in 0..8 {
                    let l = rng.below(msgs.len() + 3); let from = if rng.chance(1, 4) { None } else { Some(*rng.pick(&[0u64, 1, 2, msgs.len() as u64, msgs.len() as u64 + 1, u64::MAX, rng_u(seed) % 9])) };
                    let u = format!("/api/stream/s/messages?limit={l}{}", from.map(|f| format!("&from={f}")).unwrap_or_default()); let v = get(a, &u).await?;
                    let got: Vec<(u64, Value)> = v["messages"].as_array().ok_or("no messages")?.iter().map(|m| (m["seq"].as_u64().unwrap_or(0), m["payload"].clone())).collect();
                    let all: Vec<(u64, Value)> = msgs.iter().enumerate().map(|(i, m)| (i as u64 + 1, rendered(m))).collect();
                    let f = from.unwrap_or((msgs.len() as u64).saturating_sub((l as u64).saturating_sub(1)).max(1));
                    let mut w: Vec<(u64, Value)> = all.into_iter().filter(|m| m.0 >= f).take(l).collect(); w.reverse(); ensure!(got == w, "GET {u} lists {got:?}, expected {w:?}");
                }
                Ok(())
            })?
        });
    }
}
fn rng_u(s: u64) -> u64 { Rng::new(s).next() }

// ---------------------------------------------------------------- F01
/// Every file below `d` with its content (directories as None).
fn tree(d: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = BTreeMap::new(); let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() { if let Ok(r) = std::fs::read_dir(&p) { for e in r.flatten() { let q = e.path(); let k = q.strip_prefix(d).unwrap().to_path_buf(); if e.file_type().map(|t| t.is_dir()).unwrap_or(false) { m.insert(k, None); todo.push(q); } else { m.insert(k, Some(std::fs::read(&q).unwrap_or_default())); } } } }
    m
}
fn names(run: &mut Run, n: usize) {
    let mut rng = run.rng("names");
    for i in 0..n {
        if run.done() { break; }
        let pool = ["victim", "victim2", "", ".", "..", "/", "../", "../..", "../outside", "../../outside", "victim/", "victim/.", "./victim", "victim/..", "x/../victim", "victim/../victim2", "../queues", "../streams", "../streams/victim", "../queues/victim", "victim/1", "victim/config", "a/b", "a", "victim.db", "victim.config", "...", "victim\0", "ABS/outside", "ABS/data/streams/victim", "ABS/data", "victim/1.log", "..\\outside", "victim ", "%2e%2e", "victim%2F..", "groups.log", "é"];
        let ops: Vec<(u8, String)> = (0..rng.range(1, 6)).map(|k| (rng.below(8) as u8, (if i < pool.len() && k == 0 { pool[i] } else { *rng.pick(&pool) }).to_string())).collect();
        let ops: Vec<(u8, String)> = if i < pool.len() { let mut v: Vec<(u8, String)> = [1u8, 5, 2, 6, 0, 4].iter().map(|o| (*o, pool[i].to_string())).collect(); v.extend(ops); v } else { ops };
        run.case("names", json!({"ops (0/4 create, 1/5 delete, 2/6 exists, 3/7 create and push; queue/stream), name": ops}), true, || names_case(&ops));
    }
}
fn names_case(ops: &[(u8, String)]) -> Result<(), String> {
    let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let root = tmp.path().join("root"); let data = root.join("data");
    std::fs::create_dir_all(data.join("queues")).map_err(|e| e.to_string())?; std::fs::create_dir_all(root.join("outside/sub")).map_err(|e| e.to_string())?;
    for f in ["outside/config.json", "outside/1.log", "outside/groups.log", "outside.db", "outside.config.json", "data/keep.txt", "data/outside.db", "keep.txt"] { std::fs::write(root.join(f), format!("keep {f}")).map_err(|e| e.to_string())?; }
    std::fs::create_dir_all(data.join("outside")).map_err(|e| e.to_string())?; std::fs::write(data.join("outside/config.json"), "keep").map_err(|e| e.to_string())?;
    let t = |s: &str| s.replace("ABS", &root.to_string_lossy());
    let rt1 = rt();
    wait(&rt1, "session", async {
        let mut c = scratch_config(&data); c.queue.default_flush_ms = 1; c.stream.default_flush_ms = 1;
        let e = NexoEngine::new(&c).await; let a = serve(e.clone()).await; let mut cl = Client::connect(a).await;
        // two ordinary queues and streams with content
        for v in ["victim", "victim2"] {
            let mut b = vec![]; put_str(&mut b, v); put_str(&mut b, "{}"); cl.ask(0x10, 1, &b).await?; cl.ask(0x30, 2, &b).await?;
            e.queue.push(v.into(), Bytes::from(format!("queue {v}")), 1).await?; e.stream.publish(v, Bytes::from(format!("stream {v}"))).await?;
        }
        let settle = |root: PathBuf| async move { let mut last = tree(&root); let mut same = 0; for _ in 0..400 { tokio::time::sleep(Duration::from_millis(8)).await; let t = tree(&root); if t == last { same += 1; if same >= 4 { break; } } else { same = 0; last = t; } } last };
        let mut owner: BTreeMap<PathBuf, (char, String)> = BTreeMap::new();
        let mut now = settle(root.clone()).await;
        for p in now.keys() { let s = p.to_string_lossy().to_string(); for v in ["victim", "victim2"] { if s == format!("data/streams/{v}") || s.starts_with(&format!("data/streams/{v}/")) { owner.insert(p.clone(), ('s', v.into())); } if [".db", ".db-wal", ".db-shm", ".db-journal", ".config.json"].iter().any(|x| s == format!("data/queues/{v}{x}")) { owner.insert(p.clone(), ('q', v.into())); } } }
        let mut alive: BTreeSet<(char, String)> = ["victim", "victim2"].iter().flat_map(|v| [('q', v.to_string()), ('s', v.to_string())]).collect();
        let mut created = alive.clone();
        for (i, (op, name)) in ops.iter().enumerate() {
            let name = t(name); let kind = if *op < 4 { 'q' } else { 's' }; let mut b = vec![]; put_str(&mut b, &name);
            let who = (kind, name.clone());
            let base = if kind == 'q' { 0x10u8 } else { 0x30 };
            let (cr, ex, de) = if kind == 'q' { (base, 0x14u8, 0x15u8) } else { (base, 0x35, 0x36) };
            match op % 4 {
                0 | 3 => {
                    let mut b2 = b.clone(); put_str(&mut b2, "{}"); let f = cl.ask(cr, 10 + i as u32, &b2).await.map_err(|e| format!("step {i}: creating {name:?}: {e}"))?;
                    if f.meta == 0 { alive.insert(who.clone()); created.insert(who.clone());
                        if *op == 3 { let _ = e.queue.push(name.clone(), Bytes::from_static(b"new"), 1).await; }
                        if *op == 7 { let _ = e.stream.publish(&name, Bytes::from_static(b"new")).await; }
                    }
                }
                1 => { let f = cl.ask(de, 10 + i as u32, &b).await.map_err(|e| format!("step {i}: deleting {name:?}: {e}"))?; if f.meta == 0 { alive.remove(&who); } }
                _ => { let f = cl.ask(ex, 10 + i as u32, &b).await.map_err(|e| format!("step {i}: probing {name:?}: {e}"))?; let yes = f.meta == 0; let w = alive.contains(&who); ensure!(yes == w, "step {i}: probing {kind} {name:?} says {yes}, it {}", if w { "exists" } else { "was never created" }); }
            }
            let then = settle(root.clone()).await;
            for (p, v) in &now {
                if then.get(p) == Some(v) { continue; }
                let s = p.to_string_lossy().to_string();
                ensure!(owner.get(p) == Some(&who), "step {i}: operation {} on {kind} {name:?} {} {s}, which belongs to {:?}", op % 4, if then.contains_key(p) { "changed" } else { "deleted" }, owner.get(p));
            }
            for p in then.keys() { if now.contains_key(p) { continue; } let s = p.to_string_lossy().to_string();
                ensure!(s.starts_with(if kind == 'q' { "data/queues/" } else { "data/streams/" }), "step {i}: operation {} on {kind} {name:?} creates {s} outside its data directory", op % 4);
                ensure!(op % 4 != 2, "step {i}: probing {kind} {name:?} creates {s}");
                // inside the folder of another stream?
                for a in p.ancestors().skip(1) { if let Some(o) = owner.get(a) { ensure!(*o == who, "step {i}: operation on {kind} {name:?} creates {s} inside the files of {o:?}"); } }
                owner.insert(p.clone(), who.clone()); }
            owner.retain(|p, _| then.contains_key(p));
            now = then;
        }
        // no name shows another's messages
        for s in e.stream.get_snapshot().await.topics { if !created.contains(&('s', s.name.clone())) { return Err(format!("a stream {:?} appears that was never created", s.name)); } if s.name.starts_with("victim") && s.name.len() <= 7 { continue; } for m in e.stream.read(&s.name, 1, 100).await { ensure!(&m.payload[..] == b"new", "stream {:?} shows {:?}", s.name, String::from_utf8_lossy(&m.payload)); } }
        drop(cl); let _ = now;
        Ok::<_, String>(alive)
    })??;
    drop(rt1);
    // after a restart: only names that were created come back, and the untouched victims with their own content
    let rt2 = rt();
    wait(&rt2, "restart", async {
        let e = NexoEngine::new(&scratch_config(&data)).await;
        let made: BTreeSet<String> = ops.iter().map(|o| t(&o.1)).chain(["victim".to_string(), "victim2".into()]).collect();
        for s in e.stream.get_snapshot().await.topics { ensure!(made.contains(&s.name), "after the restart a stream {:?} appears that was never created", s.name); }
        for q in e.queue.get_snapshot().await { ensure!(made.contains(&q.name), "after the restart a queue {:?} appears that was never created", q.name); }
        for v in ["victim", "victim2"] {
            if !ops.iter().any(|o| o.1 == v && o.0 < 4 && o.0 % 4 != 2) { let m = e.queue.pop(v).await.ok_or(format!("after the restart queue {v:?} lost its message"))?; ensure!(m.payload == format!("queue {v}"), "after the restart queue {v:?} holds {:?}", String::from_utf8_lossy(&m.payload)); }
            if !ops.iter().any(|o| o.1 == v && o.0 >= 4 && o.0 % 4 != 2) { let m = e.stream.read(v, 1, 10).await; ensure!(m.len() == 1 && m[0].payload == format!("stream {v}"), "after the restart stream {v:?} holds {} messages", m.len()); }
        }
        Ok(())
    })?
}
/// F01 exercises code that deletes files: it runs as an unprivileged user that owns nothing but a scratch folder.
fn confined(args: &[String]) -> ! {
    use std::os::unix::process::CommandExt;
    let scratch = tempfile::tempdir().unwrap(); let d = scratch.path().to_path_buf();
    let exe = d.join("search"); std::fs::copy(std::env::current_exe().unwrap(), &exe).unwrap();
    for s in ["out", "tmp"] { std::fs::create_dir(d.join(s)).unwrap(); std::os::unix::fs::chown(d.join(s), Some(65534), Some(65534)).unwrap(); }
    { use std::os::unix::fs::PermissionsExt; std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).unwrap(); std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap(); }
    let out = PathBuf::from(&args[4]);
    let st = std::process::Command::new(&exe).args([&args[1], &args[2], &args[3]]).arg(d.join("out")).env("NEXO_CONFINED", "1").env("TMPDIR", d.join("tmp")).env("HOME", d.join("tmp")).current_dir(d.join("tmp")).uid(65534).gid(65534).status();
    std::fs::create_dir_all(&out).unwrap();
    for e in std::fs::read_dir(d.join("out")).unwrap().flatten() { let _ = std::fs::copy(e.path(), out.join(e.file_name())); }
    let code = st.ok().and_then(|s| s.code()).unwrap_or(3);
    drop(scratch);
    std::process::exit(code)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("F01") && std::env::var_os("NEXO_CONFINED").is_none() { confined(&args); }
    let mut run = Run::from_args();
    match run.prop.as_str() {
        "K01" => { let n = run.n(600); map_history(&mut run, n); let n = run.n(60); map_wire(&mut run, n); let n = run.n(12); map_threads(&mut run, n); let n = run.n(3); map_expiry(&mut run, n); }
        "C01" => { let n = run.n(100); options(&mut run, n); }
        "H01" => { let n = run.n(3000); render(&mut run, n); let n = run.n(40); list_keys(&mut run, n); let n = run.n(60); list_topics(&mut run, n); let n = run.n(40); list_queue(&mut run, n); let n = run.n(20); list_stream(&mut run, n); }
        "F01" => { let n = run.n(70); names(&mut run, n); }
        p => panic!("{p}"),
    }
    run.finish();
}
