//! P01-P04: topic routing and retained values.
use bytes::Bytes;
use nexo::brokers::pub_sub::config::PubSubConfig;
use nexo::brokers::pub_sub::{ClientId, PubSubManager, PubSubMessage};
use nexo_search::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

macro_rules! tag {
    ($c:expr, $t:expr, $($a:tt)*) => { if !$c { return Err(format!("[{}] {}", $t, format!($($a)*))); } };
}
fn only(prop: &str, r: Result<(), String>) -> Result<(), String> {
    match r {
        Err(e) if e.starts_with('[') => { let t = &e[1..e.find(']').unwrap_or(1)]; if t.split(' ').any(|x| x == prop) { Err(e[e.find(']').unwrap_or(0) + 1..].trim().to_string()) } else { Ok(()) } }
        x => x,
    }
}
/// the documented matching rule, on whole strings
fn matches(pattern: &str, topic: &str) -> bool {
    let p: Vec<&str> = pattern.split('/').collect(); let t: Vec<&str> = topic.split('/').collect();
    for (i, x) in p.iter().enumerate() {
        if *x == "#" { return true; }
        if i >= t.len() || (*x != "+" && *x != t[i]) { return false; }
    }
    p.len() == t.len()
}
fn seg(rng: &mut Rng) -> String { (*rng.pick(&["a", "b", "c", "", "é", "aa", "$sys", " "])).to_string() }
fn topic(rng: &mut Rng) -> String { let n = rng.range(1, 4); let mut v: Vec<String> = (0..n).map(|_| seg(rng)).collect(); if rng.chance(1, 25) { let i = rng.below(n); v[i] = (*rng.pick(&["+", "#", "a+", "#a"])).into(); } v.join("/") }
fn pattern(rng: &mut Rng) -> String {
    let n = rng.range(1, 4); let mut v: Vec<String> = (0..n).map(|_| if rng.chance(1, 4) { "+".into() } else { seg(rng) }).collect();
    if rng.chance(1, 3) { let k = rng.range(0, v.len()); v.truncate(k); v.push("#".into()); }
    v.join("/")
}
fn cfg(dir: &Path) -> PubSubConfig { PubSubConfig { persistence_path: dir.to_string_lossy().to_string(), default_retained_ttl_seconds: 3600, cleanup_interval_seconds: 1, retained_flush_ms: 2 } }
type Rx = mpsc::UnboundedReceiver<Arc<PubSubMessage>>;
fn drain(rx: &mut Rx) -> Vec<(String, Vec<u8>)> { let mut v = vec![]; while let Ok(m) = rx.try_recv() { v.push((m.topic.clone(), m.payload.to_vec())); } v }
fn join(rt: &tokio::runtime::Runtime, m: &PubSubManager, c: &str) -> Rx { let _g = rt.enter(); let (tx, rx) = mpsc::unbounded_channel(); m.connect(ClientId(c.into()), tx); rx }
fn mgr(rt: &tokio::runtime::Runtime, c: &PubSubConfig) -> PubSubManager { let _g = rt.enter(); PubSubManager::new(Arc::new(c.clone())) }

fn histories(run: &mut Run, key: &str, n: usize) {
    let mut rng = run.rng(key);
    let prop = run.prop.clone();
    let rt1 = rt();
    for _ in 0..n {
        if run.done() { break; }
        let pats: Vec<String> = (0..rng.range(2, 7)).map(|_| pattern(&mut rng)).collect();
        let tops: Vec<String> = (0..rng.range(2, 6)).map(|_| topic(&mut rng)).collect();
        let ops: Vec<(u8, usize, usize, u64)> = (0..rng.range(5, 45)).map(|_| (rng.below(14) as u8, rng.below(4), rng.below(8), rng.next() % 1000)).collect();
        run.case(key, json!({"patterns": pats, "topics": tops, "ops (kind, client, index, value)": ops}), true, || only(&prop, (|| {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let mut c = cfg(tmp.path()); c.cleanup_interval_seconds = 3600; c.retained_flush_ms = 3_600_000;
            let m = mgr(&rt1, &c);
            let mut rxs: BTreeMap<usize, Rx> = BTreeMap::new(); let mut subs: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new(); let mut ret: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            let id = |k: usize| ClientId(format!("client-{k}"));
            for (i, (op, cl, ix, val)) in ops.iter().enumerate() {
                let (pat, top) = (&pats[ix % pats.len()], &tops[ix % tops.len()]);
                if !rxs.contains_key(cl) && *op < 11 { rxs.insert(*cl, join(&rt1, &m, &id(*cl).0)); subs.insert(*cl, BTreeSet::new()); }
                match op {
                    0..=3 => {
                        m.subscribe(&id(*cl), pat); subs.get_mut(cl).unwrap().insert(pat.clone());
                        let mut got = drain(rxs.get_mut(cl).unwrap()); got.sort();
                        let want: Vec<(String, Vec<u8>)> = ret.iter().filter(|r| matches(pat, r.0)).map(|r| (r.0.clone(), r.1.clone())).collect();
                        tag!(got == want, "P03 P01", "step {i}: subscribing to {pat:?} delivers {got:?}, retained and matching are {want:?}");
                    }
                    4 | 5 => { m.unsubscribe(&id(*cl), pat); subs.get_mut(cl).unwrap().remove(pat); }
                    6 if val % 3 == 0 => { m.disconnect(&id(*cl)); rxs.remove(cl); subs.remove(cl); }
                    7 if val % 4 == 0 => { /* the client's end goes away first */ rxs.remove(cl); m.disconnect(&id(*cl)); subs.remove(cl); }
                    6..=12 => {
                        let retain = val % 3 == 0; let data = if retain && val % 2 == 0 && val % 5 == 0 { vec![] } else { val.to_be_bytes().to_vec() };
                        let cnt = m.publish(top, Bytes::from(data.clone()), retain, Some(1000));
                        if retain { if data.is_empty() { ret.remove(top); } else { ret.insert(top.clone(), data.clone()); } }
                        let mut n = 0;
                        for (k, rx) in rxs.iter_mut() {
                            let hit = subs[k].iter().any(|p| matches(p, top));
                            let got = drain(rx);
                            let want = if hit { n += 1; vec![(top.clone(), data.clone())] } else { vec![] };
                            tag!(got == want, "P01 P02", "step {i}: publish to {top:?}: client {k} with subscriptions {:?} receives {got:?}, expected {want:?}", subs[k]);
                        }
                        tag!(cnt == n, "P01", "step {i}: publish reports {cnt} receivers, {n} clients match");
                    }
                    _ => { // an unknown client
                        m.subscribe(&ClientId("ghost".into()), pat); m.unsubscribe(&ClientId("ghost".into()), pat);
                    }
                }
            }
            // whatever happened to subscriptions, the retained values are as published
            let mut rx = join(&rt1, &m, "probe");
            m.subscribe(&ClientId("probe".into()), "#");
            let mut got = drain(&mut rx); got.sort();
            let want: Vec<(String, Vec<u8>)> = ret.clone().into_iter().collect();
            tag!(got == want, "P02 P03", "retained values at the end are {got:?}, published were {want:?}");
            // everyone leaves: nothing is delivered any more
            for k in subs.keys() { m.disconnect(&id(*k)); }
            m.disconnect(&ClientId("probe".into()));
            for t in &tops { let c = m.publish(t, Bytes::from_static(b"x"), false, None); tag!(c == 0, "P02", "publish to {t:?} still reaches {c} clients after all disconnected"); }
            for (k, rx) in rxs.iter_mut() { let g = drain(rx); tag!(g.is_empty(), "P02", "client {k} receives {g:?} after its disconnect"); }
            Ok(())
        })()));
    }
}

/// publishers, subscribers and leavers at once: what a stable subscriber gets does not depend on the others
fn crowd(run: &mut Run, n: usize) {
    let mut rng = run.rng("crowd");
    for _ in 0..n {
        if run.done() { break; }
        let seed = rng.next(); let pubs = rng.range(1, 4); let per = rng.range(20, 100); let churn = rng.range(1, 4);
        run.case("crowd", json!({"publishers": pubs, "messages_each": per, "churning_clients": churn, "seed": seed}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let rt1 = rt(); let m = Arc::new(mgr(&rt1, &cfg(tmp.path())));
            let pats = ["a/+", "a/#", "#", "b/x", "a/0"];
            let mut rxs = vec![];
            for (i, p) in pats.iter().enumerate() { let rx = join(&rt1, &m, &format!("s{i}")); m.subscribe(&ClientId(format!("s{i}")), p); rxs.push(rx); }
            wait(&rt1, "crowd", async {
                let mut hs = vec![];
                for p in 0..pubs { let m = m.clone(); hs.push(tokio::spawn(async move { for k in 0..per { m.publish(&format!("a/{p}"), Bytes::from(format!("{p}:{k}")), k % 5 == 0, Some(100)); if k % 7 == 0 { tokio::task::yield_now().await; } } })); }
                for c in 0..churn { let m = m.clone(); hs.push(tokio::spawn(async move { let mut r = Rng::new(seed ^ c as u64); for k in 0..60 { let id = ClientId(format!("churn{c}")); let (tx, rx) = mpsc::unbounded_channel(); m.connect(id.clone(), tx); for p in ["a/+", "a/0", "#", "a/#"] { m.subscribe(&id, p); } if r.chance(1, 3) { drop(rx); tokio::task::yield_now().await; } if r.chance(1, 2) { m.unsubscribe(&id, "a/+"); } m.disconnect(&id); if k % 5 == 0 { tokio::task::yield_now().await; } } })); }
                for h in hs { h.await.map_err(|e| e.to_string())?; }
                Ok::<(), String>(())
            })??;
            for (i, p) in pats.iter().enumerate() {
                let got = drain(&mut rxs[i]);
                for q in 0..pubs {
                    let mine: Vec<String> = got.iter().filter(|g| g.0 == format!("a/{q}")).map(|g| String::from_utf8_lossy(&g.1).to_string()).collect();
                    let want: Vec<String> = if matches(p, &format!("a/{q}")) { (0..per).map(|k| format!("{q}:{k}")).collect() } else { vec![] };
                    ensure!(mine == want, "subscriber of {p:?} got {} messages of publisher {q}, expected {} in order", mine.len(), want.len());
                }
            }
            let s = m.scan_topics(1000, 0, None);
            ensure!(s.active_clients == pats.len(), "{} clients registered at the end, expected {}", s.active_clients, pats.len());
            Ok(())
        });
    }
}

/// a client that vanishes (close, reset, malformed frame) leaves nothing behind
fn vanish(run: &mut Run, n: usize) {
    for i in 0..n {
        if run.done() { break; }
        let how = i % 3;
        run.case("client-vanishes", json!({"end": (["close", "reset", "malformed frame"][how]), "n": i}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let rt1 = rt();
            wait(&rt1, "session", async {
                let e = nexo::NexoEngine::new(&scratch_config(tmp.path())).await; let a = serve(e.clone()).await;
                let mut stay = Client::connect(a).await; let mut cl = Client::connect(a).await;
                let t = |s: &str| { let mut b = vec![]; put_str(&mut b, s); b };
                for p in ["x/+", "x/#", "y"] { cl.ask(0x22, 1, &t(p)).await?; } stay.ask(0x22, 2, &t("x/1")).await?;
                match how { 0 => drop(cl), 1 => { let _ = cl.s.set_linger(Some(Duration::ZERO)); drop(cl); } _ => { let mut f = frame(1, 0, 99, &[]); f[6..10].copy_from_slice(&u32::MAX.to_be_bytes()); let _ = cl.send(&f).await; tokio::time::sleep(Duration::from_millis(30)).await; } }
                let t0 = Instant::now();
                while e.pubsub.scan_topics(1, 0, None).active_clients != 1 { ensure!(t0.elapsed() < Duration::from_secs(3), "a vanished client is still registered after 3 s"); tokio::time::sleep(Duration::from_millis(5)).await; }
                tokio::time::sleep(Duration::from_millis(5)).await;
                let c = e.pubsub.publish("x/1", Bytes::from_static(b"v"), false, None);
                ensure!(c == 1, "a publish reaches {c} clients, one is left");
                let c = e.pubsub.publish("y", Bytes::from_static(b"v"), false, None); ensure!(c == 0, "a publish reaches {c} clients, none is left");
                let s = e.pubsub.scan_topics(100, 0, None);
                ensure!(s.topics.iter().filter(|t| t.subscribers > 0).count() == 1 && s.wildcards.multi_level.is_empty() && s.wildcards.single_level.is_empty(), "subscriptions of a vanished client remain: {:?}", s.topics.iter().map(|t| (&t.full_path, t.subscribers)).collect::<Vec<_>>());
                let f = stay.recv().await?; ensure!(f.ty == 3 && f.body == { let mut b = t("x/1"); b.extend(b"v"); b }, "the remaining client received another frame");
                Ok(())
            })?
        });
    }
}

/// time-to-live of retained values; several topics at once against the wall clock
fn expiry(run: &mut Run, n: usize) {
    let mut rng = run.rng("expiry");
    for _ in 0..n {
        if run.done() { break; }
        let ttls: Vec<(String, Option<u64>)> = (0..rng.range(4, 10)).map(|i| (format!("{}/{i}", *rng.pick(&["e", "/e", "e/", ""])), match rng.below(6) { 0 => Some(0), 1 => None, 2 => Some(*rng.pick(&[u64::MAX, u64::MAX / 2, 1 << 40, i64::MAX as u64])), _ => Some(rng.range(1, 3) as u64) })).collect();
        let cleanup = rng.chance(1, 2);
        run.case("retained-expiry", json!({"topics": ttls, "cleanup_every_second": cleanup}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let rt1 = rt();
            let mut c = cfg(tmp.path()); c.cleanup_interval_seconds = if cleanup { 1 } else { 3600 }; c.default_retained_ttl_seconds = 2;
            let m = mgr(&rt1, &c);
            let t0 = Instant::now();
            for (t, ttl) in &ttls { m.publish(t, Bytes::from(t.clone()), true, *ttl); }
            let t1 = Instant::now();
            for k in 0..16 {
                let at = Duration::from_millis(50 + 220 * k);
                let e = t0.elapsed(); if at > e { std::thread::sleep(at - e); }
                let before = t1.elapsed().as_secs_f64();
                let cid = format!("w{k}"); let mut rx = join(&rt1, &m, &cid); m.subscribe(&ClientId(cid.clone()), "#"); m.disconnect(&ClientId(cid));
                let after = t0.elapsed().as_secs_f64();
                let got: BTreeSet<String> = drain(&mut rx).into_iter().map(|x| x.0).collect();
                for (t, ttl) in &ttls {
                    let l = ttl.unwrap_or(2) as f64;
                    if after < l - 0.005 { ensure!(got.contains(t), "{t:?} with time-to-live {ttl:?} (default 2 s) is gone after {before:.3} s; present: {got:?}"); }
                    if before > l + 0.005 { ensure!(!got.contains(t), "{t:?} with time-to-live {ttl:?} (default 2 s) is still delivered after {after:.3} s"); }
                }
                ensure!(got.iter().all(|g| ttls.iter().any(|t| t.0 == *g)), "delivered {got:?}, some were never published");
            }
            Ok(())
        });
    }
}

fn rows(dir: &Path) -> Result<BTreeMap<String, (Vec<u8>, Option<i64>)>, String> {
    let c = rusqlite::Connection::open_with_flags(dir.join("retained.db"), rusqlite::OpenFlags::SQLITE_OPEN_READ_ONLY).map_err(|e| e.to_string())?;
    let _ = c.busy_timeout(Duration::from_secs(5));
    let mut s = c.prepare("SELECT path, data, expires_at FROM retained").map_err(|e| e.to_string())?;
    let r = s.query_map([], |r| Ok((r.get::<_, String>(0)?, (r.get::<_, Vec<u8>>(1)?, r.get::<_, Option<i64>>(2)?)))).map_err(|e| e.to_string())?;
    r.map(|x| x.map_err(|e| e.to_string())).collect()
}
fn retained_now(rt: &tokio::runtime::Runtime, m: &PubSubManager) -> BTreeMap<String, Vec<u8>> { let mut rx = join(rt, m, "probe"); m.subscribe(&ClientId("probe".into()), "#"); let v = drain(&mut rx); m.disconnect(&ClientId("probe".into())); v.into_iter().collect() }
fn unix() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }

fn restarts(run: &mut Run, n: usize) {
    let mut rng = run.rng("restarts");
    for _ in 0..n {
        if run.done() { break; }
        let names: Vec<String> = (0..rng.range(2, 7)).map(|_| match rng.below(12) { 0 => "/a".into(), 1 => "".into(), 2 => "/".into(), 3 => "a//b".into(), 4 => "a/".into(), 5 => "//".into(), 6 => "x\u{0}y".into(), _ => topic(&mut rng) }).collect();
        let ops: Vec<(usize, u8, u64)> = (0..rng.range(2, 14)).map(|_| (rng.below(names.len()), rng.below(6) as u8, rng.next())).collect();
        let rounds = rng.range(1, 3);
        run.case("retained-restart", json!({"topics": names, "ops (topic, kind, value)": ops, "restarts": rounds}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let mut want: BTreeMap<String, (Vec<u8>, u64)> = BTreeMap::new();
            for r in 0..rounds + 1 {
                let rt1 = rt(); let m = mgr(&rt1, &cfg(tmp.path()));
                let got = retained_now(&rt1, &m);
                ensure!(got == want.iter().map(|x| (x.0.clone(), x.1 .0.clone())).collect::<BTreeMap<_, _>>(), "after restart {r} the retained values are {got:?}, flushed were {want:?}");
                if r == rounds { break; }
                for (k, (t, kind, v)) in ops.iter().enumerate() {
                    if k % rounds != r { continue; }
                    let data = v.to_be_bytes()[..(1 + v % 8) as usize].to_vec();
                    let ttl = *[100u64, 5000, 1 << 33, u64::MAX - unix() - 10, u64::MAX].get((v % 9) as usize).unwrap_or(&777);
                    match kind { 0 => { m.publish(&names[*t], Bytes::new(), true, Some(ttl)); want.remove(&names[*t]); } 1 => { m.publish(&names[*t], Bytes::from(data), false, Some(ttl)); } _ => { m.publish(&names[*t], Bytes::from(data.clone()), true, Some(ttl)); want.insert(names[*t].clone(), (data, unix().saturating_add(ttl))); } }
                }
                // wait for the flush
                let t0 = Instant::now();
                loop {
                    let d = rows(tmp.path()).unwrap_or_default();
                    let same = d.len() == want.len() && want.iter().all(|(k, v)| d.get(k).map_or(false, |x| x.0 == v.0));
                    if same { for (k, v) in &want { if v.1 < 1 << 60 { let e = d[k].1.unwrap_or(-1) as u64; ensure!(e <= v.1 + 1 && e + 2 >= v.1, "{k:?} expires at {} and is stored with {:?}", v.1, d[k].1); } } break; }
                    ensure!(t0.elapsed() < Duration::from_secs(20), "retained values {want:?} are stored as {d:?}");
                    std::thread::sleep(Duration::from_millis(2));
                }
                drop(m); drop(rt1);
            }
            Ok(())
        });
    }
    // values that ran out while the server was down, and values about to
    for _ in 0..(n / 60).max(2) {
        if run.done() { break; }
        let offs: Vec<Option<i64>> = (0..rng.range(3, 9)).map(|_| match rng.below(5) { 0 => None, 1 => Some(-(rng.range(1, 100000) as i64)), 2 => Some(0), 3 => Some(3), _ => Some(rng.range(50, 1 << 20) as i64) }).collect();
        run.case("expired-while-down", json!({"seconds_left": offs}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let rt1 = rt(); drop(mgr(&rt1, &cfg(tmp.path()))); drop(rt1);
            let now = unix() as i64;
            { let c = rusqlite::Connection::open(tmp.path().join("retained.db")).map_err(|e| e.to_string())?; for (i, o) in offs.iter().enumerate() { c.execute("INSERT INTO retained (path, data, expires_at) VALUES (?, ?, ?)", rusqlite::params![format!("t/{i}"), vec![i as u8 + 1], o.map(|x| now + x)]).map_err(|e| e.to_string())?; } }
            let rt1 = rt(); let m = mgr(&rt1, &cfg(tmp.path()));
            let check = |late: bool| -> Result<(), String> {
                let u0 = unix() as i64; let got = retained_now(&rt1, &m); let u1 = unix() as i64;
                for (i, o) in offs.iter().enumerate() {
                    let t = format!("t/{i}");
                    let (may, must) = match o { None => (true, true), Some(x) => (now + x + 1 >= u0, now + x > u1 + 1) };
                    ensure!(may || !got.contains_key(&t), "a value that expired {} s ago is delivered{}", u0 - now - o.unwrap_or(0), if late { " later" } else { " after the restart" });
                    ensure!(!must || got.contains_key(&t), "a value with {o:?} s left is gone");
                }
                Ok(())
            };
            check(false)?;
            // the stored set is rewritten without what expired
            m.publish("z", Bytes::from_static(b"1"), true, Some(500)); let t0 = Instant::now();
            let d = loop { std::thread::sleep(Duration::from_millis(10)); let d = rows(tmp.path())?; if d.contains_key("z") { break d; } ensure!(t0.elapsed() < Duration::from_secs(20), "a retained value is not stored after 20 s"); };
            for (i, o) in offs.iter().enumerate() { let t = format!("t/{i}"); if let Some(x) = o { if *x < -1 { ensure!(!d.contains_key(&t), "an expired value is stored again"); } if *x > 40 { ensure!(d.get(&t).map(|r| r.1) == Some(Some(now + x)), "a value expiring at {} is stored again as {:?}", now + x, d.get(&t).map(|r| r.1)); } } else { ensure!(d.get(&t).map(|r| r.1) == Some(None), "a value without expiry is stored again as {:?}", d.get(&t).map(|r| r.1)); } }
            if offs.contains(&Some(3)) { std::thread::sleep(Duration::from_millis(5200)); check(true)?; }
            Ok(())
        });
    }
}

/// a store that cannot be written for a while: what was published meanwhile is stored afterwards
fn flush_fault(run: &mut Run) {
    if run.done() { return; }
    run.case("flush-fault", json!({"store_locked_for_s": 5.6}), true, || {
        let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
        let rt1 = rt(); let m = mgr(&rt1, &cfg(tmp.path()));
        std::thread::sleep(Duration::from_millis(50));
        let c = rusqlite::Connection::open(tmp.path().join("retained.db")).map_err(|e| e.to_string())?;
        c.execute_batch("BEGIN EXCLUSIVE").map_err(|e| e.to_string())?;
        m.publish("locked/out", Bytes::from_static(b"1"), true, Some(500));
        std::thread::sleep(Duration::from_millis(5600));
        c.execute_batch("ROLLBACK").map_err(|e| e.to_string())?; drop(c);
        let t0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if rows(tmp.path())?.contains_key("locked/out") { return Ok(()); }
            ensure!(t0.elapsed() < Duration::from_secs(8), "a value published while the store was locked is not stored 8 s after it was unlocked");
        }
    });
}

fn main() {
    let mut run = Run::from_args();
    match run.prop.as_str() {
        "P01" => { let n = run.n(1200); histories(&mut run, "routing-history", n); let n = run.n(15); crowd(&mut run, n); }
        "P02" => { let n = run.n(1200); histories(&mut run, "leaving-history", n); let n = run.n(15); vanish(&mut run, n); }
        "P03" => { let n = run.n(1000); histories(&mut run, "retained-history", n); let n = run.n(3); expiry(&mut run, n); }
        "P04" => { let n = run.n(180); restarts(&mut run, n); flush_fault(&mut run); }
        p => panic!("{p}"),
    }
    run.finish();
}
