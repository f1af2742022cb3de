//! L07-L11: the stream broker's files.
use bytes::Bytes;
use nexo::brokers::stream::config::SystemStreamConfig;
use nexo::brokers::stream::domain::message::Message;
use nexo::brokers::stream::domain::persistence::*;
use nexo::brokers::stream::options::RetentionOptions;
use nexo::brokers::stream::StreamManager;
use nexo_search::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, SystemTime};
use tokio::sync::{mpsc, oneshot};

type M = (u64, u64, Vec<u8>);
fn plain(v: impl IntoIterator<Item = Message>) -> Vec<M> { v.into_iter().map(|m| (m.seq, m.timestamp, m.payload.to_vec())).collect() }
fn ser(ms: &[M]) -> (Vec<u8>, Vec<usize>) { let mut b = vec![]; let mut ends = vec![]; for m in ms { serialize_message(&mut b, m.0, m.1, &m.2); ends.push(b.len()); } (b, ends) }
fn seqs(v: &[M]) -> Vec<u64> { v.iter().map(|m| m.0).collect() }
fn show(ms: &[M]) -> serde_json::Value { json!(ms.iter().map(|m| json!([m.0, m.1, clip(&hx(&m.2))])).collect::<Vec<_>>()) }
/// both readers of a segment file
fn both(rt: &tokio::runtime::Runtime, dir: &Path, name: &str) -> Result<(Vec<M>, Vec<M>), String> {
    let st = wait(rt, "recover", recover_topic("t", dir.to_path_buf()))?;
    let r = wait(rt, "read segment", read_log_segment(&dir.join("t").join(name), 0, usize::MAX))?;
    Ok((plain(st.messages), plain(r)))
}
fn subsequence(small: &[M], big: &[M]) -> bool { let mut i = 0; for b in big { if i < small.len() && small[i] == *b { i += 1; } } i == small.len() }
fn gen_msgs(rng: &mut Rng, max: usize) -> Vec<M> {
    let start = if rng.chance(1, 4) { rng.next() >> 1 } else { 1 + rng.below(50) as u64 };
    (0..rng.range(1, max) as u64).map(|i| {
        let ts = if rng.chance(1, 5) { rng.next() } else { 1_700_000_000_000 + i };
        let p = if rng.chance(1, 20) { vec![9u8; rng.range(200, 20000)] } else if rng.chance(1, 5) { let mut b = vec![0; rng.below(6)]; serialize_message(&mut b, start + i + rng.below(5) as u64, 5, b"forged"); b } else { rng.bytes(24) };
        (start + i, ts, p)
    }).collect()
}

// ---------------------------------------------------------------- L07
fn segments(run: &mut Run, n: usize) {
    let mut rng = run.rng("segments");
    let rt1 = rt();
    for it in 0..n {
        if run.done() { break; }
        let ms = gen_msgs(&mut rng, 8); let (buf, ends) = ser(&ms);
        let tmp = tempfile::tempdir().unwrap(); std::fs::create_dir(tmp.path().join("t")).unwrap(); let name = format!("{}.log", ms[0].0); let f = tmp.path().join("t").join(&name);
        let froms: Vec<u64> = (0..3).map(|_| ms[0].0.wrapping_add(rng.below(ms.len() + 2) as u64)).collect(); let lim = rng.range(1, 9);
        run.case("segment-round-trip", json!({"messages": show(&ms), "from": froms, "limit": lim}), true, || {
            std::fs::write(&f, &buf).unwrap();
            let total: usize = ms.iter().map(|m| 24 + m.2.len()).sum();
            ensure!(buf.len() == total, "{} bytes written, 24 per record plus payload is {total}", buf.len());
            let (a, b) = both(&rt1, tmp.path(), &name)?;
            ensure!(a == ms, "recovery reads {:?}, written {:?}", seqs(&a), seqs(&ms));
            ensure!(b == ms, "a segment read gives {:?}, written {:?}", seqs(&b), seqs(&ms));
            for from in &froms { for l in [lim, 1, usize::MAX] {
                let got = plain(wait(&rt1, "read", read_log_segment(&f, *from, l))?);
                let want: Vec<M> = ms.iter().filter(|m| m.0 >= *from).take(l).cloned().collect();
                ensure!(got == want, "read from {from} limit {l} gives {:?}, expected {:?}", seqs(&got), seqs(&want));
            } }
            Ok(())
        });
        if buf.len() < 1500 && it % 5 == 0 {
            for cut in 0..buf.len() {
                if run.done() { break; }
                run.case("segment-truncated", json!({"messages": show(&ms), "cut": cut}), true, || {
                    std::fs::write(&f, &buf[..cut]).unwrap();
                    let k = ends.iter().filter(|e| **e <= cut).count();
                    let (a, b) = both(&rt1, tmp.path(), &name)?;
                    ensure!(a == ms[..k], "cut at {cut}: recovery reads {:?}, intact are {:?}", seqs(&a), seqs(&ms[..k]));
                    ensure!(b == ms[..k], "cut at {cut}: a segment read gives {:?}, intact are {:?}", seqs(&b), seqs(&ms[..k]));
                    Ok(())
                });
            }
        }
        for _ in 0..6 {
            if run.done() { break; }
            let mut bad = buf.clone();
            let kind = rng.below(5);
            let at = match kind {
                0 => { let i = rng.below(bad.len()); bad[i] ^= 1 << rng.below(8); i }
                1 => { let r = rng.below(ms.len()); let i = if r == 0 { 0 } else { ends[r - 1] } + rng.below(4); bad[i] = rng.next() as u8; if bad[i] == buf[i] { bad[i] ^= 1; } i }
                2 => { let i = rng.below(bad.len()); for b in &mut bad[i..] { *b = 0; } i }
                3 => { let i = rng.below(bad.len()); for b in &mut bad[i..] { *b = rng.next() as u8; } i }
                // a length that points at another record boundary or into a payload
                _ => { let r = rng.below(ms.len()); let i = if r == 0 { 0 } else { ends[r - 1] }; let t = rng.below(bad.len() - i + 1) as u32; bad[i..i + 4].copy_from_slice(&t.to_be_bytes()); i }
            };
            if bad == buf { continue; }
            let first = bad.iter().zip(&buf).position(|(a, b)| a != b).unwrap_or(buf.len());
            run.case("segment-damaged", json!({"messages": show(&ms), "kind": kind, "at": at, "file": clip(&hx(&bad))}), true, || {
                std::fs::write(&f, &bad).unwrap();
                let k = ends.iter().filter(|e| **e <= first).count();
                let (a, b) = both(&rt1, tmp.path(), &name)?;
                for (who, r) in [("recovery", a), ("a segment read", b)] {
                    ensure!(r.len() >= k && r[..k] == ms[..k], "damage at byte {first}: {who} gives {:?}, intact before it are {:?}", seqs(&r), seqs(&ms[..k]));
                    ensure!(subsequence(&r, &ms), "damage at byte {first}: {who} gives {:?} of which some were never written (written {:?})", r.iter().map(|m| (m.0, hx(&m.2))).collect::<Vec<_>>(), seqs(&ms));
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- L08
fn cfg(dir: &Path) -> SystemStreamConfig {
    SystemStreamConfig { persistence_path: dir.to_string_lossy().to_string(), default_flush_ms: 2, max_segment_size: 200, retention_check_interval_ms: 3_600_000, default_retention_bytes: u64::MAX / 2, default_retention_age_ms: u64::MAX / 1_000_000_000,
        eviction_interval_ms: 3_600_000, ram_soft_limit: 1000, ram_hard_limit: 20000, max_ack_pending: 10000, max_open_files: 8, ack_wait_ms: 3_600_000, max_deliveries: 50 }
}
fn disk_all(rt: &tokio::runtime::Runtime, dir: &Path) -> Result<Vec<M>, String> {
    let mut v = vec![];
    for s in wait(rt, "segments", find_segments(dir))?.map_err(|e| e.to_string())? { v.extend(plain(wait(rt, "read", read_log_segment(&s.path, 0, usize::MAX))?)); }
    Ok(v)
}
/// every message of the log through the broker, from memory or disk
fn read_all(rt: &tokio::runtime::Runtime, m: &StreamManager) -> Result<Vec<M>, String> {
    let mut v: Vec<M> = vec![]; let mut from = 0;
    loop { let b = plain(wait(rt, "read", m.read("t", from, 7))?); if b.is_empty() { return Ok(v); } from = b.last().unwrap().0 + 1; v.extend(b); if v.len() > 10000 { return Err("endless log".into()); } }
}
fn settle(rt: &tokio::runtime::Runtime, dir: &Path, last: u64) -> Result<(), String> {
    for _ in 0..500 { if disk_all(rt, dir)?.iter().any(|m| m.0 == last) { return Ok(()); } std::thread::sleep(Duration::from_millis(2)); }
    Err(format!("message {last} published after the restart is not readable from disk after 1 s"))
}
fn crashes(run: &mut Run, n: usize) {
    let mut rng = run.rng("crashes");
    for _ in 0..n {
        if run.done() { break; }
        let mut ms = vec![]; let mut files: Vec<(u64, Vec<M>)> = vec![];
        let first = if rng.chance(1, 3) { 1 + rng.below(40) as u64 } else { 1 };
        let mut s = first;
        for _ in 0..rng.range(1, 3) { let k = rng.range(1, 4); let part: Vec<M> = (0..k).map(|_| { let m = (s, 1000 + s, rng.bytes(30)); s += 1; m }).collect(); ms.extend(part.clone()); files.push((part[0].0, part)); }
        let kind = *rng.pick(&["cut", "cut", "cut", "empty", "zeros", "garbage", "none", "half"]);
        let last_len = ser(&files.last().unwrap().1).0.len();
        let cut = rng.below(last_len + 1);
        let floors: Vec<(String, u64)> = (0..rng.below(4)).map(|i| (format!("g{i}"), if rng.chance(1, 3) { s + rng.below(10) as u64 } else { first - 1 + rng.below((s - first) as usize + 1) as u64 })).collect();
        let more = rng.range(1, 4) as u64; let seg = *rng.pick(&[60u64, 200, 100000]);
        let new: Vec<Vec<u8>> = (0..more + 1).map(|i| { let mut b = rng.bytes(20); b.push(i as u8); b }).collect();
        run.case("crash-and-restart", json!({"segments": files.iter().map(|f| json!([f.0, show(&f.1)])).collect::<Vec<_>>(), "crash": kind, "cut": cut, "groups": floors, "publish": new.iter().map(|x| hx(x)).collect::<Vec<_>>(), "segment_bytes": seg}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let td = tmp.path().join("t"); std::fs::create_dir(&td).unwrap();
            let mut want = ms.clone();
            let mut next = s;
            for (i, (st, part)) in files.iter().enumerate() {
                let (mut b, ends) = ser(part);
                if i == files.len() - 1 {
                    match kind {
                        "cut" => { b.truncate(cut); let k = ends.iter().filter(|e| **e <= cut).count(); want.truncate(ms.len() - part.len() + k); next = st + k as u64; }
                        "zeros" => b.extend([0u8; 50]),
                        "garbage" => b.extend([0xABu8; 33]),
                        "half" => { let (x, _) = ser(&[(s, 5, vec![1; 40])]); b.extend(&x[..x.len() / 2]); }
                        _ => {}
                    }
                }
                std::fs::write(td.join(format!("{st}.log")), b).unwrap();
            }
            // the next segment was opened but nothing reached it
            if kind == "empty" { std::fs::write(td.join(format!("{s}.log")), b"").unwrap(); }
            let rt0 = rt();
            if !floors.is_empty() { wait(&rt0, "groups", save_groups_file(&td, &floors.iter().cloned().collect::<HashMap<_, _>>()))?.map_err(|e| e.to_string())?; }
            let mut c = cfg(tmp.path()); c.max_segment_size = seg;
            let start = |rt: &tokio::runtime::Runtime| wait(rt, "start", StreamManager::new(Arc::new(c.clone())));
            let rt1 = rt();
            let m = start(&rt1)?;
            let got = read_all(&rt1, &m)?;
            ensure!(got == want, "after the restart the log reads {:?}, on disk were {:?}", seqs(&got), seqs(&want));
            // groups resume where they were, never beyond the end
            let mut joined = vec![];
            for (g, fl) in &floors {
                let j = wait(&rt1, "join", m.join_group(g, "t", "c"))??;
                let w = (*fl).max(first - 1).min(next - 1);
                ensure!(j.ack_floor == w, "group {g} saved at {fl} resumes at {}, the log holds {first}..{next}", j.ack_floor);
                joined.push((g.clone(), j, w));
            }
            for (i, p) in new.iter().enumerate().take(more as usize) {
                let q = wait(&rt1, "publish", m.publish("t", Bytes::from(p.clone())))??;
                ensure!(q == next + i as u64, "publish {i} after the restart got position {q}, expected {}", next + i as u64);
            }
            let all: Vec<(u64, Vec<u8>)> = want.iter().map(|m| (m.0, m.2.clone())).chain((0..more).map(|i| (next + i, new[i as usize].clone()))).collect();
            for (g, j, w) in &joined {
                let mut got = vec![];
                for _ in 0..200 { let r = wait(&rt1, "fetch", m.fetch(g, &j.consumer_id, j.generation, 5, "t", 0))??; if r.is_empty() { break; } got.extend(r.into_iter().map(|m| (m.seq, m.payload.to_vec()))); }
                let exp: Vec<(u64, Vec<u8>)> = all.iter().filter(|x| x.0 > *w).cloned().collect();
                ensure!(got == exp, "group {g} at {w} receives {:?}, expected {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>(), exp.iter().map(|x| x.0).collect::<Vec<_>>());
            }
            settle(&rt1, &td, next + more - 1)?;
            m.shutdown(); drop(m); drop(rt1);
            let rt2 = rt();
            let m = start(&rt2)?;
            let got: Vec<(u64, Vec<u8>)> = read_all(&rt2, &m)?.into_iter().map(|m| (m.0, m.2)).collect();
            ensure!(got == all, "after the second restart the log reads {:?}, expected {:?}", got.iter().map(|x| x.0).collect::<Vec<_>>(), all.iter().map(|x| x.0).collect::<Vec<_>>());
            let q = wait(&rt2, "publish", m.publish("t", Bytes::from(new[more as usize].clone())))??;
            ensure!(q == next + more, "publish after the second restart got position {q}, expected {}", next + more);
            m.shutdown();
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- L09
fn load(rt: &tokio::runtime::Runtime, dir: &Path) -> Result<BTreeMap<String, u64>, String> { Ok(wait(rt, "recover", recover_topic("t", dir.to_path_buf()))?.groups_data.into_iter().collect()) }
fn gname(rng: &mut Rng) -> String {
    match rng.below(9) { 0 => String::new(), 1 => "a\u{0}b".into(), 2 => "日本語/グループ".into(), 3 => "x".repeat(rng.range(250, 300)), 4 => "../../etc".into(), 5 => "\n\t\u{feff}".into(), 6 => "é".repeat(rng.range(100, 400)), _ => format!("g{}", rng.below(10)) }
}
fn groups(run: &mut Run, n: usize) {
    let mut rng = run.rng("groups");
    let rt1 = rt();
    for it in 0..n {
        if run.done() { break; }
        let mut g: BTreeMap<String, u64> = BTreeMap::new();
        for _ in 0..rng.below(6) { let v = match rng.below(4) { 0 => 0, 1 => u64::MAX, _ => rng.next() >> rng.below(60) }; g.insert(gname(&mut rng), v); }
        if it % 25 == 7 { for len in [65534usize, 65535, 65536, 65546, 140000] { if rng.chance(1, 2) { g.insert("n".repeat(len), rng.below(1000) as u64); } } }
        let desc: Vec<(String, usize, u64)> = g.iter().map(|(k, v)| (clip(k), k.len(), *v)).collect();
        let tmp = tempfile::tempdir().unwrap(); let td = tmp.path().join("t"); std::fs::create_dir(&td).unwrap();
        let hm: HashMap<String, u64> = g.clone().into_iter().collect();
        run.case("groups-round-trip", json!({"groups (name, length, position)": desc, "leftover_tmp": it % 3 == 0}), !g.is_empty(), || {
            if it % 3 == 0 { std::fs::write(td.join("groups.log.tmp"), vec![0xCD; 500]).unwrap(); }
            wait(&rt1, "save", save_groups_file(&td, &hm))?.map_err(|e| e.to_string())?;
            let got = load(&rt1, tmp.path())?;
            ensure!(got == g, "saved {:?}, loaded {:?}", desc, got.iter().map(|(k, v)| (clip(k), k.len(), *v)).collect::<Vec<_>>());
            Ok(())
        });
        let file = std::fs::read(td.join("groups.log")).unwrap_or_default();
        let total: usize = g.keys().map(|k| 18 + k.len()).sum();
        if file.len() > 0 && total < 3000 {
            for _ in 0..10 {
                let mut bad = file.clone();
                let kind = rng.below(3);
                match kind { 0 => { bad.truncate(rng.below(file.len())); } 1 => { let i = rng.below(bad.len()); bad[i] ^= 1 << rng.below(8); } _ => { let i = rng.below(bad.len()); for b in &mut bad[i..] { *b = rng.next() as u8; } } }
                if bad == file { continue; }
                run.case("groups-damaged", json!({"groups": desc, "file": clip(&hx(&bad))}), true, || {
                    std::fs::write(td.join("groups.log"), &bad).unwrap();
                    let got = load(&rt1, tmp.path())?;
                    for (k, v) in &got { ensure!(g.get(k) == Some(v), "a damaged file yields {:?} at {v}, saved was {:?}", clip(k), g.get(k)); }
                    Ok(())
                });
            }
        }
        // an interrupted save leaves the previous positions
        if it % 4 == 0 {
            let mut g2: BTreeMap<String, u64> = g.iter().map(|(k, v)| (k.clone(), v.wrapping_add(1))).collect(); g2.insert("new".into(), 3);
            let hm2: HashMap<String, u64> = g2.clone().into_iter().collect();
            run.case("interrupted-save", json!({"groups": desc}), true, || {
                wait(&rt1, "save", save_groups_file(&td, &hm))?.map_err(|e| e.to_string())?;
                // let the save take one step at a time and look at the file after each
                let r: Result<(), String> = rt1.block_on(async {
                    let mut f = Box::pin(save_groups_file(&td, &hm2));
                    for _ in 0..10000 {
                        let done = futures_util::future::poll_fn(|cx| { use std::future::Future; std::task::Poll::Ready(f.as_mut().poll(cx).is_ready()) }).await;
                        let got: BTreeMap<String, u64> = recover_topic("t", tmp.path().to_path_buf()).await.groups_data.into_iter().collect();
                        if got != g && got != g2 { return Err(format!("during a save the positions on disk are {:?}, neither the old nor the new ones", got.iter().map(|(k, v)| (clip(k), *v)).collect::<Vec<_>>())); }
                        if done { if got != g2 { return Err("the save finished without its positions on disk".into()); } return Ok(()); }
                        tokio::task::yield_now().await;
                    }
                    Err("the save does not finish".into())
                });
                r
            });
        }
    }
}

// ---------------------------------------------------------------- L10
struct Actor { rt: tokio::runtime::Runtime, tx: mpsc::UnboundedSender<StorageCommand> }
impl Actor {
    fn new(dir: &Path, open: usize, flush: u64, seg: u64) -> Actor { let rt = rt(); let (tx, rx) = mpsc::unbounded_channel(); let m = StorageManager::new(dir.to_string_lossy().to_string(), rx, open, flush, seg); rt.spawn(m.run()); Actor { rt, tx } }
    fn read(&self, t: &str, from: u64, limit: usize) -> Result<Vec<M>, String> { let (a, b) = oneshot::channel(); let _ = self.tx.send(StorageCommand::ColdRead { topic_name: t.into(), from_seq: from, limit, reply: a }); Ok(plain(wait(&self.rt, "disk read", b)?.map_err(|_| "the storage task is gone".to_string())?)) }
    fn retain(&self, t: &str, r: RetentionOptions) -> Result<u64, String> { let (a, b) = oneshot::channel(); let _ = self.tx.send(StorageCommand::ApplyRetention { topic_name: t.into(), retention: r, max_segment_size: 0, reply: a }); Ok(wait(&self.rt, "retention", b)?.map_err(|_| "the storage task is gone".to_string())?.head_seq) }
    fn append(&self, t: &str, ms: &[M], p: &Arc<AtomicU64>) { let _ = self.tx.send(StorageCommand::Append { topic_name: t.into(), messages: ms.iter().map(|m| MessageToAppend { seq: m.0, timestamp: m.1, payload: Bytes::from(m.2.clone()) }).collect(), persisted_seq: p.clone() }); }
}
fn retention(run: &mut Run, n: usize) {
    let mut rng = run.rng("retention");
    for it in 0..n {
        if run.done() { break; }
        let k = rng.below(7); let mut start = 1 + rng.below(20) as u64; let mut age = 1000 + rng.below(100) as u64 * 100;
        let segs: Vec<(u64, Vec<M>, u64)> = (0..k).map(|_| {
            let c = rng.below(4) as u64; let part: Vec<M> = (0..c).map(|i| (start + i, 9, vec![3u8; *rng.pick(&[0usize, 1, 50, 9]) ])).collect();
            let s = start; start += c.max(1); age = age.saturating_sub(rng.below(4) as u64 * 50); (s, part, age)
        }).collect();
        let total: u64 = segs.iter().map(|s| ser(&s.1).0.len() as u64).sum();
        let max_age = match rng.below(4) { 0 => None, 1 => Some(*rng.pick(&[0u64, 1, u64::MAX, u64::MAX / 2])), _ => Some((segs.get(rng.below(k.max(1))).map_or(0, |s| s.2) + 25) * 1000) };
        let max_bytes = match rng.below(4) { 0 => None, 1 => Some(*rng.pick(&[0u64, 1, u64::MAX])), _ => Some((rng.below(total as usize + 30)) as u64 + rng.below(2) as u64) };
        let exact = if rng.chance(1, 4) && k > 1 { let i = rng.below(k); Some(segs[i..].iter().map(|s| ser(&s.1).0.len() as u64).sum()) } else { None };
        let max_bytes = exact.or(max_bytes);
        let live = it % 3 == 0;
        run.case("retention", json!({"segments (start, sizes, age s)": segs.iter().map(|s| json!([s.0, s.1.iter().map(|m| 24 + m.2.len()).collect::<Vec<_>>(), s.2])).collect::<Vec<_>>(), "max_age_ms": max_age, "max_bytes": max_bytes, "writer_open": live}), k > 1, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?; let td = tmp.path().join("t"); std::fs::create_dir(&td).unwrap();
            for (n, f) in [("groups.log", 400), ("config.json", 30), ("x.log", 7), ("1.log.bak", 5)] { std::fs::write(td.join(n), vec![1u8; f]).unwrap(); }
            let a = Actor::new(tmp.path(), 3, 1, u64::MAX);
            let now = SystemTime::now();
            for s in &segs { let p = td.join(format!("{}.log", s.0)); std::fs::write(&p, ser(&s.1).0).unwrap(); std::fs::File::options().write(true).open(&p).unwrap().set_modified(now - Duration::from_secs(s.2)).unwrap(); }
            let ps = Arc::new(AtomicU64::new(0));
            let mut extra = 0u64;
            if live && k > 0 { let m = (start, 1, vec![8u8; 10]); a.append("t", &[m.clone()], &ps); for _ in 0..500 { if ps.load(Ordering::Acquire) == start { break; } std::thread::sleep(Duration::from_millis(2)); } extra = 34; }
            let head = a.retain("t", RetentionOptions { max_age_ms: max_age, max_bytes })?;
            let mut left: Vec<(u64, u64)> = segs.iter().enumerate().filter(|(i, s)| *i == k - 1 || max_age.map_or(true, |m| s.2 * 1000 <= m)).map(|(i, s)| (s.0, ser(&s.1).0.len() as u64 + if i == k - 1 { extra } else { 0 })).collect();
            if let Some(b) = max_bytes { while left.len() > 1 && left.iter().map(|s| s.1).sum::<u64>() > b { left.remove(0); } }
            let got: Vec<u64> = wait(&a.rt, "segments", find_segments(&td))?.map_err(|e| e.to_string())?.iter().map(|s| s.start_seq).collect();
            ensure!(got == left.iter().map(|s| s.0).collect::<Vec<_>>(), "segments left {got:?}, expected {:?}", left.iter().map(|s| s.0).collect::<Vec<_>>());
            ensure!(head == left.first().map_or(1, |s| s.0), "reported first position {head}, oldest segment is {:?}", left.first());
            for (n, f) in [("groups.log", 400), ("config.json", 30), ("x.log", 7), ("1.log.bak", 5)] { ensure!(std::fs::metadata(td.join(n)).map(|m| m.len()).unwrap_or(0) == f, "retention touched {n}"); }
            // what is left is untouched
            for s in &segs { if left.iter().any(|l| l.0 == s.0) { let r = plain(wait(&a.rt, "read", read_log_segment(&td.join(format!("{}.log", s.0)), 0, usize::MAX))?); ensure!(r.starts_with(&s.1), "segment {} was altered", s.0); } }
            // appends continue at the end of the newest segment
            if k > 0 { let m = (start + 1, 1, vec![8u8; 10]); a.append("t", &[m.clone()], &ps); for _ in 0..500 { if ps.load(Ordering::Acquire) == start + 1 { break; } std::thread::sleep(Duration::from_millis(2)); } let r = plain(wait(&a.rt, "read", read_log_segment(&td.join(format!("{}.log", segs[k - 1].0)), 0, usize::MAX))?); ensure!(r.last() == Some(&m), "the next append did not reach the newest segment"); }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- L11
fn appends(run: &mut Run, n: usize) {
    let mut rng = run.rng("appends");
    for _ in 0..n {
        if run.done() { break; }
        let topics = rng.range(1, 4); let open = rng.range(1, 3); let seg = *rng.pick(&[0u64, 1, 60, 100, 150, 400, 100000]); let flush = *rng.pick(&[1u64, 3, 1000]);
        let mut next = vec![1u64; topics];
        let ops: Vec<(usize, Vec<M>)> = (0..rng.range(3, 40)).map(|_| { let t = rng.below(topics); let k = if rng.chance(1, 8) { rng.below(4) } else { 1 }; let v: Vec<M> = (0..k).map(|_| { let m = (next[t], 100 + next[t], rng.bytes(60)); next[t] += 1; m }).collect(); (t, v) }).collect();
        let probes: Vec<(u64, usize)> = (0..6).map(|_| (rng.below(30) as u64, *rng.pick(&[0usize, 1, 3, 1000]))).collect();
        run.case("append-history", json!({"topics": topics, "open_files": open, "segment_bytes": seg, "flush_ms": flush, "appends": ops.iter().map(|o| json!([o.0, show(&o.1)])).collect::<Vec<_>>()}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let mut a = Actor::new(tmp.path(), open, flush, seg);
            let ps: Vec<Arc<AtomicU64>> = (0..topics).map(|_| Arc::new(AtomicU64::new(0))).collect();
            let mut all: Vec<Vec<M>> = vec![vec![]; topics]; let mut batches: Vec<Vec<(u64, u64)>> = vec![vec![]; topics];
            for (i, (t, v)) in ops.iter().enumerate() {
                a.append(&format!("t{t}"), v, &ps[*t]);
                if let Some(m) = v.first() { batches[*t].push((m.0, ser(v).0.len() as u64)); }
                all[*t].extend(v.clone());
                if i % 7 == 3 { for u in 0..topics {
                    let p = ps[u].load(Ordering::Acquire);
                    let d = disk_all(&a.rt, &tmp.path().join(format!("t{u}")))?;
                    ensure!(p as usize <= all[u].len(), "topic {u}: position {p} reported persisted, {} published", all[u].len());
                    ensure!(d.len() >= p as usize && all[u].starts_with(&d[..p as usize]), "topic {u}: position {p} reported persisted but the files hold {:?}", seqs(&d));
                    let r = a.read(&format!("t{u}"), 1, 1000)?;
                    ensure!(all[u].starts_with(&r), "topic {u}: a disk read gives {:?}", seqs(&r));
                } }
            }
            if flush < 100 { for u in 0..topics { for k in 0..1000 { if ps[u].load(Ordering::Acquire) as usize == all[u].len() { break; } ensure!(k < 999, "topic {u}: {} published, only {} reported persisted after 2 s", all[u].len(), ps[u].load(Ordering::Acquire)); std::thread::sleep(Duration::from_millis(2)); } } }
            else { a.tx = mpsc::unbounded_channel().0; std::thread::sleep(Duration::from_millis(5)); for u in 0..topics { for _ in 0..1000 { if ps[u].load(Ordering::Acquire) as usize == all[u].len() { break; } std::thread::sleep(Duration::from_millis(2)); } ensure!(ps[u].load(Ordering::Acquire) as usize == all[u].len(), "topic {u}: shutdown left {} of {} persisted", ps[u].load(Ordering::Acquire), all[u].len()); } }
            for u in 0..topics {
                let dir = tmp.path().join(format!("t{u}"));
                let d = disk_all(&a.rt, &dir)?;
                ensure!(d == all[u], "topic {u}: the files hold {:?}, published {:?}", seqs(&d), seqs(&all[u]));
                let ss = wait(&a.rt, "segments", find_segments(&dir))?.map_err(|e| e.to_string())?;
                let mut b = batches[u].iter().peekable(); 
                for (i, s) in ss.iter().enumerate() {
                    let c = plain(wait(&a.rt, "read", read_log_segment(&s.path, 0, usize::MAX))?);
                    ensure!(c.first().map(|m| m.0) == Some(s.start_seq), "topic {u}: segment {} starts with {:?}", s.start_seq, c.first().map(|m| m.0));
                    let size = std::fs::metadata(&s.path).unwrap().len();
                    let lim = ss.get(i + 1).map_or(u64::MAX, |x| x.start_seq);
                    let mut k = 0; while b.peek().map_or(false, |x| x.0 < lim) { b.next(); k += 1; }
                    ensure!(size <= seg || k == 1, "topic {u}: segment {} has {size} bytes from {k} appends, limit {seg}", s.start_seq);
                    if let Some(nx) = b.peek() { ensure!(size + nx.1 > seg, "topic {u}: segment {} of {size} bytes was closed though the next append of {} bytes fits {seg}", s.start_seq, nx.1); }
                }
            }
            if flush < 100 { for (from, lim) in &probes { for u in 0..topics {
                let r = a.read(&format!("t{u}"), *from, *lim)?;
                let want: Vec<M> = all[u].iter().filter(|m| m.0 >= *from).take(*lim).cloned().collect();
                ensure!(r == want, "topic {u}: disk read from {from} limit {lim} gives {:?}, expected {:?}", seqs(&r), seqs(&want));
            } } }
            Ok(())
        });
    }
    // the disk refuses to take the bytes: nothing may be reported as persisted
    for how in ["first file full", "second file full", "evicted file full"] {
        run.case("disk-full", json!({"how": how}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let td = tmp.path().join("t"); std::fs::create_dir(&td).unwrap();
            let seg = if how == "first file full" { 100000 } else { 60 };
            let bad: u64 = if how == "first file full" { 1 } else { 3 };
            std::os::unix::fs::symlink("/dev/full", td.join(format!("{bad}.log"))).unwrap();
            let a = Actor::new(tmp.path(), 1, 3, seg);
            let ps = Arc::new(AtomicU64::new(0)); let other = Arc::new(AtomicU64::new(0));
            if how == "second file full" || how == "evicted file full" { std::fs::remove_file(td.join(format!("{bad}.log"))).unwrap(); }
            for i in 1..=6u64 {
                if i == bad && bad > 1 { std::os::unix::fs::symlink("/dev/full", td.join(format!("{bad}.log"))).unwrap(); }
                a.append("t", &[(i, 1, vec![1; 6])], &ps);
                if how == "evicted file full" { a.append("o", &[(i, 1, vec![1; 6])], &other); }
                std::thread::sleep(Duration::from_millis(8));
                let p = ps.load(Ordering::Acquire);
                ensure!(p < bad, "message {p} is reported persisted although writing message {bad} failed");
            }
            std::thread::sleep(Duration::from_millis(20));
            let p = ps.load(Ordering::Acquire);
            ensure!(p < bad, "message {p} is reported persisted although writing message {bad} failed");
            if how == "evicted file full" { ensure!(other.load(Ordering::Acquire) == 6, "another topic is affected: {} of 6 persisted", other.load(Ordering::Acquire)); }
            Ok(())
        });
    }
}

fn main() {
    let mut run = Run::from_args();
    match run.prop.as_str() {
        "L07" => { let n = run.n(400); segments(&mut run, n); }
        "L08" => { let n = run.n(1500); crashes(&mut run, n); }
        "L09" => { let n = run.n(1500); groups(&mut run, n); }
        "L10" => { let n = run.n(1500); retention(&mut run, n); }
        "L11" => { let n = run.n(500); appends(&mut run, n); }
        p => panic!("{p}"),
    }
    let _: Option<PathBuf> = None;
    run.finish();
}
