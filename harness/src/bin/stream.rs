use bytes::Bytes;
use nexo::brokers::stream::config::SystemStreamConfig;
use nexo::brokers::stream::domain::group::ConsumerGroup;
use nexo::brokers::stream::domain::message::Message;
use nexo::brokers::stream::domain::topic::TopicState;
use nexo::brokers::stream::options::{RetentionOptions, SeekTarget, StreamCreateOptions};
use nexo::brokers::stream::StreamManager;
use nexo_search::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// a broken guarantee counts for the properties in whose tag list this check's property is
macro_rules! tag {
    ($c:expr, $t:expr, $($a:tt)*) => { if !$c { return Err(format!("[{}] {}", $t, format!($($a)*))); } };
}
fn only(prop: &str, r: Result<(), String>) -> Result<(), String> {
    match r {
        Err(e) if e.starts_with('[') => { let t = &e[1..e.find(']').unwrap_or(1)]; if t.split(' ').any(|x| x == prop) { Err(e[e.find(']').unwrap_or(0) + 1..].trim().to_string()) } else { Ok(()) } }
        x => x,
    }
}

// ---------------------------------------------------------------- the log in memory
fn log_histories(run: &mut Run, key: &str, n: usize) {
    let mut rng = run.rng(key);
    let prop = run.prop.clone();
    for _ in 0..n {
        if run.done() { break; }
        let soft = rng.below(7);
        let start = if rng.chance(1, 3) { Some((1 + rng.below(20) as u64, rng.below(5))) } else { None };
        let ops: Vec<(u8, u64, u64)> = (0..rng.range(4, 40)).map(|_| (rng.below(8) as u8, rng.next(), rng.next())).collect();
        run.case(key, json!({"soft_limit": soft, "restored": start, "ops": ops}), true, || only(&prop, (|| {
            // all messages ever published, by position
            let mut all: BTreeMap<u64, (u64, Vec<u8>)> = BTreeMap::new();
            let (mut head, mut next, mut lo);
            let mut t = match start {
                None => { head = 1; next = 1; lo = 1; TopicState::new("t".into(), soft) }
                Some((h, k)) => {
                    let off = ops.len() as u64 % 3;
                    let ms: std::collections::VecDeque<Message> = (0..k as u64).map(|i| Message { seq: h + off + i, timestamp: 7 + i, payload: Bytes::from(vec![i as u8; 3]) }).collect();
                    for m in &ms { all.insert(m.seq, (m.timestamp, m.payload.to_vec())); }
                    head = h; next = if k == 0 { h } else { h + off + k as u64 }; lo = if k == 0 { next } else { h + off };
                    TopicState::restore("t".into(), soft, h, ms)
                }
            };
            for (i, (op, a, b)) in ops.iter().enumerate() {
                match op {
                    0..=3 => {
                        let p: Vec<u8> = if a % 5 == 0 { vec![] } else { a.to_be_bytes()[..(b % 8) as usize].to_vec() };
                        let t0 = now_ms();
                        let (s, ts) = t.append(Bytes::from(p.clone()));
                        tag!(s == next, "L01", "step {i}: publish got position {s}, expected {next}");
                        tag!(ts >= t0 && ts <= now_ms(), "L01", "step {i}: publish time {ts} is not the time of the call");
                        all.insert(s, (ts, p)); next += 1;
                        if lo > s { lo = s; }
                    }
                    4 | 5 => {
                        let persisted = if next == 1 { 0 } else { a % next };
                        let before: Vec<u64> = t.log.iter().map(|m| m.seq).collect();
                        t.evict(persisted);
                        let after: Vec<u64> = t.log.iter().map(|m| m.seq).collect();
                        tag!(before.ends_with(&after), "L02", "step {i}: eviction turned {before:?} into {after:?}");
                        for s in &before[..before.len() - after.len()] { tag!(*s <= persisted, "L02", "step {i}: evicted {s} though only {persisted} is persisted"); }
                        tag!(after.len() == before.len() || after.len() >= soft, "L02", "step {i}: evicted down to {} below the limit {soft}", after.len());
                        tag!(after.len() <= soft || after[0] > persisted, "L02", "step {i}: {} messages stay in memory, limit {soft}, persisted up to {persisted}", after.len());
                        lo = after.first().copied().unwrap_or(next);
                    }
                    6 => {
                        let h = head + a % (next - head + 1).min(4);
                        let before: Vec<u64> = t.log.iter().map(|m| m.seq).collect();
                        t.apply_head(h);
                        head = h;
                        let after: Vec<u64> = t.log.iter().map(|m| m.seq).collect();
                        let want: Vec<u64> = before.iter().copied().filter(|s| *s >= h).collect();
                        tag!(after == want, "L02", "step {i}: trimming to {h} turned {before:?} into {after:?}");
                        lo = lo.max(head); if after.is_empty() { lo = next; }
                    }
                    _ => {}
                }
                tag!(t.next_seq == next && t.head_seq == head, "L01 L02", "step {i}: next position {} head {}, expected {next} and {head}", t.next_seq, t.head_seq);
                tag!(t.log.iter().map(|m| m.seq).eq(lo..next), "L01 L02", "step {i}: memory holds {:?}, expected {lo}..{next}", t.log.iter().map(|m| m.seq).collect::<Vec<_>>());
                for from in [0, head, lo, (a % (next + 3)), next, u64::MAX] {
                    for lim in [0usize, 1, 3, usize::MAX] {
                        let r = t.read(from, lim);
                        let f = from.max(head).max(1);
                        if f >= lo {
                            let want: Vec<u64> = (f..next.max(f)).take(lim).collect();
                            let got: Vec<u64> = r.iter().map(|m| m.seq).collect();
                            tag!(got == want, "L01 L02", "step {i}: read from {from} limit {lim} gave {got:?}, expected {want:?}");
                        } else { tag!(r.is_empty(), "L01", "step {i}: read from {from} below memory start {lo} gave {:?}", r.iter().map(|m| m.seq).collect::<Vec<_>>()); }
                        for m in &r { let w = &all[&m.seq]; tag!(w.0 == m.timestamp && w.1[..] == m.payload[..], "L01 L02", "step {i}: message {} altered", m.seq); }
                    }
                }
            }
            Ok(())
        })()));
    }
}
fn now_ms() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }

// ---------------------------------------------------------------- reference model of a consumer group
#[derive(Default, Clone, Debug)]
struct G { next: u64, floor: u64, pending: BTreeMap<u64, (String, u32)>, red: BTreeSet<u64>, parked: BTreeSet<u64>, tries: BTreeMap<u64, u32>, members: BTreeMap<String, String>, gen: u64, acked: BTreeSet<u64>, maxp: usize, maxd: u32 }
impl G {
    fn new(head: u64, maxp: usize, maxd: u32) -> G { G { next: head, floor: head - 1, gen: 1, maxp, maxd, ..Default::default() } }
    fn settle(&mut self) { let m = self.pending.keys().chain(self.red.iter()).min().copied().unwrap_or(self.next).min(self.next); self.floor = self.floor.max(m - 1); }
    fn clamp(&mut self, head: u64) {
        self.next = self.next.max(head); self.floor = self.floor.max(head - 1);
        self.pending.retain(|k, _| *k >= head); self.red.retain(|k| *k >= head); self.parked.retain(|k| *k >= head); self.tries.retain(|k, _| *k >= head);
        self.settle();
    }
    fn back(&mut self, seqs: Vec<u64>) {
        for s in seqs { let (_, c) = self.pending.remove(&s).unwrap(); if c >= self.maxd { self.parked.insert(s); self.tries.remove(&s); } else { self.red.insert(s); } }
        self.settle();
    }
    fn leave(&mut self, c: &str) { self.members.remove(c); let v = self.pending.iter().filter(|x| x.1 .0 == c).map(|x| *x.0).collect(); self.back(v); }
    fn seek(&mut self, floor: u64) { *self = G { next: floor + 1, floor, gen: self.gen + 1, maxp: self.maxp, maxd: self.maxd, ..Default::default() }; }
    /// the messages handed to `c` must have been due; `avail` = what could be read; complete = nothing due and readable may be left out
    fn handed(&mut self, c: &str, r: &[Message], limit: usize, avail: &dyn Fn(u64) -> bool, hot: bool) -> Result<(), String> {
        let budget = limit.min(self.maxp.saturating_sub(self.pending.len()));
        tag!(r.len() <= limit, "L05", "{} messages returned, limit {limit}", r.len());
        tag!(r.len() <= self.maxp.saturating_sub(self.pending.len()), "L05", "{} more messages out, {} already out, maximum {}", r.len(), self.pending.len(), self.maxp);
        let mut seen = BTreeSet::new();
        for m in r {
            let s = m.seq;
            tag!(seen.insert(s), "L03 L05", "message {s} twice in one fetch");
            tag!(!self.pending.contains_key(&s), "L03 L05", "message {s} delivered to {c} while leased to {:?}", self.pending.get(&s));
            tag!(!self.parked.contains(&s), "L05 L03", "parked message {s} delivered");
            tag!(!self.acked.contains(&s), "L03 L04", "acknowledged message {s} delivered again");
            if self.red.remove(&s) { } else {
                tag!(s == self.next, "L03 L06", "fresh message {s} delivered, next in order is {}", self.next);
                self.next += 1;
            }
            let k = self.tries.entry(s).or_insert(0); *k += 1;
            tag!(*k <= self.maxd, "L05", "message {s} delivered {k} times, maximum {}", self.maxd);
            self.pending.insert(s, (c.to_string(), *k));
        }
        // a message whose deliveries are used up (maximum 0) is parked on its way out
        if self.maxd == 0 && hot { while avail(self.next) && budget > 0 { self.parked.insert(self.next); self.next += 1; } self.settle(); }
        if hot && r.len() < budget {
            tag!(!avail(self.next), "L03", "only {} of {budget} messages returned though message {} is due and in memory", r.len(), self.next);
        }
        self.settle();
        Ok(())
    }
    fn same(&self, g: &ConsumerGroup, i: usize) -> Result<(), String> {
        let p: BTreeMap<u64, (String, u32)> = g.pending.iter().map(|(k, v)| (*k, (v.consumer_id.clone(), v.delivery_count))).collect();
        tag!(p == self.pending, "L03 L04 L05", "step {i}: leases are {p:?}, expected {:?}", self.pending);
        let r: BTreeSet<u64> = g.redeliver.iter().copied().collect();
        tag!(r.len() == g.redeliver.len(), "L03", "step {i}: {:?} queued twice", g.redeliver);
        tag!(r == self.red, "L03 L04 L05", "step {i}: queued for redelivery {r:?}, expected {:?}", self.red);
        let k: BTreeSet<u64> = g.parked.iter().copied().collect();
        tag!(k == self.parked, "L03 L05", "step {i}: parked {k:?}, expected {:?}", self.parked);
        tag!(g.next_deliver_seq == self.next, "L03 L06", "step {i}: delivery position {}, expected {}", g.next_deliver_seq, self.next);
        tag!(g.ack_floor == self.floor, "L03", "step {i}: committed floor {}, expected {}", g.ack_floor, self.floor);
        tag!(g.generation() == self.gen, "L04 L06", "step {i}: generation {}, expected {}", g.generation(), self.gen);
        Ok(())
    }
}

fn group_histories(run: &mut Run, key: &str, n: usize) {
    let mut rng = run.rng(key);
    let prop = run.prop.clone();
    for _ in 0..n {
        if run.done() { break; }
        let maxp = *rng.pick(&[1usize, 2, 3, 5, 100]);
        let maxd = *rng.pick(&[1u32, 2, 3, 3, 50]);
        let soft = *rng.pick(&[0usize, 2, 4, 50]);
        let restored = if rng.chance(1, 4) { Some((rng.below(12) as u64, 1 + rng.below(10) as u64)) } else { None };
        let ops: Vec<(u8, u64, u64)> = (0..rng.range(10, 80)).map(|_| (rng.below(20) as u8, rng.next() >> 20, rng.next() >> 20)).collect();
        run.case(key, json!({"max_ack_pending": maxp, "max_deliveries": maxd, "soft_limit": soft, "restored_floor_head": restored, "ops": ops}), true, || only(&prop, (|| {
            let wait_ = Duration::from_secs(5);
            let mut t = TopicState::new("t".into(), soft);
            let mut disk: BTreeMap<u64, Message> = BTreeMap::new();
            let mut publish = |t: &mut TopicState, disk: &mut BTreeMap<u64, Message>, v: u64| { let p = Bytes::from(v.to_be_bytes().to_vec()); let (s, ts) = t.append(p.clone()); disk.insert(s, Message { seq: s, timestamp: ts, payload: p }); };
            let (mut g, mut m) = match restored {
                None => (ConsumerGroup::new("g".into(), 1, maxp, wait_, maxd), G::new(1, maxp, maxd)),
                Some((f, h)) => {
                    for i in 0..12 { publish(&mut t, &mut disk, i); }
                    t.apply_head(h);
                    let g = ConsumerGroup::restore("g".into(), f, h, maxp, wait_, maxd);
                    let mut m = G::new(h, maxp, maxd); m.floor = f.max(h - 1); m.next = m.floor + 1;
                    (g, m)
                }
            };
            m.same(&g, 0)?;
            let mut ids: Vec<String> = vec!["nobody".into()];
            let mut old: Vec<(String, u64)> = vec![];
            let mut cold: Vec<(String, u64, Vec<Message>)> = vec![];
            for (i, (op, a, b)) in ops.iter().enumerate() {
                let c = ids[*a as usize % ids.len()].clone();
                match op {
                    0..=3 => { for k in 0..1 + a % 3 { publish(&mut t, &mut disk, b ^ k); } }
                    4 => { t.evict(if t.next_seq > 1 { a % t.next_seq } else { 0 }); }
                    5 => { let h = t.head_seq + a % (t.next_seq - t.head_seq + 1).min(3); t.apply_head(h); if b % 2 == 0 { g.clamp_head(h); m.clamp(h); } }
                    6 | 7 => { let id = g.add_member(format!("conn{}", a % 3)); tag!(!m.members.contains_key(&id) && !ids.contains(&id), "L04", "step {i}: consumer id given twice"); m.members.insert(id.clone(), format!("conn{}", a % 3)); ids.push(id); }
                    8 => {
                        let r = g.remove_member(&c);
                        tag!(r == m.members.get(&c).cloned(), "L04", "step {i}: removing {c} answered {r:?}, expected {:?}", m.members.get(&c));
                        if r.is_some() { m.leave(&c); }
                    }
                    9..=12 => {
                        let gen = if b % 9 == 0 { m.gen.wrapping_add(1 + b % 2).wrapping_sub(2 * (b % 2)) } else { m.gen };
                        let limit = *[0usize, 1, 2, 3, 10, 500].get((*b >> 8) as usize % 6).unwrap();
                        let (rs, hs) = (t.ram_start_seq, t.head_seq);
                        let before = m.clone();
                        let r = g.fetch(&c, gen, limit, &t.log, rs, hs);
                        if gen != m.gen || !m.members.contains_key(&c) {
                            tag!(r.is_err(), "L04", "step {i}: a fetch by {c} in generation {gen} (current {}) was served", m.gen);
                            m = before; // nothing may have changed
                        } else {
                            let r = r.map_err(|e| format!("[L03 L04] step {i}: fetch by a member refused: {e}"))?;
                            m.clamp(hs);
                            for x in &r { let w = &disk[&x.seq]; tag!(w.payload == x.payload && w.timestamp == x.timestamp, "L03 L01", "step {i}: message {} altered", x.seq); tag!(x.seq >= hs, "L03", "step {i}: trimmed message {} delivered", x.seq); }
                            let (ns, rs2) = (t.next_seq, rs);
                            m.handed(&c, &r, limit, &|s| s >= rs2 && s < ns, true).map_err(|e| e.replacen("] ", &format!("] step {i}: "), 1))?;
                            if r.is_empty() && limit > 0 && m.pending.len() < maxp {
                                let from = g.next_fetch_seq(hs);
                                if from < t.next_seq && from < rs { cold.push((c.clone(), gen, disk.range(from..).take(limit).map(|x| x.1.clone()).collect())); }
                            }
                        }
                    }
                    13 => if !cold.is_empty() {
                        // messages read from disk arrive; other things may have happened meanwhile
                        let (c, gen, ms) = cold.remove(*a as usize % cold.len());
                        let hs = t.head_seq; let lim = ms.len();
                        let r = g.register_cold_messages(&c, gen, ms, hs);
                        if gen != m.gen || !m.members.contains_key(&c) { tag!(r.is_err(), "L04", "step {i}: a disk read by {c} in generation {gen} (current {}) was registered", m.gen); }
                        else {
                            let r = r.map_err(|e| format!("[L03 L04] step {i}: disk read by a member refused: {e}"))?;
                            m.clamp(hs);
                            for x in &r { tag!(x.seq >= hs, "L03", "step {i}: trimmed message {} delivered", x.seq); }
                            m.handed(&c, &r, lim, &|_| false, false).map_err(|e| e.replacen("] ", &format!("] step {i}: "), 1))?;
                        }
                    },
                    14..=16 => {
                        let pend: Vec<u64> = m.pending.keys().copied().collect();
                        let s = if pend.is_empty() || b % 5 == 0 { b % (t.next_seq + 2) } else { pend[(*b >> 8) as usize % pend.len()] };
                        let (c, gen) = if b % 7 == 0 && !old.is_empty() { old[*a as usize % old.len()].clone() } else { (m.pending.get(&s).filter(|_| b % 3 != 0).map(|x| x.0.clone()).unwrap_or(c), m.gen) };
                        let r = g.ack(&c, gen, s);
                        let ok = gen == m.gen && m.members.contains_key(&c) && m.pending.get(&s).map_or(false, |x| x.0 == c);
                        tag!(r.is_ok() == ok, "L04", "step {i}: acknowledgement of {s} by {c} in generation {gen}: {r:?}; it is {}leased to them (lease {:?}, generation {})", if ok { "" } else { "not " }, m.pending.get(&s), m.gen);
                        if ok { m.pending.remove(&s); m.tries.remove(&s); m.acked.insert(s); m.settle(); }
                    }
                    17 | 18 => {
                        // some leases become older than the acknowledgement wait
                        let mut lapsed = vec![];
                        for (k, (s, p)) in g.pending.iter_mut().enumerate() {
                            let _ = k;
                            if (s ^ a) % 2 == 0 { if let Some(x) = Instant::now().checked_sub(wait_ + Duration::from_millis(50 + s % 10)) { p.delivered_at = x; lapsed.push(*s); } }
                        }
                        let r = g.check_redelivery();
                        tag!(r == !lapsed.is_empty(), "L05", "step {i}: redelivery check answered {r} with {lapsed:?} lapsed");
                        m.back(lapsed);
                    }
                    _ => {
                        old = m.members.keys().map(|k| (k.clone(), m.gen)).collect();
                        if b % 3 == 0 { g.seek_end(t.next_seq - 1); m.seek(t.next_seq - 1); tag!(g.next_deliver_seq == t.next_seq, "L06", "step {i}: after a seek to the end the next delivery is {}", g.next_deliver_seq); }
                        else { g.seek_beginning(t.head_seq); m.seek(t.head_seq - 1); tag!(g.next_deliver_seq == t.head_seq, "L06", "step {i}: after a seek to the beginning the next delivery is {}, first retained {}", g.next_deliver_seq, t.head_seq); }
                        for (o, _) in &old { tag!(!g.is_member(o), "L06 L04", "step {i}: {o} is still a member after a seek"); }
                        tag!(g.pending.is_empty(), "L06", "step {i}: leases left after a seek");
                    }
                }
                for id in &ids { tag!(g.is_member(id) == m.members.contains_key(id), "L04 L06", "step {i}: membership of {id} is {}", g.is_member(id)); }
                m.same(&g, i)?;
                tag!(g.is_backpressured() == (m.pending.len() >= maxp), "L05", "step {i}: backpressure is {} with {} of {maxp} out", g.is_backpressured(), m.pending.len());
            }
            Ok(())
        })()));
    }
}

// ---------------------------------------------------------------- the broker as clients see it
pub fn cfg(dir: &std::path::Path) -> SystemStreamConfig {
    SystemStreamConfig { persistence_path: dir.join("streams").to_string_lossy().to_string(), default_flush_ms: 4, max_segment_size: 300, retention_check_interval_ms: 3_600_000, default_retention_bytes: u64::MAX / 2, default_retention_age_ms: u64::MAX / 1_000_000_000,
        eviction_interval_ms: 3, ram_soft_limit: 6, ram_hard_limit: 20000, max_ack_pending: 10000, max_open_files: 8, ack_wait_ms: 3_600_000, max_deliveries: 50 }
}
fn mgr(rt: &tokio::runtime::Runtime, c: &SystemStreamConfig) -> Result<StreamManager, String> { wait(rt, "start", StreamManager::new(Arc::new(c.clone()))) }

/// publishers race; every reader, hot or cold, sees one gap-free log
fn publishers(run: &mut Run, n: usize) {
    let mut rng = run.rng("publishers");
    for _ in 0..n {
        if run.done() { break; }
        let tasks = rng.range(1, 8); let per = rng.range(5, 60); let soft = *rng.pick(&[0usize, 5, 1000]); let seg = *rng.pick(&[60u64, 300, 100_000]); let seed = rng.next();
        run.case("publishers-and-readers", json!({"publishers": tasks, "messages_each": per, "soft_limit": soft, "segment_bytes": seg, "seed": seed}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let mut c = cfg(tmp.path()); c.ram_soft_limit = soft; c.max_segment_size = seg;
            let rt1 = rt();
            let m = mgr(&rt1, &c)?;
            wait(&rt1, "create", m.create_topic("t".into(), StreamCreateOptions::default()))??;
            let all: Arc<Mutex<BTreeMap<u64, Vec<u8>>>> = Default::default();
            let r = wait(&rt1, "publish", async {
                let mut hs = vec![];
                for k in 0..tasks {
                    let (m, all) = (m.clone(), all.clone());
                    hs.push(tokio::spawn(async move {
                        let mut r = Rng::new(seed ^ k as u64);
                        let mut last = 0;
                        for i in 0..per {
                            let mut p = format!("{k}/{i}/").into_bytes(); p.extend(r.bytes(40)); if r.chance(1, 20) { p.clear(); }
                            let s = m.publish("t", Bytes::from(p.clone())).await?;
                            if s <= last { return Err(format!("position {s} after {last}")); }
                            last = s;
                            if all.lock().unwrap().insert(s, p).is_some() { return Err(format!("position {s} given twice")); }
                            if r.chance(1, 8) { tokio::time::sleep(Duration::from_millis(r.below(6) as u64)).await; }
                            // reading while others publish: what is returned is consecutive and right
                            if r.chance(1, 6) {
                                let from = 1 + r.below(s as usize) as u64;
                                let got = m.read("t", from, 10).await;
                                if got.is_empty() { return Err(format!("reading from {from} gives nothing though {s} is published")); }
                                for (i, g) in got.iter().enumerate() { if g.seq != from + i as u64 { return Err(format!("reading from {from} gives positions {:?}", got.iter().map(|x| x.seq).collect::<Vec<_>>())); } if let Some(p) = all.lock().unwrap().get(&g.seq) { if p[..] != g.payload[..] { return Err(format!("message {} altered", g.seq)); } } }
                            }
                        }
                        Ok::<(), String>(())
                    }));
                }
                for h in hs { h.await.map_err(|e| e.to_string())??; }
                Ok::<(), String>(())
            })?;
            r?;
            let all = all.lock().unwrap().clone();
            let total = (tasks * per) as u64;
            ensure!(all.keys().copied().eq(1..=total), "positions are not exactly 1..={total}");
            std::thread::sleep(Duration::from_millis(40));
            let mut r = Rng::new(seed);
            for _ in 0..30 {
                let from = r.below(total as usize + 3) as u64; let lim = *r.pick(&[1usize, 2, 7, 1000]);
                let got = wait(&rt1, "read", m.read("t", from, lim))?;
                let f = from.max(1);
                let want: Vec<u64> = (f..=total).take(lim).collect();
                let seqs: Vec<u64> = got.iter().map(|x| x.seq).collect();
                ensure!(want.starts_with(&seqs) && (want.is_empty() || !seqs.is_empty()), "read from {from} limit {lim} gave {seqs:?}");
                for g in &got { ensure!(all[&g.seq][..] == g.payload[..], "message {} altered", g.seq); }
            }
            // walking the log from the start reaches every message
            let mut at = 1;
            while at <= total { let got = wait(&rt1, "read", m.read("t", at, 9))?; ensure!(!got.is_empty(), "reading stops at {at} of {total}"); for g in &got { ensure!(g.seq == at && all[&at][..] == g.payload[..], "at {at} the log gives {}", g.seq); at += 1; } }
            m.shutdown(); drop(m);
            rt1.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        });
    }
}

#[derive(Default)]
struct Seen { out: BTreeMap<u64, String>, acked: BTreeSet<u64> }
/// consumers come and go while messages are published and evicted; every message is acknowledged exactly once
fn consumers(run: &mut Run, n: usize) {
    let mut rng = run.rng("consumers");
    let prop = run.prop.clone();
    for _ in 0..n {
        if run.done() { break; }
        let total = rng.range(20, 120) as u64; let members = rng.range(1, 5); let soft = *rng.pick(&[0usize, 4, 1000]); let maxp = *rng.pick(&[1usize, 3, 20, 1000]); let seed = rng.next();
        run.case("consumers-come-and-go", json!({"messages": total, "members": members, "soft_limit": soft, "max_ack_pending": maxp, "seed": seed}), true, || only(&prop, (|| {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let mut c = cfg(tmp.path()); c.ram_soft_limit = soft; c.max_ack_pending = maxp;
            let rt1 = rt();
            let m = mgr(&rt1, &c)?;
            wait(&rt1, "create", m.create_topic("t".into(), StreamCreateOptions::default()))??;
            let seen: Arc<Mutex<Seen>> = Default::default();
            let r: Result<(), String> = wait(&rt1, "all messages to be consumed", async {
                let pm = m.clone();
                let pb = tokio::spawn(async move { let mut r = Rng::new(seed ^ 77); for i in 0..total { pm.publish("t", Bytes::from(i.to_be_bytes().to_vec())).await?; if r.chance(1, 5) { tokio::time::sleep(Duration::from_millis(r.below(8) as u64)).await; } } Ok::<(), String>(()) });
                let mut hs = vec![];
                for k in 0..members {
                    let (m, seen) = (m.clone(), seen.clone());
                    hs.push(tokio::spawn(async move {
                        let mut r = Rng::new(seed ^ (k as u64) << 8);
                        let end = Instant::now() + Duration::from_secs(15);
                        'life: loop {
                            if seen.lock().unwrap().acked.len() as u64 == total { return Ok(()); }
                            if Instant::now() > end { let a = seen.lock().unwrap().acked.clone(); return Err(format!("[L03] {} of {total} messages were never delivered: {:?}", total - a.len() as u64, (1..=total).filter(|s| !a.contains(s)).take(5).collect::<Vec<_>>())); }
                            let conn = format!("conn{k}-{}", r.next());
                            let j = m.join_group("g", "t", &conn).await?;
                            for _ in 0..r.range(1, 12) {
                                let lim = r.range(1, 6);
                                let got = m.fetch("g", &j.consumer_id, j.generation, lim, "t", 15).await.map_err(|e| format!("[L03 L04] fetch refused: {e}"))?;
                                if got.is_empty() { tokio::time::sleep(Duration::from_millis(r.range(2, 12) as u64)).await; }
                                { let mut s = seen.lock().unwrap();
                                  if got.len() > lim { return Err(format!("[L05] {} messages, limit {lim}", got.len())); }
                                  for g in &got {
                                    if let Some(o) = s.out.get(&g.seq) { return Err(format!("[L03] message {} delivered to {} while {} holds it", g.seq, j.consumer_id, o)); }
                                    if s.acked.contains(&g.seq) { return Err(format!("[L03 L04] acknowledged message {} delivered again", g.seq)); }
                                    if g.payload[..] != (g.seq - 1).to_be_bytes()[..] { return Err(format!("[L01 L03] message {} altered", g.seq)); }
                                    s.out.insert(g.seq, j.consumer_id.clone());
                                  }
                                  if s.out.len() > maxp { return Err(format!("[L05] {} messages out, maximum {maxp}", s.out.len())); }
                                }
                                for g in &got { if !r.chance(1, 5) {
                                    // free the record first: the group may hand out more as soon as this one is settled
                                    { let mut s = seen.lock().unwrap(); s.out.remove(&g.seq); s.acked.insert(g.seq); }
                                    m.ack("g", "t", &j.consumer_id, j.generation, g.seq).await.map_err(|e| format!("[L04] acknowledgement of {} by its owner refused: {e}", g.seq))?;
                                    if m.ack("g", "t", &j.consumer_id, j.generation, g.seq).await.is_ok() { return Err(format!("[L04] {} acknowledged twice", g.seq)); }
                                } }
                                if seen.lock().unwrap().acked.len() as u64 == total { break; }
                            }
                            { let mut s = seen.lock().unwrap(); let mine = j.consumer_id.clone(); s.out.retain(|_, o| *o != mine); }
                            if r.chance(1, 2) { m.leave_group("g", "t", &j.consumer_id, j.generation).await.map_err(|e| format!("[L04] leaving refused: {e}"))?; } else { m.disconnect(conn).await; }
                            if m.fetch("g", &j.consumer_id, j.generation, 1, "t", 0).await.is_ok_and(|x| !x.is_empty()) { return Err("[L04] a consumer that left was served".into()); }
                            if let Some(x) = None::<u8> { let _ = x; break 'life; }
                        }
                        #[allow(unreachable_code)] Ok::<(), String>(())
                    }));
                }
                pb.await.map_err(|e| e.to_string())??;
                for h in hs { h.await.map_err(|e| e.to_string())??; }
                Ok(())
            })?;
            r?;
            let snap = wait(&rt1, "snapshot", m.get_snapshot())?;
            let g = &snap.topics[0].groups[0];
            tag!(g.ack_floor == total && g.pending_count == 0, "L03", "everything is acknowledged but the floor is {} of {total} with {} leased", g.ack_floor, g.pending_count);
            m.shutdown(); drop(m);
            rt1.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        })()));
    }
}

/// refusals, other groups and other clients stay untouched, seeks
fn group_scripts(run: &mut Run, n: usize) {
    let mut rng = run.rng("scripts");
    let prop = run.prop.clone();
    for _ in 0..n {
        if run.done() { break; }
        let pre = rng.range(3, 30) as u64; let soft = *rng.pick(&[0usize, 3, 1000]); let take = rng.range(1, 6); let seed = rng.next(); let trim = rng.chance(1, 2);
        run.case("group-script", json!({"published": pre, "soft_limit": soft, "fetch": take, "trim": trim, "seed": seed}), true, || only(&prop, (|| {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let mut c = cfg(tmp.path()); c.ram_soft_limit = soft; c.max_segment_size = 100;
            let mut o = StreamCreateOptions::default();
            if trim { c.retention_check_interval_ms = 10; o.retention = Some(RetentionOptions { max_age_ms: Some(0), max_bytes: Some(250) }); }
            let rt1 = rt();
            let m = mgr(&rt1, &c)?;
            let w = |what: &str, f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<Vec<Message>, String>> + '_>>| -> Result<Result<Vec<Message>, String>, String> { wait(&rt1, what, f) };
            wait(&rt1, "create", m.create_topic("t".into(), o))??;
            let mut disk: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
            for i in 0..pre { let s = wait(&rt1, "publish", m.publish("t", Bytes::from(vec![i as u8; 20])))??; disk.insert(s, vec![i as u8; 20]); }
            std::thread::sleep(Duration::from_millis(if trim { 80 } else { 20 }));
            let j1 = wait(&rt1, "join", m.join_group("g", "t", "c1"))??;
            let first = wait(&rt1, "read", m.read("t", 0, 1))?;
            let head = first.first().map(|x| x.seq).unwrap_or(1);
            if !trim { tag!(head == 1, "L01", "the log starts at {head}"); }
            tag!(j1.ack_floor == head - 1, "L06", "a new group starts with floor {}, first retained is {head}", j1.ack_floor);
            let j2 = wait(&rt1, "join", m.join_group("g", "t", "c2"))??;
            let other = wait(&rt1, "join", m.join_group("other", "t", "c1"))??;
            let f1 = w("fetch", Box::pin(m.fetch("g", &j1.consumer_id, j1.generation, take, "t", 0)))?.map_err(|e| format!("[L03] {e}"))?;
            let want: Vec<u64> = (head..=pre).take(take).collect();
            let got: Vec<u64> = f1.iter().map(|x| x.seq).collect();
            tag!(want.starts_with(&got) && !got.is_empty(), "L03 L06 L01", "the first fetch of a new group gives {got:?}, first retained {head}, {pre} published");
            for x in &f1 { tag!(disk[&x.seq][..] == x.payload[..], "L01 L03", "message {} altered", x.seq); }
            let fo = w("fetch", Box::pin(m.fetch("other", &other.consumer_id, other.generation, 2, "t", 0)))?.map_err(|e| format!("[L03] {e}"))?;
            tag!(fo.first().map(|x| x.seq) == Some(head), "L03 L06", "another group starts at {:?}, first retained {head}", fo.first().map(|x| x.seq));
            let f2 = w("fetch", Box::pin(m.fetch("g", &j2.consumer_id, j2.generation, 2, "t", 0)))?.map_err(|e| format!("[L03] {e}"))?;
            for x in &f2 { tag!(!got.contains(&x.seq), "L03", "message {} leased to two members", x.seq); tag!(x.seq == got.last().unwrap() + 1 || f2[0].seq + 1 == x.seq, "L03", "second member got {} after {:?}", x.seq, got); }
            // refusals change nothing
            let s0 = f1[0].seq;
            for (g, t, cid, gen, what) in [("g", "t", j2.consumer_id.as_str(), j2.generation, "another member"), ("g", "t", "x", j1.generation, "a non-member"), ("g", "t", j1.consumer_id.as_str(), j1.generation + 1, "another generation"), ("other", "t", j1.consumer_id.as_str(), j1.generation, "another group's member"), ("none", "t", j1.consumer_id.as_str(), 1, "an unknown group"), ("g", "u", j1.consumer_id.as_str(), 1, "an unknown topic")] {
                let r = wait(&rt1, "ack", m.ack(g, t, cid, gen, s0))?;
                tag!(r.is_err(), "L04", "acknowledgement by {what} succeeded");
            }
            for (cid, gen) in [("x", j1.generation), (j1.consumer_id.as_str(), j1.generation + 1), (j1.consumer_id.as_str(), j1.generation.wrapping_sub(1)), (other.consumer_id.as_str(), 1)] {
                let r = w("fetch", Box::pin(m.fetch("g", cid, gen, 5, "t", 0)))?;
                tag!(r.as_ref().map_or(true, |v| v.is_empty()), "L04", "fetch by {cid} in generation {gen} returned messages");
                let r = wait(&rt1, "leave", m.leave_group("g", "t", cid, gen))?;
                tag!(r.is_err(), "L04", "leave by {cid} in generation {gen} succeeded");
            }
            wait(&rt1, "ack", m.ack("g", "t", &j1.consumer_id, j1.generation, s0))?.map_err(|e| format!("[L04] the owner's acknowledgement was refused: {e}"))?;
            // a client leaves: exactly its leases come back, the other's stay
            let back: Vec<u64> = got.iter().copied().skip(1).collect();
            if seed % 2 == 0 { wait(&rt1, "disconnect", m.disconnect("c1".into()))?; } else { wait(&rt1, "leave", m.leave_group("g", "t", &j1.consumer_id, j1.generation))?.map_err(|e| format!("[L04] {e}"))?; }
            let r = wait(&rt1, "ack", m.ack("g", "t", &j1.consumer_id, j1.generation, *got.last().unwrap()))?;
            tag!(r.is_err(), "L04", "a consumer that left acknowledged a message");
            if let Some(x) = f2.first() { wait(&rt1, "ack", m.ack("g", "t", &j2.consumer_id, j2.generation, x.seq))?.map_err(|e| format!("[L04] another member's lease was lost when a client left: {e}"))?; }
            let mut again: Vec<u64> = vec![]; let end = Instant::now() + Duration::from_secs(3);
            while !back.iter().all(|x| again.contains(x)) && Instant::now() < end {
                let r = w("fetch", Box::pin(m.fetch("g", &j2.consumer_id, j2.generation, back.len(), "t", 5)))?.map_err(|e| format!("[L03] {e}"))?;
                for x in &r { tag!(!again.contains(&x.seq), "L03", "message {} delivered twice to one member", x.seq); tag!(back.contains(&x.seq) || x.seq > *got.last().unwrap(), "L04 L03", "message {} came back, the client that left held {back:?}", x.seq); again.push(x.seq); }
            }
            again.retain(|x| back.contains(x)); again.sort();
            let head = wait(&rt1, "read", m.read("t", 0, 1))?.first().map(|x| x.seq).unwrap_or(1);
            let back: Vec<u64> = back.into_iter().filter(|x| *x >= head).collect(); again.retain(|x| *x >= head);
            tag!(again == back, "L04 L03", "after a client left, {again:?} came back, it held {back:?}");
            let alive_other = seed % 2 != 0;
            if alive_other { for x in &fo { wait(&rt1, "ack", m.ack("other", "t", &other.consumer_id, other.generation, x.seq))?.map_err(|e| format!("[L04 L06] a lease in another group was lost: {e}"))?; } }
            // seeks
            let o2 = wait(&rt1, "join", m.join_group("other", "t", "c9"))??;
            let before = wait(&rt1, "snapshot", m.get_snapshot())?.topics[0].groups.iter().find(|x| x.id == "other").map(|x| (x.ack_floor, x.pending_count));
            let mut old = (j2.consumer_id.clone(), j2.generation);
            for k in 0..3 {
                let end_ = (seed >> k) & 1 == 1;
                wait(&rt1, "seek", m.seek("g", "t", if end_ { SeekTarget::End } else { SeekTarget::Beginning }))?.map_err(|e| format!("[L06] {e}"))?;
                let r = w("fetch", Box::pin(m.fetch("g", &old.0, old.1, 5, "t", 0)))?;
                tag!(r.as_ref().map_or(true, |v| v.is_empty()), "L06 L04", "a consumer from before a seek was served");
                tag!(wait(&rt1, "ack", m.ack("g", "t", &old.0, old.1, *again.first().unwrap_or(&s0)))?.is_err(), "L06 L04", "a consumer from before a seek acknowledged a message");
                let j = wait(&rt1, "join", m.join_group("g", "t", "c5"))??;
                tag!(j.generation != old.1, "L06 L04", "a seek did not change the generation");
                let head = wait(&rt1, "read", m.read("t", 0, 1))?.first().map(|x| x.seq).unwrap_or(1);
                let last = *disk.keys().last().unwrap();
                if end_ {
                    let r = w("fetch", Box::pin(m.fetch("g", &j.consumer_id, j.generation, 5, "t", 0)))?.map_err(|e| format!("[L06] {e}"))?;
                    tag!(r.is_empty(), "L06", "after a seek to the end, old message {} was delivered", r[0].seq);
                    let s = wait(&rt1, "publish", m.publish("t", Bytes::from(vec![9; 20])))??; disk.insert(s, vec![9; 20]);
                    let r = w("fetch", Box::pin(m.fetch("g", &j.consumer_id, j.generation, 5, "t", 200)))?.map_err(|e| format!("[L06] {e}"))?;
                    tag!(r.iter().map(|x| x.seq).eq([last + 1]), "L06", "after a seek to the end and a publish of {s}, delivered {:?}", r.iter().map(|x| x.seq).collect::<Vec<_>>());
                } else {
                    let r = w("fetch", Box::pin(m.fetch("g", &j.consumer_id, j.generation, 5, "t", 0)))?.map_err(|e| format!("[L06] {e}"))?;
                    tag!(r.first().map(|x| x.seq) == Some(head), "L06", "after a seek to the beginning, delivered {:?}, first retained {head}", r.iter().map(|x| x.seq).collect::<Vec<_>>());
                }
                let after = wait(&rt1, "snapshot", m.get_snapshot())?.topics[0].groups.iter().find(|x| x.id == "other").map(|x| (x.ack_floor, x.pending_count));
                if !trim { tag!(before == after, "L06", "a seek changed another group from {before:?} to {after:?}"); }
                old = (j.consumer_id, j.generation);
            }
            let r = w("fetch", Box::pin(m.fetch("other", &o2.consumer_id, o2.generation, 1, "t", 0)))?;
            tag!(r.is_ok(), "L06 L04", "a seek in one group put out a member of another: {:?}", r.err());
            m.shutdown(); drop(m);
            rt1.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        })()));
    }
}

/// leases by the clock
fn leases(run: &mut Run, n: usize) {
    let mut rng = run.rng("leases");
    for _ in 0..n {
        if run.done() { break; }
        let ack_wait = rng.range(150, 260) as u64; let maxd = rng.range(1, 4) as u32; let maxp = rng.range(1, 4); let pubs = maxp + rng.below(3); let soft = *rng.pick(&[0usize, 1000]);
        run.case("lease-clock", json!({"ack_wait_ms": ack_wait, "max_deliveries": maxd, "max_ack_pending": maxp, "published": pubs, "soft_limit": soft}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let mut c = cfg(tmp.path()); c.ack_wait_ms = ack_wait; c.max_deliveries = maxd; c.max_ack_pending = maxp; c.ram_soft_limit = soft;
            let rt1 = rt();
            let m = mgr(&rt1, &c)?;
            wait(&rt1, "create", m.create_topic("t".into(), StreamCreateOptions::default()))??;
            for i in 0..pubs { wait(&rt1, "publish", m.publish("t", Bytes::from(vec![i as u8])))??; }
            std::thread::sleep(Duration::from_millis(20));
            let j = wait(&rt1, "join", m.join_group("g", "t", "c"))??;
            let mut count: BTreeMap<u64, u32> = BTreeMap::new();
            let mut held: BTreeMap<u64, Instant> = BTreeMap::new();
            let end = Instant::now() + Duration::from_millis((ack_wait + 250) * (maxd as u64 * (pubs as u64).div_ceil(maxp as u64) + 2) + 2000);
            let quiet = Duration::from_millis(ack_wait * 2 + 500);
            let mut last = Instant::now();
            while Instant::now() < end {
                let t0 = Instant::now();
                let r = wait(&rt1, "fetch", m.fetch("g", &j.consumer_id, j.generation, 10, "t", 0))??;
                let t1 = Instant::now();
                ensure!(r.len() <= maxp, "{} messages out, maximum {maxp}", r.len());
                for x in &r {
                    last = t1;
                    if let Some(s) = held.get(&x.seq) { ensure!(t1.duration_since(*s) >= Duration::from_millis(ack_wait), "message {} offered again {} ms after its delivery, the wait is {ack_wait} ms", x.seq, t1.duration_since(*s).as_millis()); }
                    held.insert(x.seq, t0);
                    let k = count.entry(x.seq).or_default(); *k += 1;
                    ensure!(*k <= maxd, "message {} delivered {k} times, maximum {maxd}", x.seq);
                }
                let live = held.iter().filter(|x| t1.duration_since(*x.1) < Duration::from_millis(ack_wait)).count();
                ensure!(live <= maxp, "{live} messages out at once, maximum {maxp}");
                if (1..=pubs as u64).all(|s| count.get(&s) == Some(&maxd)) && last.elapsed() > quiet { break; }
                std::thread::sleep(Duration::from_millis(15));
            }
            for s in 1..=pubs as u64 { ensure!(count.get(&s) == Some(&maxd), "message {s} was delivered {:?} times, maximum {maxd}", count.get(&s)); }
            let snap = wait(&rt1, "snapshot", m.get_snapshot())?;
            ensure!(snap.topics[0].groups[0].ack_floor == pubs as u64 && snap.topics[0].groups[0].pending_count == 0, "all messages are parked but the floor is {} of {pubs}", snap.topics[0].groups[0].ack_floor);
            m.shutdown(); drop(m);
            rt1.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- a connection that goes away
/// however a connection ends, its consumers' leases go back to the group and a later consumer gets every message
fn dropped(run: &mut Run, n: usize) {
    let mut rng = run.rng("dropped");
    for i in 0..n {
        if run.done() { break; }
        let how = i % 4; let cold = rng.chance(1, 2); let pre = rng.range(30, 80) as u32; let take = rng.range(1, 20) as u32; let spin = rng.below(40) as u64;
        let key = if cold && how != 3 { "connection-lost-while-reading-disk" } else { "connection-lost" };
        run.case(key, json!({"end": (["close", "reset", "close in mid-request", "malformed frame"][how]), "from_disk": cold, "published": pre, "fetch": take, "spin": spin}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let rt1 = rt();
            wait(&rt1, "session", async {
                let mut c = scratch_config(tmp.path());
                c.stream = SystemStreamConfig { max_deliveries: 50, ..cfg(tmp.path()) };
                if !cold { c.stream.ram_soft_limit = 1000; }
                let e = nexo::NexoEngine::new(&c).await;
                let a = serve(e.clone()).await;
                e.stream.create_topic("t".into(), StreamCreateOptions::default()).await?;
                for k in 0..pre { e.stream.publish("t", Bytes::from(vec![k as u8; 200])).await?; }
                tokio::time::sleep(Duration::from_millis(40)).await;
                let mut j = vec![]; put_str(&mut j, "g"); put_str(&mut j, "t");
                let fetch = |id: &str, gen: u64, lim: u32, wait: u32| { let mut b = vec![]; put_str(&mut b, "t"); put_str(&mut b, "g"); put_str(&mut b, id); b.extend(gen.to_be_bytes()); b.extend(lim.to_be_bytes()); b.extend(wait.to_be_bytes()); b };
                let mut cl = Client::connect(a).await;
                let r = cl.ask(0x33, 1, &j).await?; let mut r = Rd(&r.body); r.u64()?; let gen = r.u64()?; let id = String::from_utf8(r.bytes()?).unwrap();
                if how != 2 || !cold { cl.ask(0x32, 2, &fetch(&id, gen, take, 0)).await?; }
                // requests still running when the connection ends
                for k in 0..3u32 { cl.send(&frame(1, 0x32, 10 + k, &fetch(&id, gen, take, 5000))).await?; }
                for _ in 0..spin * 50 { std::hint::spin_loop(); }
                if spin % 4 == 0 { tokio::task::yield_now().await; }
                match how {
                    0 => { drop(cl); }
                    1 => { let _ = cl.s.set_linger(Some(Duration::ZERO)); drop(cl); }
                    2 => { let f = frame(1, 0x31, 99, &[0; 100]); cl.send(&f[..40]).await?; drop(cl); }
                    _ => { let mut f = frame(1, 0, 99, &[]); f[6..10].copy_from_slice(&u32::MAX.to_be_bytes()); let _ = cl.send(&f).await; tokio::time::sleep(Duration::from_millis(60)).await; }
                }
                tokio::time::sleep(Duration::from_millis(60)).await;
                let j2 = e.stream.join_group("g", "t", "later").await?;
                let mut got = BTreeSet::new();
                let t0 = Instant::now();
                while got.len() < pre as usize && t0.elapsed() < Duration::from_secs(4) {
                    for m in e.stream.fetch("g", &j2.consumer_id, j2.generation, 100, "t", 50).await? { got.insert(m.seq); }
                }
                let missing: Vec<u64> = (1..=pre as u64).filter(|s| !got.contains(s)).collect();
                ensure!(missing.is_empty(), "a consumer that joined after the connection was lost never received messages {missing:?}");
                Ok(())
            })?
        });
    }
}

fn main() {
    let mut run = Run::from_args();
    let q = |run: &Run, n: usize| run.n(n);
    match run.prop.as_str() {
        "L01" => { let n = q(&run, 3000); log_histories(&mut run, "log-history", n); let n = q(&run, 25); publishers(&mut run, n); }
        "L02" => { let n = q(&run, 5000); log_histories(&mut run, "eviction-history", n); }
        "L03" => { let n = q(&run, 32); dropped(&mut run, n); let n = q(&run, 8000); group_histories(&mut run, "group-history", n); let n = q(&run, 15); consumers(&mut run, n); let n = q(&run, 12); group_scripts(&mut run, n); }
        "L04" => { let n = q(&run, 24); dropped(&mut run, n); let n = q(&run, 8000); group_histories(&mut run, "owner-history", n); let n = q(&run, 10); consumers(&mut run, n); let n = q(&run, 15); group_scripts(&mut run, n); }
        "L05" => { let n = q(&run, 8000); group_histories(&mut run, "lease-history", n); let n = q(&run, 4); leases(&mut run, n); let n = q(&run, 5); consumers(&mut run, n); }
        "L06" => { let n = q(&run, 6000); group_histories(&mut run, "seek-history", n); let n = q(&run, 25); group_scripts(&mut run, n); }
        p => panic!("{p}"),
    }
    let _: HashMap<u8, u8> = HashMap::new();
    run.finish();
}
