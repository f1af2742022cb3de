use bytes::Bytes;
use nexo::brokers::queue::config::SystemQueueConfig;
use nexo::brokers::queue::domain::dlq::{DlqMessage, DlqState};
use nexo::brokers::queue::domain::queue::{current_time_ms, Message, MessageState, QueueState};
use nexo::brokers::queue::options::QueueCreateOptions;
use nexo::brokers::queue::QueueManager;
use nexo_search::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
use std::time::{Duration, Instant};
use uuid::Uuid;

// ---------------------------------------------------------------- reference model of one queue
#[derive(Clone, Debug, PartialEq)]
struct M { id: Uuid, payload: Vec<u8>, prio: u8, created: u64, attempts: u32, lease: Option<u64>, rank: u64 }
#[derive(Default, Clone)]
struct Model { live: BTreeMap<Uuid, M>, rank: u64 }
impl Model {
    fn waiting(&self) -> Vec<&M> { self.live.values().filter(|m| m.lease.is_none()).collect() }
    fn push(&mut self, m: &Message) {
        self.rank += 1;
        self.live.insert(m.id, M { id: m.id, payload: m.payload.to_vec(), prio: m.priority, created: m.created_at, attempts: m.attempts, lease: None, rank: self.rank });
    }
    /// the delivered message must be an allowed choice
    fn deliver(&mut self, m: &Message, vt: u64, t0: u64, t1: u64) -> Result<(), String> {
        let w = self.waiting();
        let top = w.iter().map(|x| x.prio).max().ok_or(format!("delivered {} though nothing is waiting", m.id))?;
        let first = w.iter().filter(|x| x.prio == top).map(|x| x.rank).min().unwrap();
        let x = self.live.get(&m.id).ok_or(format!("delivered an unknown message {}", m.id))?;
        ensure!(x.lease.is_none(), "message {} delivered again while leased", m.id);
        ensure!(x.prio == top && x.rank == first, "delivered priority {} arrival {} while priority {top} arrival {first} is waiting", x.prio, x.rank);
        self.same(m, x.attempts + 1)?;
        let lo = t0.saturating_add(vt); let hi = t1.saturating_add(vt);
        ensure!(m.visible_at >= lo && m.visible_at <= hi, "lease deadline {} outside [{lo}, {hi}]", m.visible_at);
        ensure!(m.state == MessageState::InFlight(m.visible_at), "delivered message is in state {:?} with deadline {}", m.state, m.visible_at);
        let x = self.live.get_mut(&m.id).unwrap();
        x.attempts += 1; x.lease = Some(m.visible_at);
        Ok(())
    }
    fn same(&self, m: &Message, attempts: u32) -> Result<(), String> {
        let x = self.live.get(&m.id).ok_or(format!("unknown message {}", m.id))?;
        ensure!(m.payload[..] == x.payload[..], "payload of {} altered", m.id);
        ensure!(m.priority == x.prio && m.created_at == x.created, "priority or creation time of {} altered", m.id);
        ensure!(m.attempts == attempts, "attempts of {} is {}, delivered {attempts} times", m.id, m.attempts);
        Ok(())
    }
    fn dead(x: &M, d: &DlqMessage, reason: &str, t0: u64, t1: u64) -> Result<(), String> {
        ensure!(d.id == x.id && d.payload[..] == x.payload[..] && d.priority == x.prio && d.created_at == x.created, "dead-lettered message {} altered", d.id);
        ensure!(d.attempts == x.attempts, "dead-lettered with {} attempts after {} deliveries", d.attempts, x.attempts);
        ensure!(d.failure_reason == reason, "failure reason is {:?}, given {reason:?}", d.failure_reason);
        ensure!(d.failed_at >= t0 && d.failed_at <= t1, "failure time {} outside [{t0}, {t1}]", d.failed_at);
        Ok(())
    }
    fn returned(&mut self, id: Uuid, rank: u64) { let x = self.live.get_mut(&id).unwrap(); x.lease = None; x.rank = rank; }
    fn check(&self, s: &QueueState) -> Result<(), String> {
        let (p, f) = s.get_counters();
        let w: BTreeSet<Uuid> = self.live.values().filter(|m| m.lease.is_none()).map(|m| m.id).collect();
        let l: BTreeSet<Uuid> = self.live.values().filter(|m| m.lease.is_some()).map(|m| m.id).collect();
        ensure!(p == w.len() && f == l.len(), "counters say {p} waiting, {f} in flight; really {} and {}", w.len(), l.len());
        ensure!(s.len() == self.live.len(), "the queue holds {} messages, expected {}", s.len(), self.live.len());
        ensure!(s.has_ready_messages() == !w.is_empty(), "has_ready_messages wrong");
        let min = self.live.values().filter_map(|m| m.lease).min();
        ensure!(s.next_inflight_timeout() == min, "next lease deadline is {:?}, expected {min:?}", s.next_inflight_timeout());
        for (tag, want) in [("pending", &w), ("inflight", &l)] {
            let (total, ms) = s.get_messages(tag.into(), 0, usize::MAX, None);
            ensure!(total == want.len() && ms.len() == want.len(), "{tag} listing shows {} of {}", ms.len(), want.len());
            ensure!(&ms.iter().map(|m| m.id).collect::<BTreeSet<_>>() == want, "{tag} listing shows other messages");
            for m in &ms {
                let x = &self.live[&m.id];
                ensure!(m.payload[..] == x.payload[..] && m.priority == x.prio && m.attempts == x.attempts, "listed message {} differs: attempts {} priority {}, expected {} {}", m.id, m.attempts, m.priority, x.attempts, x.prio);
            }
        }
        Ok(())
    }
}

fn drain(s: &mut QueueState, m: &mut Model) -> Result<(), String> {
    loop {
        let t0 = current_time_ms();
        let (got, _) = s.pop(1_000_000);
        let t1 = current_time_ms();
        match got {
            Some(x) => m.deliver(&x, 1_000_000, t0, t1)?,
            None => break,
        }
    }
    ensure!(m.waiting().is_empty(), "{} waiting messages are never delivered", m.waiting().len());
    m.check(s)
}

/// random histories against the in-memory queue
fn state_histories(run: &mut Run, key: &str, n: usize) {
    let mut r = run.rng(key);
    for case in 0..n {
        if run.done() { break; }
        let steps = r.range(4, 40);
        let mut prios = vec![0u8, 0, 1, 5, 255];
        if r.chance(1, 3) { prios = vec![r.next() as u8, r.next() as u8]; }
        // 0 push k, 1 batch, 2 ack, 3 nack, 4 expire, 5 pop, 6 undo delivery, 7 remove
        let script: Vec<(u8, u64, u64)> = (0..steps).map(|_| (*r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 3, 4, 5, 5, 6, 7]), r.next(), r.next())).collect();
        let max_retries = *r.pick(&[0u32, 1, 2, 3, 100]);
        let desc = json!({"case": case, "max_retries": max_retries, "priorities": prios, "script": script});
        run.case(key, desc, steps > 6, || {
            let mut s = QueueState::new();
            let mut m = Model::default();
            let mut known: Vec<Uuid> = vec![];
            for (op, a, b) in &script {
                let pickid = |k: &Vec<Uuid>| if k.is_empty() || a % 9 == 0 { Uuid::new_v4() } else { k[(*b % k.len() as u64) as usize] };
                let t0 = current_time_ms();
                match op {
                    0 => for i in 0..(1 + a % 3) {
                        let msg = Message::new(Bytes::from(vec![(b % 251) as u8; ((a >> 8) % 5 * i) as usize]), prios[(b % prios.len() as u64) as usize]);
                        ensure!(msg.attempts == 0 && msg.state == MessageState::Ready && msg.visible_at == 0 && !known.contains(&msg.id), "a new message is not fresh");
                        known.push(msg.id);
                        m.push(&msg);
                        s.push(msg);
                    },
                    1 | 5 => {
                        let vt = [0u64, 0, 50_000_000, 40_000_000, u64::MAX - 7, u64::MAX][(a % 6) as usize];
                        let max = [0usize, 1, 2, 3, 7, 1000, usize::MAX][(b % 7) as usize];
                        let got = if *op == 5 { s.pop(vt).0.into_iter().collect() } else { s.take_batch(max, vt).0 };
                        let max = if *op == 5 { 1 } else { max };
                        let t1 = current_time_ms();
                        ensure!(got.len() <= max, "asked for {max}, got {}", got.len());
                        for x in &got { m.deliver(x, vt, t0, t1)?; }
                        ensure!(got.len() == max || m.waiting().is_empty(), "got {} of {max} though {} are waiting", got.len(), m.waiting().len());
                    }
                    2 => { let id = pickid(&known); let was = m.live.remove(&id).is_some(); ensure!(s.ack(id) == was, "acknowledging {} message answered {}", if was { "a live" } else { "an unknown" }, !was); }
                    7 => { let id = pickid(&known); let was = m.live.remove(&id); let got = s.remove_by_id(id); ensure!(got.as_ref().map(|x| x.id) == was.as_ref().map(|x| x.id), "removal by id answered {:?}", got.map(|x| x.id)); }
                    3 => {
                        let id = pickid(&known);
                        let reason = format!("r{}", a % 100);
                        let (back, dead) = s.nack(id, reason.clone(), max_retries);
                        let t1 = current_time_ms();
                        match m.live.get(&id).cloned() {
                            None => ensure!(back.is_none() && dead.is_none(), "rejecting an unknown message had an effect"),
                            Some(x) if x.attempts >= max_retries => {
                                ensure!(back.is_none(), "returned to waiting after {} attempts of {max_retries}", x.attempts);
                                Model::dead(&x, &dead.ok_or("neither returned nor dead-lettered")?, &reason, t0, t1)?;
                                m.live.remove(&id);
                            }
                            Some(x) => {
                                ensure!(dead.is_none(), "dead-lettered after {} attempts of {max_retries}", x.attempts);
                                let g = back.ok_or("rejected message was dropped")?;
                                m.same(&g, x.attempts)?;
                                ensure!(g.state == MessageState::Ready && g.visible_at == 0, "returned message still leased: {:?} {}", g.state, g.visible_at);
                                ensure!(g.failure_reason.as_deref() == Some(&reason[..]), "failure reason not recorded");
                                if x.lease.is_some() { m.rank += 1; let k = m.rank; m.returned(id, k); }
                            }
                        }
                    }
                    4 => {
                        let (back, dead) = s.process_expired(max_retries);
                        let t1 = current_time_ms();
                        m.rank += 1; let k = m.rank;
                        let mut seen = BTreeSet::new();
                        for g in &back {
                            ensure!(seen.insert(g.id), "returned twice");
                            let x = m.live.get(&g.id).cloned().ok_or("returned an unknown message")?;
                            ensure!(x.lease.map_or(false, |l| l <= t1), "returned before its lease ended");
                            ensure!(x.attempts < max_retries, "returned after {} attempts of {max_retries}", x.attempts);
                            m.same(g, x.attempts)?;
                            ensure!(g.state == MessageState::Ready && g.visible_at == 0, "returned message still leased");
                            m.returned(g.id, k);
                        }
                        for d in &dead {
                            ensure!(seen.insert(d.id), "handled twice");
                            let x = m.live.remove(&d.id).ok_or("dead-lettered an unknown message")?;
                            ensure!(x.lease.map_or(false, |l| l <= t1), "dead-lettered before its lease ended");
                            ensure!(x.attempts >= max_retries, "dead-lettered after {} attempts of {max_retries}", x.attempts);
                            let reason = d.failure_reason.clone();
                            ensure!(!reason.is_empty(), "no failure reason recorded");
                            Model::dead(&x, d, &reason, t0, t1)?;
                        }
                        for x in m.live.values() { ensure!(x.lease.map_or(true, |l| l > t0 || seen.contains(&x.id)), "message {} still in flight after its lease ended", x.id); }
                    }
                    _ => {
                        let id = pickid(&known);
                        let was = m.live.get(&id).map_or(false, |x| x.lease.is_some());
                        ensure!(s.requeue_inflight(id) == was, "undoing a delivery answered {}", !was);
                        if was { m.rank += 1; let k = m.rank; m.returned(id, k); m.live.get_mut(&id).unwrap().attempts -= 1; }
                    }
                }
                m.check(&s)?;
            }
            drain(&mut s, &mut m)
        });
    }
}

fn dlq_state(run: &mut Run, n: usize) {
    let mut r = run.rng("dlq");
    for case in 0..n {
        if run.done() { break; }
        let script: Vec<(u8, u64)> = (0..r.range(3, 25)).map(|_| (*r.pick(&[0u8, 0, 0, 1, 2, 2, 2, 3]), r.next())).collect();
        run.case("dead-letter-list", json!({"case": case, "script": script}), true, || {
            let mut d = DlqState::new();
            let mut want: Vec<DlqMessage> = vec![];
            for (op, a) in &script {
                match op {
                    0 => {
                        let mut m = Message::new(Bytes::from(format!("p{a}")), *a as u8); m.attempts = (a >> 9) as u32 % 7;
                        let x = DlqMessage::from_message(m.clone(), format!("why{}", a % 10));
                        ensure!(x.id == m.id && x.payload == m.payload && x.priority == m.priority && x.attempts == m.attempts && x.created_at == m.created_at && x.failure_reason == format!("why{}", a % 10), "dead-lettering alters the message");
                        let y = x.clone().to_message();
                        ensure!(y.id == m.id && y.payload == m.payload && y.priority == m.priority && y.attempts == 0 && y.created_at == m.created_at && y.failure_reason.is_none() && y.state == MessageState::Ready && y.visible_at == 0, "replaying alters the message");
                        let z = Message::from_dlq(x.clone());
                        ensure!(z.id == m.id && z.payload == m.payload && z.priority == m.priority && z.attempts == 0 && z.created_at == m.created_at && z.state == MessageState::Ready, "from_dlq alters the message");
                        want.push(x.clone()); d.push(x);
                    }
                    1 => {
                        let id = if want.is_empty() || a % 5 == 0 { Uuid::new_v4() } else { want[(a % want.len() as u64) as usize].id };
                        let k = want.iter().position(|x| x.id == id);
                        let g = d.remove(&id);
                        ensure!(g.as_ref().map(|x| x.id) == k.map(|k| want[k].id), "removal by id returned {:?}", g.map(|x| x.id));
                        if let Some(k) = k { want.remove(k); }
                    }
                    2 => {
                        let off = [0, 1, 2, want.len(), want.len() + 1, usize::MAX, (a % 7) as usize][(a >> 8) as usize % 7];
                        let lim = [0, 1, 3, want.len(), usize::MAX, (a % 5) as usize][(a >> 16) as usize % 6];
                        let (t, ms) = d.peek(off, lim);
                        ensure!(t == want.len() && d.len() == want.len(), "total {t}, really {}", want.len());
                        let w: Vec<Uuid> = want.iter().rev().skip(off).take(lim).map(|x| x.id).collect();
                        ensure!(ms.iter().map(|x| x.id).collect::<Vec<_>>() == w, "page offset {off} limit {lim} is not the requested slice, newest failure first");
                        for x in &ms { let y = want.iter().find(|y| y.id == x.id).unwrap(); ensure!(x.payload == y.payload && x.attempts == y.attempts && x.failure_reason == y.failure_reason && x.priority == y.priority && x.created_at == y.created_at && x.failed_at == y.failed_at, "listed entry altered"); }
                    }
                    _ => if a % 4 == 0 { d.clear(); want.clear(); },
                }
            }
            let all: BTreeSet<Uuid> = d.peek_all().iter().map(|x| x.id).collect();
            ensure!(all == want.iter().map(|x| x.id).collect(), "entries lost or duplicated");
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- manager level
fn cfg(dir: &std::path::Path, vt: u64, retries: u32) -> SystemQueueConfig {
    SystemQueueConfig { visibility_timeout_ms: vt, max_retries: retries, default_batch_size: 10, default_wait_ms: 0, persistence_path: dir.to_str().unwrap().to_string(), default_flush_ms: 4, writer_batch_size: 64 }
}
fn opts(vt: u64, retries: u32) -> QueueCreateOptions { QueueCreateOptions { visibility_timeout_ms: Some(vt), max_retries: Some(retries) } }
fn mgr(rt: &tokio::runtime::Runtime, c: SystemQueueConfig) -> QueueManager { let _g = rt.enter(); QueueManager::new(Arc::new(c)) }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Row { id: Uuid, payload: Vec<u8>, prio: u8, attempts: u32, created: u64, lease: u64 }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct DRow { id: Uuid, payload: Vec<u8>, prio: u8, attempts: u32, created: u64, failed: u64, why: String }
type Disk = (BTreeMap<Uuid, Row>, BTreeMap<Uuid, DRow>);

fn read_disk(dir: &std::path::Path, q: &str) -> Result<Disk, String> {
    let c = rusqlite::Connection::open(dir.join(format!("{q}.db"))).map_err(|e| e.to_string())?;
    let e = |e: rusqlite::Error| e.to_string();
    let mut a = BTreeMap::new();
    let mut st = c.prepare("SELECT id, payload, priority, visible_at, attempts, created_at FROM queue").map_err(e)?;
    let mut rows = st.query([]).map_err(e)?;
    while let Some(r) = rows.next().map_err(e)? {
        let id = Uuid::from_slice(&r.get::<_, Vec<u8>>(0).map_err(e)?).map_err(|x| x.to_string())?;
        a.insert(id, Row { id, payload: r.get(1).map_err(e)?, prio: r.get(2).map_err(e)?, lease: r.get::<_, i64>(3).map_err(e)? as u64, attempts: r.get(4).map_err(e)?, created: r.get::<_, i64>(5).map_err(e)? as u64 });
    }
    let mut b = BTreeMap::new();
    let mut st = c.prepare("SELECT id, payload, priority, attempts, created_at, failed_at, error FROM dlq_messages").map_err(e)?;
    let mut rows = st.query([]).map_err(e)?;
    while let Some(r) = rows.next().map_err(e)? {
        let id = Uuid::from_slice(&r.get::<_, Vec<u8>>(0).map_err(e)?).map_err(|x| x.to_string())?;
        b.insert(id, DRow { id, payload: r.get(1).map_err(e)?, prio: r.get(2).map_err(e)?, attempts: r.get(3).map_err(e)?, created: r.get::<_, i64>(4).map_err(e)? as u64, failed: r.get::<_, i64>(5).map_err(e)? as u64, why: r.get::<_, Option<String>>(6).map_err(e)?.unwrap_or_default() });
    }
    Ok((a, b))
}
fn drow(d: &DlqMessage) -> DRow { DRow { id: d.id, payload: d.payload.to_vec(), prio: d.priority, attempts: d.attempts, created: d.created_at, failed: d.failed_at, why: d.failure_reason.clone() } }

/// client-side view of one queue kept through the manager API only
#[derive(Default, Clone)]
struct View { live: BTreeMap<Uuid, Row>, dlq: Vec<DRow>, unknown: Vec<(Vec<u8>, u8)> }

async fn listing(m: &QueueManager, q: &str) -> Result<(BTreeMap<Uuid, (Vec<u8>, u8, u32, bool)>, Vec<DRow>), String> {
    let mut out = BTreeMap::new();
    for (tag, fl) in [("pending", false), ("inflight", true)] {
        let (t, ms) = m.get_messages(q.into(), tag.into(), 0, 1_000_000, None).await.ok_or("queue not found")?;
        ensure!(t == ms.len(), "{tag}: total {t}, listed {}", ms.len());
        for x in ms { ensure!(out.insert(x.id, (x.payload.to_vec(), x.priority, x.attempts, fl)).is_none(), "message listed twice"); }
    }
    let (t, ds) = m.peek_dlq(q, 1_000_000, 0).await?;
    ensure!(t == ds.len(), "dead-letter total {t}, listed {}", ds.len());
    Ok((out, ds.iter().map(drow).collect()))
}

/// wait until the stored tables equal what the server lists
fn settled(rt: &tokio::runtime::Runtime, m: &QueueManager, dir: &std::path::Path, q: &str) -> Result<(), String> {
    let end = Instant::now() + Duration::from_secs(4);
    loop {
        let (mem, dl) = wait(rt, "listing", listing(m, q))??;
        let disk = read_disk(dir, q);
        let why = match disk {
            Err(e) => format!("cannot read the stored tables: {e}"),
            Ok((a, b)) => {
                let mut w = String::new();
                for (id, x) in &mem {
                    match a.get(id) {
                        None => w = format!("message {id} is missing on disk"),
                        Some(d) => if d.payload != x.0 || d.prio != x.1 || d.attempts != x.2 || (d.lease > 0) != x.3 { w = format!("stored row of {id} differs: prio {} attempts {} lease {}, in memory prio {} attempts {} in-flight {}", d.prio, d.attempts, d.lease, x.1, x.2, x.3) },
                    }
                }
                for id in a.keys() { if !mem.contains_key(id) { w = format!("message {id} is on disk though it is gone"); } }
                let bl: BTreeMap<Uuid, DRow> = dl.iter().map(|d| (d.id, d.clone())).collect();
                if bl != b { w = format!("stored dead-letter table ({} rows) differs from the dead-letter queue ({})", b.len(), bl.len()); }
                w
            }
        };
        if why.is_empty() { return Ok(()); }
        if Instant::now() > end { return Err(format!("after the flush the stored tables differ from the queue: {why}")); }
        std::thread::sleep(Duration::from_millis(8));
    }
}

/// random operations of one client through the manager, checked step by step; `restarts` = flush, stop, start
fn manager_history(run: &mut Run, key: &str, n: usize, restarts: bool, dlqfocus: bool) {
    let mut r = run.rng(key);
    for case in 0..n {
        if run.done() { break; }
        let retries = *r.pick(&[0u32, 1, 1, 2, 5]);
        let steps = r.range(8, 40);
        // 0 push 1 consume 2 ack 3 nack 4 move 5 delete 6 purge 7 peek 8 restart 9 counters
        let ops: &[u8] = if dlqfocus { &[0, 0, 1, 3, 3, 3, 4, 4, 5, 6, 7, 7, 2] } else { &[0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 9] };
        let mut script: Vec<(u8, u64, u64)> = (0..steps).map(|_| (*r.pick(ops), r.next(), r.next())).collect();
        if restarts { for k in 0..r.range(1, 2) { let p = script.len() * (k + 1) / 3 + 1; script.insert(p.min(script.len()), (8, 0, 0)); } script.push((8, 0, 0)); }
        let qname = r.pick(&["q", "q.db", "a b", "x.config", "é", "jobs.db.db"]).to_string();
        let desc = json!({"case": case, "queue": qname, "max_retries": retries, "script": script});
        run.case(key, desc, true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let c = cfg(tmp.path(), 9_000_000, 77);
            let mut rt = rt();
            let mut m = mgr(&rt, c.clone());
            wait(&rt, "create", m.create_queue(qname.clone(), opts(3_600_000, retries)))??;
            let mut live: BTreeMap<Uuid, Row> = BTreeMap::new(); // delivered at least once, id known
            let mut anon: Vec<(Vec<u8>, u8)> = vec![]; // pushed, not yet seen
            let mut waiting: Vec<(Option<Uuid>, Vec<u8>, u8, u64)> = vec![]; // id if known, payload, prio, rank
            let mut fuzzy = false; // arrival order unknown after a restart
            let mut dlq: Vec<DRow> = vec![];
            let mut rank = 0u64;
            let mut n = 0u32;
            for (op, a, b) in &script {
                let t0 = current_time_ms();
                match op {
                    0 => {
                        n += 1;
                        let mut p = format!("{n}:").into_bytes(); p.extend(vec![(*b % 256) as u8; (a % 9) as usize]);
                        let pr = [0u8, 1, 1, 9, 255, 254, 128][(b >> 8) as usize % 7];
                        wait(&rt, "push", m.push(qname.clone(), Bytes::from(p.clone()), pr))??;
                        rank += 1; waiting.push((None, p.clone(), pr, rank)); anon.push((p, pr));
                    }
                    1 => {
                        let max = [1usize, 1, 2, 5, 100][(a % 5) as usize];
                        let got = wait(&rt, "consume", m.consume_batch(qname.clone(), Some(max), Some(0)))??;
                        let t1 = current_time_ms();
                        ensure!(got.len() == max.min(waiting.len()), "asked for {max} of {} waiting, got {}", waiting.len(), got.len());
                        for g in &got {
                            let top = waiting.iter().map(|x| x.2).max().ok_or("delivered though nothing waits")?;
                            let k = waiting.iter().position(|x| x.1[..] == g.payload[..] && x.0.map_or(true, |i| i == g.id)).ok_or("delivered a message that is not waiting")?;
                            let first = waiting.iter().filter(|x| x.2 == top).map(|x| x.3).min().unwrap();
                            ensure!(waiting[k].2 == top && (fuzzy || waiting[k].3 == first), "delivered out of order");
                            let w = waiting.remove(k);
                            ensure!(g.priority == w.2, "priority altered");
                            let old = live.get(&g.id).cloned();
                            ensure!(old.is_some() == w.0.is_some(), "id reused or changed");
                            let att = old.as_ref().map_or(0, |o| o.attempts) + 1;
                            ensure!(g.attempts == att, "attempts {} after {att} deliveries", g.attempts);
                            if let Some(o) = &old { ensure!(o.created == g.created_at, "creation time altered"); }
                            ensure!(g.visible_at >= t0 + 3_600_000 && g.visible_at <= t1 + 3_600_000, "lease deadline {} is not delivery time + timeout", g.visible_at);
                            if old.is_none() { let i = anon.iter().position(|x| x.0[..] == g.payload[..]).ok_or("unknown message")?; anon.remove(i); }
                            live.insert(g.id, Row { id: g.id, payload: g.payload.to_vec(), prio: g.priority, attempts: att, created: g.created_at, lease: g.visible_at });
                        }
                    }
                    2 | 3 => {
                        let leased: Vec<Uuid> = live.values().filter(|x| x.lease > 0).map(|x| x.id).collect();
                        let gone = *a % 8 == 0 || leased.is_empty();
                        let id = if gone { Uuid::new_v4() } else { leased[(b % leased.len() as u64) as usize] };
                        if *op == 2 {
                            let ok = wait(&rt, "ack", m.ack(&qname, id))?;
                            ensure!(ok == !gone, "ack of {} answered {ok}", if gone { "an unknown message" } else { "a leased message" });
                            live.remove(&id);
                        } else {
                            let why = format!("boom {}", a % 50);
                            let ok = wait(&rt, "nack", m.nack(&qname, id, why.clone()))?;
                            let t1 = current_time_ms();
                            ensure!(ok == !gone, "nack of {} answered {ok}", if gone { "an unknown message" } else { "a leased message" });
                            if !gone {
                                let x = live[&id].clone();
                                if x.attempts >= retries {
                                    live.remove(&id);
                                    let (_, d) = wait(&rt, "peek", m.peek_dlq(&qname, 1, 0))??;
                                    let d = d.first().ok_or("rejected message past its retries is not in the dead-letter queue")?;
                                    ensure!(d.failed_at >= t0 && d.failed_at <= t1, "failure time wrong");
                                    let want = DRow { id, payload: x.payload, prio: x.prio, attempts: x.attempts, created: x.created, failed: d.failed_at, why };
                                    ensure!(drow(d) == want, "newest dead letter is {:?}, expected {want:?}", drow(d));
                                    dlq.push(want);
                                } else {
                                    rank += 1; waiting.push((Some(id), x.payload.clone(), x.prio, rank));
                                    live.get_mut(&id).unwrap().lease = 0;
                                }
                            }
                        }
                    }
                    4 | 5 => {
                        let gone = *a % 6 == 0 || dlq.is_empty();
                        let k = if gone { 0 } else { (b % dlq.len() as u64) as usize };
                        let id = if gone { live.keys().next().copied().unwrap_or(Uuid::new_v4()) } else { dlq[k].id };
                        let ok = if *op == 4 { wait(&rt, "move", m.move_to_queue(&qname, id))?? } else { wait(&rt, "delete", m.delete_dlq(&qname, id))?? };
                        ensure!(ok == !gone, "dead-letter {} of {} id answered {ok}", if *op == 4 { "replay" } else { "delete" }, if gone { "an unknown" } else { "a known" });
                        if !gone {
                            let d = dlq.remove(k);
                            if *op == 4 {
                                rank += 1; waiting.push((Some(id), d.payload.clone(), d.prio, rank));
                                live.insert(id, Row { id, payload: d.payload, prio: d.prio, attempts: 0, created: d.created, lease: 0 });
                            }
                        }
                    }
                    6 => if a % 3 == 0 { let c = wait(&rt, "purge", m.purge_dlq(&qname))??; ensure!(c == dlq.len(), "purge reports {c} of {}", dlq.len()); dlq.clear(); },
                    7 => {
                        let off = [0usize, 1, 2, dlq.len(), 1000][(a % 5) as usize]; let lim = [0usize, 1, 2, 100][(b % 4) as usize];
                        let (t, ds) = wait(&rt, "peek", m.peek_dlq(&qname, lim, off))??;
                        ensure!(t == dlq.len(), "dead-letter total {t}, really {}", dlq.len());
                        let w: Vec<DRow> = dlq.iter().rev().skip(off).take(lim).cloned().collect();
                        ensure!(ds.iter().map(drow).collect::<Vec<_>>() == w, "page offset {off} limit {lim} differs");
                    }
                    8 => {
                        settled(&rt, &m, tmp.path(), &qname)?;
                        drop(m); rt.shutdown_timeout(Duration::from_secs(5));
                        rt = nexo_search::rt();
                        m = mgr(&rt, c.clone());
                        ensure!(wait(&rt, "exists", m.exists(&qname))?, "after a restart the queue {qname:?} is unknown");
                        fuzzy = true;
                    }
                    _ => {}
                }
                // what the server lists is exactly what must be there
                let (mem, dl) = wait(&rt, "listing", listing(&m, &qname))??;
                ensure!(mem.len() == live.len() + anon.len(), "the queue holds {} messages, {} are neither acknowledged nor dead-lettered", mem.len(), live.len() + anon.len());
                for x in live.values() {
                    let g = mem.get(&x.id).ok_or(format!("message {} lost", x.id))?;
                    ensure!(g.0 == x.payload && g.1 == x.prio && g.2 == x.attempts && g.3 == (x.lease > 0), "message {} listed with priority {} attempts {} in-flight {}, expected {} {} {}", x.id, g.1, g.2, g.3, x.prio, x.attempts, x.lease > 0);
                }
                let mut rest: Vec<(Vec<u8>, u8)> = mem.iter().filter(|(i, _)| !live.contains_key(i)).map(|(_, g)| (g.0.clone(), g.1)).collect(); rest.sort();
                let mut w = anon.clone(); w.sort();
                ensure!(rest == w, "waiting messages differ from those pushed");
                if *op == 8 { let a: BTreeSet<DRow> = dl.iter().cloned().collect(); ensure!(a == dlq.iter().cloned().collect(), "dead-letter queue differs after a restart"); dlq = dl.into_iter().rev().collect(); }
                else { ensure!(dl == dlq.iter().rev().cloned().collect::<Vec<_>>(), "dead-letter listing differs"); }
                let snap = wait(&rt, "snapshot", m.get_snapshot())?;
                let s = snap.iter().find(|s| s.name == qname).ok_or("queue missing in the listing")?;
                ensure!(s.pending == waiting.len() && s.inflight + s.pending == mem.len() && s.dlq == dlq.len(), "counters {} / {} / {} are not the real numbers", s.pending, s.inflight, s.dlq);
            }
            drop(m);
            rt.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        });
    }
}

/// real-time leases: never early, never lost, dead-lettered after the retries
fn leases(run: &mut Run, n: usize) {
    let mut r = run.rng("leases");
    for case in 0..n {
        if run.done() { break; }
        let vts: Vec<u64> = (0..6).map(|_| *r.pick(&[60u64, 120, 180, 250])).collect();
        let retries = *r.pick(&[1u32, 2]);
        run.case("lease-expiry", json!({"case": case, "timeouts_ms": vts, "max_retries": retries}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let rt = rt();
            let m = mgr(&rt, cfg(tmp.path(), 30_000, 5));
            let res: Vec<Result<(), String>> = wait(&rt, "leases", async {
                let mut hs = vec![];
                for (i, vt) in vts.iter().cloned().enumerate() {
                    let m = m.clone();
                    hs.push(tokio::spawn(async move {
                        let q = format!("q{i}");
                        m.create_queue(q.clone(), opts(vt, retries)).await?;
                        m.push(q.clone(), Bytes::from("x"), 3).await?;
                        let mut id = None;
                        for d in 1..=retries {
                            // the delivery time is no earlier than this call for the first delivery
                            let g = m.consume_batch(q.clone(), Some(5), Some(5000)).await?;
                            let t1 = current_time_ms();
                            ensure!(g.len() == 1, "delivery {d}: the message was not delivered within 5 s");
                            ensure!(g[0].attempts == d, "delivery {d} carries attempts {}", g[0].attempts);
                            if let Some(i) = id { ensure!(i == g[0].id, "id changed"); }
                            id = Some(g[0].id);
                            let deadline = g[0].visible_at;
                            ensure!(deadline <= t1 + vt && deadline + 5 * 60_000 > t1, "lease deadline {deadline} does not lie one timeout after delivery");
                            // nobody gets it before the deadline
                            while current_time_ms() + 3 < deadline {
                                let e = m.consume_batch(q.clone(), Some(5), None).await?;
                                ensure!(e.is_empty() || current_time_ms() >= deadline, "delivered again {} ms before the lease ended", deadline - current_time_ms());
                                if !e.is_empty() { break; }
                                let (_, dl) = m.peek_dlq(&q, 5, 0).await?;
                                ensure!(dl.is_empty() || current_time_ms() >= deadline, "dead-lettered before the lease ended");
                                tokio::time::sleep(Duration::from_millis(4)).await;
                            }
                        }
                        // after the last allowed delivery it is dead-lettered, once
                        let end = Instant::now() + Duration::from_secs(5);
                        loop {
                            let (t, dl) = m.peek_dlq(&q, 5, 0).await?;
                            if t > 0 {
                                ensure!(t == 1 && dl[0].id == id.unwrap() && dl[0].attempts == retries && &dl[0].payload[..] == b"x" && dl[0].priority == 3, "wrong dead letter");
                                break;
                            }
                            ensure!(Instant::now() < end, "neither returned nor dead-lettered 5 s after the lease ended");
                            tokio::time::sleep(Duration::from_millis(5)).await;
                        }
                        let e = m.consume_batch(q.clone(), Some(5), None).await?;
                        ensure!(e.is_empty(), "delivered after it was dead-lettered");
                        ensure!(!m.ack(&q, id.unwrap()).await, "a dead-lettered message was acknowledged");
                        Ok(())
                    }));
                }
                let mut o = vec![];
                for h in hs { o.push(h.await.map_err(|e| e.to_string()).and_then(|x| x)); }
                o
            })?;
            for x in res { x?; }
            rt.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        });
    }
}

/// a consume waiting for messages gets the next one pushed, nacked or replayed; huge parameters are accepted
fn waits(run: &mut Run) {
    for how in ["push", "nack", "replay"] {
        run.case("waiting-consumer", json!({"woken_by": how}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let rt = rt();
            let m = mgr(&rt, cfg(tmp.path(), 3_600_000, 5));
            wait(&rt, how, async {
                m.create_queue("q".into(), opts(3_600_000, if how == "replay" { 0 } else { 5 })).await?;
                let mut id = None;
                if how != "push" {
                    m.push("q".into(), Bytes::from("m"), 0).await?;
                    let g = m.pop("q").await.ok_or("not delivered")?;
                    id = Some(g.id);
                    if how == "replay" { ensure!(m.nack("q", g.id, "x".into()).await, "nack failed"); }
                }
                let m2 = m.clone();
                let h = tokio::spawn(async move { m2.consume_batch("q".into(), Some(3), Some(10_000)).await });
                tokio::time::sleep(Duration::from_millis(60)).await;
                ensure!(!h.is_finished(), "an empty queue answered a waiting consume at once");
                match how { "push" => m.push("q".into(), Bytes::from("m"), 0).await?, "nack" => ensure!(m.nack("q", id.unwrap(), "x".into()).await, "nack failed"), _ => ensure!(m.move_to_queue("q", id.unwrap()).await?, "replay failed") };
                let t = Instant::now();
                let g = h.await.map_err(|e| e.to_string())??;
                ensure!(g.len() == 1 && &g[0].payload[..] == b"m" && t.elapsed() < Duration::from_secs(8), "the waiting consume was not served");
                Ok(())
            })??;
            rt.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        });
    }
    for (max, w, vt) in [(usize::MAX, 0u64, 1000u64), (usize::MAX, u64::MAX, 1000), (3, u64::MAX, u64::MAX), (1 << 60, 1, u64::MAX - 5)] {
        run.case("huge-parameters", json!({"batch": max, "wait_ms": w, "visibility_ms": vt}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let rt = rt();
            let m = mgr(&rt, cfg(tmp.path(), 3_600_000, 5));
            wait(&rt, "consume", async {
                m.create_queue("q".into(), opts(vt, 5)).await?;
                if w < 100 { m.push("q".into(), Bytes::from("m"), 0).await?; }
                let m2 = m.clone();
                let h = tokio::spawn(async move { m2.consume_batch("q".into(), Some(max), Some(w)).await });
                if w >= 100 { tokio::time::sleep(Duration::from_millis(50)).await; m.push("q".into(), Bytes::from("m"), 0).await?; }
                let g = h.await.map_err(|e| format!("the consume crashed: {e}"))??;
                ensure!(g.len() == 1, "got {} messages of 1", g.len());
                tokio::time::sleep(Duration::from_millis(120)).await;
                if vt > 100_000 { ensure!(m.pop("q").await.is_none(), "a message with a practically endless lease was delivered again"); }
                ensure!(m.ack("q", g[0].id).await, "ack failed");
                Ok::<(), String>(())
            })??;
            rt.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        });
    }
}

/// many clients at once: each message to one client, nothing lost, and the stored tables follow
fn concurrent(run: &mut Run, key: &str, n: usize, restart: bool) {
    let mut r = run.rng(key);
    for case in 0..n {
        if run.done() { break; }
        let producers = r.range(1, 4); let consumers = r.range(2, 5); let per = if restart { 400 } else { 250 };
        let nackmod = r.range(3, 9) as u64;
        let retries = *r.pick(&[0u32, 1, 3]);
        run.case(key, json!({"case": case, "producers": producers, "consumers": consumers, "per_producer": per, "nack_every": nackmod, "max_retries": retries}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let mut rt = rt();
            let c = cfg(tmp.path(), 3_600_000, 5);
            let mut m = mgr(&rt, c.clone());
            let total = producers * per;
            let out: Result<(HashMap<Uuid, u32>, HashSet<Uuid>, HashSet<Uuid>), String> = wait(&rt, "clients", async {
                m.create_queue("q".into(), opts(3_600_000, retries)).await?;
                let mut hs = vec![];
                for p in 0..producers {
                    let m = m.clone();
                    hs.push(tokio::spawn(async move { for i in 0..per { m.push("q".into(), Bytes::from(format!("{p}-{i}")), (i % 3) as u8).await.unwrap(); if i % 37 == 0 { tokio::task::yield_now().await; } } }));
                }
                let left = Arc::new(std::sync::atomic::AtomicI64::new(total as i64 - 20));
                let mut cs = vec![];
                for k in 0..consumers {
                    let m = m.clone(); let left = left.clone();
                    cs.push(tokio::spawn(async move {
                        let mut seen: Vec<(Uuid, u32)> = vec![]; let mut acked = vec![]; let mut kept = vec![];
                        let mut idle = 0;
                        while left.load(std::sync::atomic::Ordering::SeqCst) > 0 && idle < 300 {
                            let g = m.consume_batch("q".into(), Some(1 + k % 3), Some(if k == 0 { 20 } else { 0 })).await.unwrap();
                            if g.is_empty() { idle += 1; tokio::task::yield_now().await; if idle % 10 == 0 { tokio::time::sleep(Duration::from_millis(1)).await; } } else { idle = 0; }
                            for x in g {
                                seen.push((x.id, x.attempts));
                                let h = x.id.as_u128() as u64;
                                if h % 50 == 1 { kept.push(x.id); left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); }
                                else if h % nackmod == 0 && x.attempts <= 2 { if !m.nack("q", x.id, "no".into()).await { return Err(format!("nack of a leased message {} failed", x.id)); } if x.attempts >= retries { left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); } }
                                else { if !m.ack("q", x.id).await { return Err(format!("ack of a leased message {} failed", x.id)); } acked.push(x.id); left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); }
                            }
                        }
                        Ok((seen, acked, kept))
                    }));
                }
                for h in hs { h.await.map_err(|e| e.to_string())?; }
                let mut att: HashMap<Uuid, u32> = HashMap::new(); let mut acked = HashSet::new(); let mut kept = HashSet::new();
                let mut deliveries = HashSet::new();
                for c in cs {
                    let (s, a, k) = c.await.map_err(|e| e.to_string())??;
                    for (id, n) in s { ensure!(deliveries.insert((id, n)), "message {id} delivered twice as attempt {n}"); let e = att.entry(id).or_default(); *e = (*e).max(n); }
                    for x in a { ensure!(acked.insert(x), "acknowledged twice"); }
                    kept.extend(k);
                }
                for (id, n) in &att { for k in 1..=*n { ensure!(deliveries.contains(&(*id, k)), "attempt {k} of {id} was delivered to nobody"); } }
                Ok((att, acked, kept))
            })?;
            let (att, acked, kept) = out?;
            let check = |mem: &BTreeMap<Uuid, (Vec<u8>, u8, u32, bool)>, dl: &Vec<DRow>, when: &str| -> Result<(), String> {
                ensure!(mem.len() + dl.len() + acked.len() == total, "{when}: {} in the queue + {} dead + {} acknowledged of {total} pushed", mem.len(), dl.len(), acked.len());
                for (id, x) in mem {
                    ensure!(!acked.contains(id), "{when}: acknowledged message {id} is back");
                    ensure!(x.2 == att.get(id).copied().unwrap_or(0), "{when}: {id} has attempts {}, delivered {}", x.2, att.get(id).copied().unwrap_or(0));
                    if kept.contains(id) { ensure!(x.3, "{when}: leased message {id} is not in flight"); }
                }
                for d in dl { ensure!(!acked.contains(&d.id), "{when}: acknowledged message {} is dead-lettered", d.id); }
                Ok(())
            };
            let (mem, dl) = wait(&rt, "listing", listing(&m, "q"))??;
            check(&mem, &dl, "in memory")?;
            if restart {
                settled(&rt, &m, tmp.path(), "q")?;
                drop(m); rt.shutdown_timeout(Duration::from_secs(5));
                rt = nexo_search::rt();
                m = mgr(&rt, c.clone());
                let (mem2, dl2) = wait(&rt, "listing", listing(&m, "q"))??;
                check(&mem2, &dl2, "after a restart")?;
                ensure!(mem2 == mem, "after a restart the messages differ from those before it");
            }
            drop(m);
            rt.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        });
    }
}

/// leases that end while the server is down are handled when it comes back; leases that do not, stay
fn downtime(run: &mut Run) {
    for (retries, vt) in [(1u32, 80u64), (2, 80), (1, 3_600_000), (0, 90), (3, u64::MAX)] {
        run.case("lease-over-restart", json!({"max_retries": retries, "visibility_ms": vt}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let c = cfg(tmp.path(), 3_600_000, 50);
            let rt1 = rt();
            let m = mgr(&rt1, c.clone());
            wait(&rt1, "create", m.create_queue("q".into(), opts(if vt < 1000 { 900 } else { vt }, retries)))??;
            wait(&rt1, "push", m.push("q".into(), Bytes::from("x"), 2))??;
            let g = wait(&rt1, "pop", m.pop("q"))?.ok_or("not delivered")?;
            let end = Instant::now() + Duration::from_secs(3);
            loop {
                let (a, _) = read_disk(tmp.path(), "q")?;
                if a.get(&g.id).map_or(false, |r| r.attempts == 1 && r.lease == g.visible_at) { break; }
                ensure!(Instant::now() < end, "the delivery is never stored: {:?}", a.get(&g.id));
                std::thread::sleep(Duration::from_millis(5));
            }
            drop(m); rt1.shutdown_timeout(Duration::from_secs(5));
            if vt < 1000 { while current_time_ms() <= g.visible_at + 20 { std::thread::sleep(Duration::from_millis(10)); } }
            let rt2 = rt();
            let m = mgr(&rt2, c.clone());
            if vt >= 1000 {
                std::thread::sleep(Duration::from_millis(120));
                ensure!(wait(&rt2, "pop", m.pop("q"))?.is_none(), "a message leased before the restart was delivered again before its lease ended");
                ensure!(wait(&rt2, "ack", m.ack("q", g.id))?, "a lease held before the restart cannot be acknowledged after it");
            } else if retries <= 1 {
                let end = Instant::now() + Duration::from_secs(3);
                loop {
                    if let Some(x) = wait(&rt2, "pop", m.pop("q"))? { return Err(format!("delivered a {}th time, the maximum is {retries}", x.attempts)); }
                    let (t, d) = wait(&rt2, "peek", m.peek_dlq("q", 5, 0))??;
                    if t == 1 { ensure!(d[0].id == g.id && d[0].attempts == 1, "wrong dead letter"); break; }
                    ensure!(Instant::now() < end, "a lease that ended while the server was down is never handled");
                    std::thread::sleep(Duration::from_millis(10));
                }
            } else {
                let x = wait(&rt2, "consume", m.consume_batch("q".into(), Some(1), Some(3000)))??;
                ensure!(x.len() == 1 && x[0].id == g.id && x[0].attempts == 2, "a lease that ended while the server was down was not returned");
            }
            drop(m); rt2.shutdown_timeout(Duration::from_secs(5));
            Ok(())
        });
    }
}

fn main() {
    let mut run = Run::from_args();
    let q = |run: &Run, n: usize| run.n(n);
    match run.prop.as_str() {
        "Q01" => { let n = q(&run, 6000); state_histories(&mut run, "queue-history", n); let n = q(&run, 60); manager_history(&mut run, "client-history", n, false, false); let n = q(&run, 6); concurrent(&mut run, "many-clients", n, false); }
        "Q02" => { let n = q(&run, 6000); state_histories(&mut run, "delivery-order", n); let n = q(&run, 40); manager_history(&mut run, "client-history", n, false, false); waits(&mut run); }
        "Q03" => { let n = q(&run, 4000); state_histories(&mut run, "lease-history", n); let n = q(&run, 5); leases(&mut run, n); let n = q(&run, 6); concurrent(&mut run, "many-clients", n, false); waits(&mut run); downtime(&mut run); }
        "Q04" => { let n = q(&run, 4000); state_histories(&mut run, "attempts-history", n); let n = q(&run, 60); manager_history(&mut run, "client-history", n, false, false); let n = q(&run, 3); leases(&mut run, n); downtime(&mut run); }
        "Q05" => { let n = q(&run, 4000); dlq_state(&mut run, n); let n = q(&run, 80); manager_history(&mut run, "dead-letter-history", n, false, true); }
        "Q06" => { let n = q(&run, 25); manager_history(&mut run, "restart-history", n, true, false); let n = q(&run, 15); manager_history(&mut run, "restart-dead-letter", n, true, true); let n = q(&run, 12); concurrent(&mut run, "many-clients-restart", n, true); downtime(&mut run); }
        p => panic!("{p}"),
    }
    run.finish();
}
