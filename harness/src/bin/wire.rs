//! T04, T05, T06: opcodes, their fields, response bodies, one response per request.
use bytes::Bytes;
use nexo::brokers::pub_sub::{ClientId, PubSubMessage};
use nexo::transport::tcp::dispatcher::Dispatcher;
use nexo::transport::tcp::protocol::Response;
use nexo::NexoEngine;
use nexo_search::*;
use serde_json::json;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::mpsc;
use uuid::Uuid;

struct W { rt: tokio::runtime::Runtime, e: NexoEngine, me: ClientId, rx: mpsc::UnboundedReceiver<Arc<PubSubMessage>>, _tmp: tempfile::TempDir }
impl W {
    fn new() -> Result<W, String> {
        let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
        let rt = rt();
        let c = scratch_config(tmp.path());
        let e = wait(&rt, "start", NexoEngine::new(&c))?;
        let (tx, rx) = mpsc::unbounded_channel();
        let me = ClientId("me".into());
        e.pubsub.connect(me.clone(), tx);
        Ok(W { rt, e, me, rx, _tmp: tmp })
    }
    fn op(&self, op: u8, p: &[u8]) -> Result<Response, String> {
        let d = Dispatcher::new(&self.e, &self.me);
        let p = Bytes::copy_from_slice(p);
        wait(&self.rt, &format!("opcode {op:#x}"), d.dispatch(op, p))
    }
    fn ok(&self, op: u8, p: &[u8]) -> Result<(), String> { match self.op(op, p)? { Response::Ok => Ok(()), r => Err(format!("opcode {op:#x}: expected OK, got {}", clip(&format!("{r:?}")))) } }
    fn data(&self, op: u8, p: &[u8]) -> Result<Vec<u8>, String> { match self.op(op, p)? { Response::Data(b) => Ok(b.to_vec()), r => Err(format!("opcode {op:#x}: expected data, got {}", clip(&format!("{r:?}")))) } }
    fn err(&self, op: u8, p: &[u8]) -> Result<(), String> { match self.op(op, p)? { Response::Error(_) => Ok(()), r => Err(format!("opcode {op:#x} with payload {}: expected an error, got {}", clip(&hx(p)), clip(&format!("{r:?}")))) } }
    /// everything observable through the brokers' own interfaces
    fn digest(&self) -> Result<String, String> {
        let mut out = vec![];
        let mut keys: Vec<String> = self.e.store.map.iter().map(|x| format!("{}={}@{:?}", x.key(), hx(&x.value().value.0), x.value().expires_at)).collect();
        keys.sort();
        out.push(format!("{keys:?}"));
        let mut qs = wait(&self.rt, "queues", self.e.queue.get_snapshot())?;
        qs.sort_by(|a, b| a.name.cmp(&b.name));
        for q in &qs {
            out.push(format!("{} {} {} {} {:?}", q.name, q.pending, q.inflight, q.dlq, q.config));
            for st in ["pending", "inflight"] { if let Some((t, ms)) = wait(&self.rt, "messages", self.e.queue.get_messages(q.name.clone(), st.into(), 0, 1000, None))? { let mut v: Vec<String> = ms.iter().map(|m| format!("{} {} {} {}", m.id, hx(&m.payload), m.priority, m.attempts)).collect(); v.sort(); out.push(format!("{t} {v:?}")); } }
            let (t, ms) = wait(&self.rt, "dlq", self.e.queue.peek_dlq(&q.name, 1000, 0))??;
            out.push(format!("{t} {:?}", ms.iter().map(|m| format!("{} {} {} {}", m.id, hx(&m.payload), m.attempts, m.failure_reason)).collect::<Vec<_>>()));
        }
        let ps = self.e.pubsub.scan_topics(10000, 0, None);
        out.push(format!("{} {:?}", ps.total_topics, ps.topics.iter().map(|t| format!("{} {} {:?}", t.full_path, t.subscribers, t.retained_payload.as_ref().map(|b| hx(b)))).collect::<Vec<_>>()));
        let mut w: Vec<String> = ps.wildcards.multi_level.iter().chain(ps.wildcards.single_level.iter()).map(|x| format!("{} {}", x.pattern, x.client_id)).collect(); w.sort();
        out.push(format!("{w:?}"));
        let mut ss = wait(&self.rt, "streams", self.e.stream.get_snapshot())?.topics;
        ss.sort_by(|a, b| a.name.cmp(&b.name));
        for s in &ss { let mut g: Vec<String> = s.groups.iter().map(|g| format!("{} {} {}", g.id, g.ack_floor, g.pending_count)).collect(); g.sort(); out.push(format!("{} {} {:?} {g:?}", s.name, s.last_seq, s.config.retention)); }
        Ok(out.join("\n"))
    }
}
fn cat(f: &[&dyn Fn(&mut Vec<u8>)]) -> Vec<u8> { let mut b = vec![]; for x in f { x(&mut b); } b }
fn s(v: &str) -> impl Fn(&mut Vec<u8>) + '_ { move |b| put_str(b, v) }
fn raw(v: &[u8]) -> impl Fn(&mut Vec<u8>) + '_ { move |b| b.extend(v) }
fn n8(v: u64) -> impl Fn(&mut Vec<u8>) { move |b| b.extend(v.to_be_bytes()) }
fn n4(v: u32) -> impl Fn(&mut Vec<u8>) { move |b| b.extend(v.to_be_bytes()) }
fn name(rng: &mut Rng) -> String {
    let base = *rng.pick(&["a", "orders", "ünï", "with space", "x.y", "日本", "A_b-c", "0"]);
    format!("{base}{}", rng.below(100000))
}

// ---------------------------------------------------------------- T04
fn fields(run: &mut Run, n: usize) {
    let mut rng = run.rng("fields");
    let mut w = match W::new() { Ok(w) => w, Err(e) => { run.case("start", json!({}), true, || Err(e)); return; } };
    for _ in 0..n {
        if run.done() { break; }
        let (a, b) = (name(&mut rng), name(&mut rng)); let val = rng.bytes(40); let v2 = rng.bytes(10); let ttl = rng.range(100, 100000) as u64; let seed = rng.next();
        // store
        run.case("store-fields", json!({"key": a, "value": hx(&val), "ttl": ttl}), true, || {
            let t0 = Instant::now();
            w.ok(0x02, &cat(&[&s(&a), &s(&format!("{{\"ttl\":{ttl}}}")), &raw(&val)]))?;
            w.ok(0x02, &cat(&[&s(&b), &s("{}"), &raw(&v2)]))?;
            ensure!(w.data(0x03, &cat(&[&s(&a)]))? == val, "GET of {a:?} does not return the bytes sent by SET");
            ensure!(w.e.store.map.get(&a).as_deref() == Some(&val[..]), "SET stored another value than sent");
            let ent = w.e.store.map.iter().find(|x| *x.key() == a).map(|x| x.value().expires_at);
            match ent { Some(Some(t)) => { let d = t.saturating_duration_since(t0).as_secs_f64(); ensure!(d >= ttl as f64 - 0.01 && d < ttl as f64 + 5.0, "SET with ttl {ttl} expires after {d} s"); } x => return Err(format!("SET with ttl {ttl} stored expiry {x:?}")) }
            w.ok(0x04, &cat(&[&s(&a)]))?;
            ensure!(w.e.store.map.get(&a).is_none(), "DEL did not delete {a:?}");
            ensure!(matches!(w.op(0x03, &cat(&[&s(&a)]))?, Response::Null), "GET of a deleted key is not null");
            ensure!(a == b || w.e.store.map.get(&b).as_deref() == Some(&v2[..]), "DEL of {a:?} touched {b:?}");
            w.ok(0x04, &cat(&[&s(&b)]))
        });
        // queue
        let vis = rng.range(50_000, 900_000); let retries = rng.below(9); let pr = rng.below(256); let pr2 = rng.below(256); let k = rng.range(1, 4); let reason = name(&mut rng); let omit = rng.below(4);
        run.case("queue-fields", json!({"queue": a, "visibility": vis, "retries": retries, "priorities": [pr, pr2], "payload": hx(&val), "batch": k, "reason": reason, "omit": omit}), true, || {
            let o = match omit { 0 => format!("{{\"visibilityTimeoutMs\":{vis}}}"), 1 => format!("{{\"maxRetries\":{retries}}}"), _ => format!("{{\"visibilityTimeoutMs\":{vis},\"maxRetries\":{retries}}}") };
            w.err(0x14, &cat(&[&s(&a)]))?;
            w.ok(0x10, &cat(&[&s(&a), &s(&o)]))?;
            w.ok(0x14, &cat(&[&s(&a)]))?;
            w.err(0x14, &cat(&[&s(&format!("{a}?"))]))?;
            let qs = wait(&w.rt, "snap", w.e.queue.get_snapshot())?;
            let q = qs.iter().find(|q| q.name == a).ok_or(format!("CREATE made no queue named {a:?}"))?;
            let d = nexo::config::Config::global().queue.clone();
            let (wv, wr) = (if omit == 1 { d.visibility_timeout_ms } else { vis as u64 }, if omit == 0 { d.max_retries } else { retries as u32 });
            ensure!(q.config.visibility_timeout_ms == wv && q.config.max_retries == wr, "CREATE with {o} made {:?}", q.config);
            w.ok(0x11, &cat(&[&s(&a), &s(&format!("{{\"priority\":{pr}}}")), &raw(&val)]))?;
            w.ok(0x11, &cat(&[&s(&a), &s(&format!("{{\"priority\":{pr2}}}")), &raw(&v2)]))?;
            w.ok(0x11, &cat(&[&s(&a), &s("{}"), &raw(b"def")]))?;
            let (t, ms) = wait(&w.rt, "messages", w.e.queue.get_messages(a.clone(), "pending".into(), 0, 100, None))?.ok_or("no queue")?;
            let mut got: Vec<(u8, Vec<u8>)> = ms.iter().map(|m| (m.priority, m.payload.to_vec())).collect(); got.sort();
            let mut want = vec![(pr as u8, val.clone()), (pr2 as u8, v2.clone()), (0, b"def".to_vec())]; want.sort();
            ensure!(t == 3 && got == want, "PUSH of (priority, payload) {want:?} gave {got:?}");
            let body = w.data(0x12, &cat(&[&s(&a), &s(&format!("{{\"batchSize\":{k},\"waitMs\":0}}"))]))?;
            let mut r = Rd(&body);
            let c = r.u32()?;
            ensure!(c as usize == k.min(3), "CONSUME with batchSize {k} gave {c} of 3 messages");
            let mut ids = vec![];
            for _ in 0..c { ids.push(Uuid::from_slice(r.take(16)?).unwrap()); r.bytes()?; }
            r.end()?;
            // ack the first, nack the others
            w.err(0x13, &cat(&[&raw(Uuid::from_u128(seed as u128).as_bytes()), &s(&a)]))?;
            w.err(0x13, &cat(&[&raw(ids[0].as_bytes()), &s(&b)]))?;
            w.ok(0x13, &cat(&[&raw(ids[0].as_bytes()), &s(&a)]))?;
            let (_, fl) = wait(&w.rt, "messages", w.e.queue.get_messages(a.clone(), "inflight".into(), 0, 100, None))?.ok_or("no queue")?;
            let mut f: Vec<Uuid> = fl.iter().map(|m| m.id).collect(); f.sort();
            let mut wf = ids[1..].to_vec(); wf.sort();
            ensure!(f == wf, "after ACK of {} in flight are {f:?}, expected {wf:?}", ids[0]);
            if ids.len() > 1 && wr <= 1 {
                w.ok(0x1A, &cat(&[&raw(ids[1].as_bytes()), &s(&a), &s(&reason)]))?;
                let (t, ms) = wait(&w.rt, "dlq", w.e.queue.peek_dlq(&a, 10, 0))??;
                ensure!(t == 1 && ms[0].id == ids[1] && ms[0].failure_reason == reason, "NACK of {} with reason {reason:?} dead-lettered {:?}", ids[1], ms.iter().map(|m| (m.id, m.failure_reason.clone())).collect::<Vec<_>>());
            } else if ids.len() > 1 {
                w.ok(0x1A, &cat(&[&raw(ids[1].as_bytes()), &s(&a), &s(&reason)]))?;
                let (_, fl) = wait(&w.rt, "messages", w.e.queue.get_messages(a.clone(), "inflight".into(), 0, 100, None))?.ok_or("no queue")?;
                ensure!(fl.iter().all(|m| m.id != ids[1]) && fl.len() == ids.len() - 2, "NACK of {} left in flight {:?}", ids[1], fl.iter().map(|m| m.id).collect::<Vec<_>>());
            }
            w.ok(0x15, &cat(&[&s(&a)]))?;
            w.err(0x14, &cat(&[&s(&a)]))
        });
        // dead letters
        let dn = rng.range(1, 5); let (lim, off) = (rng.below(7) as u32, rng.below(7) as u32); let (mv, dl) = (rng.below(dn), rng.below(dn));
        run.case("dead-letter-fields", json!({"queue": a, "dead": dn, "limit": lim, "offset": off, "move": mv, "delete": dl}), true, || {
            w.ok(0x10, &cat(&[&s(&a), &s("{\"maxRetries\":0}")]))?;
            w.ok(0x10, &cat(&[&s(&format!("{a}x")), &s("{}")]))?;
            for i in 0..dn {
                w.ok(0x11, &cat(&[&s(&a), &s("{}"), &raw(&[i as u8; 3])]))?;
                let b = w.data(0x12, &cat(&[&s(&a), &s("{\"batchSize\":1}")]))?; let mut r = Rd(&b); r.u32()?; let id = r.take(16)?.to_vec();
                w.ok(0x1A, &cat(&[&raw(&id), &s(&a), &s(&format!("r{i}"))]))?;
            }
            let (t, all) = wait(&w.rt, "dlq", w.e.queue.peek_dlq(&a, 100, 0))??;
            ensure!(t == dn, "{t} dead letters, expected {dn}");
            let b = w.data(0x16, &cat(&[&s(&a), &n4(lim), &n4(off)]))?;
            let mut r = Rd(&b);
            let (t, c) = (r.u32()?, r.u32()?);
            let want: Vec<Uuid> = all.iter().skip(off as usize).take(lim as usize).map(|m| m.id).collect();
            let mut got = vec![];
            for _ in 0..c { got.push(Uuid::from_slice(r.take(16)?).unwrap()); r.bytes()?; r.u32()?; r.bytes()?; }
            ensure!(t as usize == dn && got == want, "PEEK limit {lim} offset {off} of {dn} gave total {t} and {got:?}, expected {want:?}");
            let (m, d) = (all[mv].id, all[dl].id);
            w.data(0x17, &cat(&[&s(&format!("{a}x")), &raw(m.as_bytes())]))?;
            ensure!(w.data(0x17, &cat(&[&s(&a), &raw(m.as_bytes())]))? == [1], "MOVE of a dead letter is not reported as done");
            let (_, p) = wait(&w.rt, "messages", w.e.queue.get_messages(a.clone(), "pending".into(), 0, 100, None))?.ok_or("no queue")?;
            ensure!(p.len() == 1 && p[0].id == m, "MOVE of {m} made waiting {:?}", p.iter().map(|x| x.id).collect::<Vec<_>>());
            let del = w.data(0x18, &cat(&[&s(&a), &raw(d.as_bytes())]))?;
            ensure!(del == [(m != d) as u8], "DELETE of dead letter {d} answered {del:?}");
            let left = dn - 1 - (m != d) as usize;
            let (t, l) = wait(&w.rt, "dlq", w.e.queue.peek_dlq(&a, 100, 0))??;
            ensure!(t == left && l.iter().all(|x| x.id != m && x.id != d), "after MOVE {m} and DELETE {d}: {:?}", l.iter().map(|x| x.id).collect::<Vec<_>>());
            ensure!(w.data(0x19, &cat(&[&s(&a)]))? == (left as u32).to_be_bytes(), "PURGE reports another number than {left}");
            ensure!(wait(&w.rt, "dlq", w.e.queue.peek_dlq(&a, 100, 0))??.0 == 0, "PURGE left dead letters");
            w.ok(0x15, &cat(&[&s(&a)]))?; w.ok(0x15, &cat(&[&s(&format!("{a}x"))]))
        });
        // pub/sub
        let retain = rng.below(3); let ttl = rng.range(50, 5000);
        run.case("pubsub-fields", json!({"topic": a, "retain": retain, "ttl": ttl, "payload": hx(&val)}), true, || {
            while w.rx.try_recv().is_ok() {}
            w.ok(0x22, &cat(&[&s(&a)]))?;
            w.ok(0x22, &cat(&[&s(&b)]))?;
            w.ok(0x23, &cat(&[&s(&b)]))?;
            let o = match retain { 0 => "{}".to_string(), 1 => format!("{{\"retain\":true,\"ttl\":{ttl}}}"), _ => "{\"retain\":false}".into() };
            w.ok(0x21, &cat(&[&s(&a), &s(&o), &raw(&val)]))?;
            if a != b { w.ok(0x21, &cat(&[&s(&b), &s("{}"), &raw(&v2)]))?; }
            let mut got = vec![]; while let Ok(m) = w.rx.try_recv() { got.push((m.topic.clone(), m.payload.to_vec())); }
            if a != b { ensure!(got == vec![(a.clone(), val.clone())], "subscribed to {a:?}, unsubscribed from {b:?}; received {got:?}"); }
            w.ok(0x23, &cat(&[&s(&a)]))?;
            w.ok(0x22, &cat(&[&s(&a)]))?;
            let mut got = vec![]; while let Ok(m) = w.rx.try_recv() { got.push((m.topic.clone(), m.payload.to_vec())); }
            let want: Vec<(String, Vec<u8>)> = if retain == 1 && !val.is_empty() { vec![(a.clone(), val.clone())] } else { vec![] };
            ensure!(got == want, "published with {o}: a new subscription receives {got:?}");
            w.ok(0x21, &cat(&[&s(&a), &s("{\"retain\":true}")]))?;
            w.ok(0x23, &cat(&[&s(&a)]))?;
            while w.rx.try_recv().is_ok() {}
            Ok(())
        });
        // stream
        let (mb, ma) = (*rng.pick(&[0u64, 12345, 99999999]), *rng.pick(&[0u64, 777777, 88888888])); let ro = rng.below(4); let cnt = rng.range(2, 8) as u64; let lim = rng.range(1, 9) as u32; let g = name(&mut rng); let pick = rng.next();
        run.case("stream-fields", json!({"topic": a, "group": g, "retention": [ma, mb, ro], "published": cnt, "limit": lim}), true, || {
            let o = match ro { 0 => "{}".to_string(), 1 => format!("{{\"retention\":{{\"maxAgeMs\":{ma}}}}}"), 2 => format!("{{\"retention\":{{\"maxBytes\":{mb}}}}}"), _ => format!("{{\"retention\":{{\"maxAgeMs\":{ma},\"maxBytes\":{mb}}}}}") };
            w.err(0x35, &cat(&[&s(&a)]))?;
            w.ok(0x30, &cat(&[&s(&a), &s(&o)]))?;
            w.ok(0x35, &cat(&[&s(&a)]))?;
            let sn = wait(&w.rt, "snap", w.e.stream.get_snapshot())?;
            let t = sn.topics.iter().find(|t| t.name == a).ok_or("CREATE made no such stream")?;
            let d = nexo::config::Config::global().stream.clone();
            let z = |v: u64| if v == 0 { None } else { Some(v) };
            let want = (if ro == 1 || ro == 3 { z(ma) } else { Some(d.default_retention_age_ms) }, if ro >= 2 { z(mb) } else { Some(d.default_retention_bytes) });
            ensure!((t.config.retention.max_age_ms, t.config.retention.max_bytes) == want, "CREATE with {o} made {:?}", t.config.retention);
            for i in 1..=cnt { let b = w.data(0x31, &cat(&[&s(&a), &raw(&[i as u8, 9])]))?; ensure!(b == i.to_be_bytes(), "PUB number {i} answered {b:?}"); }
            let all = wait(&w.rt, "read", w.e.stream.read(&a, 0, 1000))?;
            ensure!(all.iter().map(|m| m.payload.to_vec()).eq((1..=cnt).map(|i| vec![i as u8, 9])), "PUB stored other payloads than sent");
            let b = w.data(0x33, &cat(&[&s(&g), &s(&a)]))?;
            let mut r = Rd(&b); let (fl, gen) = (r.u64()?, r.u64()?); let c = String::from_utf8(r.bytes()?).map_err(|e| e.to_string())?; r.end()?;
            ensure!(fl == 0, "JOIN of a new group reports floor {fl}");
            let grp = |w: &W| -> Result<Vec<(String, u64, usize)>, String> { Ok(wait(&w.rt, "snap", w.e.stream.get_snapshot())?.topics.into_iter().find(|t| t.name == a).ok_or("no stream")?.groups.into_iter().map(|g| (g.id, g.ack_floor, g.pending_count)).collect()) };
            ensure!(grp(&w)? == vec![(g.clone(), 0, 0)], "JOIN of group {g:?} made {:?}", grp(&w)?);
            w.err(0x32, &cat(&[&s(&a), &s(&g), &s(&c), &n8(gen + 1), &n4(lim), &n4(0)]))?;
            w.err(0x32, &cat(&[&s(&a), &s(&g), &s("nobody"), &n8(gen), &n4(lim), &n4(0)]))?;
            let b = w.data(0x32, &cat(&[&s(&a), &s(&g), &s(&c), &n8(gen), &n4(lim), &n4(0)]))?;
            let mut r = Rd(&b); let k = r.u32()?; let mut seqs = vec![];
            for _ in 0..k { seqs.push(r.u64()?); r.u64()?; r.bytes()?; }
            r.end()?;
            ensure!(seqs.iter().copied().eq(1..=cnt.min(lim as u64)), "FETCH with limit {lim} of {cnt} gave {seqs:?}");
            let one = seqs[(pick % seqs.len() as u64) as usize];
            w.err(0x34, &cat(&[&s(&a), &s(&g), &s(&c), &n8(gen + 7), &n8(one)]))?;
            w.err(0x34, &cat(&[&s(&a), &s(&g), &s("nobody"), &n8(gen), &n8(one)]))?;
            w.ok(0x34, &cat(&[&s(&a), &s(&g), &s(&c), &n8(gen), &n8(one)]))?;
            w.err(0x34, &cat(&[&s(&a), &s(&g), &s(&c), &n8(gen), &n8(one)]))?;
            ensure!(grp(&w)? == vec![(g.clone(), if one == 1 { 1 } else { 0 }, seqs.len() - 1)], "ACK of {one} of {seqs:?}: {:?}", grp(&w)?);
            // a waiting fetch gives up after its wait and not at once
            if pick % 5 == 0 {
                let b2 = w.data(0x33, &cat(&[&s("late"), &s(&a)]))?; let mut r = Rd(&b2); r.u64()?; let g2 = r.u64()?; let c2 = String::from_utf8(r.bytes()?).map_err(|e| e.to_string())?;
                w.ok(0x38, &cat(&[&s(&a), &s("late"), &raw(&[1])]))?;
                w.err(0x32, &cat(&[&s(&a), &s("late"), &s(&c2), &n8(g2), &n4(1), &n4(0)]))?;
                let b2 = w.data(0x33, &cat(&[&s("late"), &s(&a)]))?; let mut r = Rd(&b2); ensure!(r.u64()? == cnt, "after SEEK to the end the floor is not {cnt}"); let g2 = r.u64()?; let c2 = String::from_utf8(r.bytes()?).map_err(|e| e.to_string())?;
                let t0 = Instant::now();
                let b2 = w.data(0x32, &cat(&[&s(&a), &s("late"), &s(&c2), &n8(g2), &n4(5), &n4(60)]))?;
                ensure!(b2 == [0, 0, 0, 0] && t0.elapsed() >= Duration::from_millis(55) && t0.elapsed() < Duration::from_secs(8), "FETCH with wait 60 ms answered {b2:?} after {:?}", t0.elapsed());
                w.ok(0x38, &cat(&[&s(&a), &s("late"), &raw(&[0])]))?;
                let b2 = w.data(0x33, &cat(&[&s("late"), &s(&a)]))?; ensure!(Rd(&b2).u64()? == 0, "after SEEK to the beginning the floor is not 0");
                w.err(0x38, &cat(&[&s(&a), &s("late"), &raw(&[2])]))?;
            }
            w.err(0x39, &cat(&[&s(&a), &s(&g), &s("nobody"), &n8(gen)])).or_else(|_| if grp(&w)?.iter().any(|x| x.2 == seqs.len() - 1) { Ok(()) } else { Err("LEAVE of an unknown consumer changed the group".to_string()) })?;
            w.ok(0x39, &cat(&[&s(&a), &s(&g), &s(&c), &n8(gen)]))?;
            ensure!(grp(&w)?.iter().filter(|x| x.0 == g).all(|x| x.2 == 0), "LEAVE left leases behind: {:?}", grp(&w)?);
            w.ok(0x36, &cat(&[&s(&a)]))?;
            w.err(0x35, &cat(&[&s(&a)]))
        });
        run.case("echo", json!({"payload": hx(&val)}), true, || { ensure!(w.data(0, &val)? == val, "echo altered the payload"); Ok(()) });
    }
}

fn refusals(run: &mut Run, n: usize) {
    let mut rng = run.rng("refusals");
    let w = match W::new() { Ok(w) => w, Err(e) => { run.case("start", json!({}), true, || Err(e)); return; } };
    let setup = || -> Result<(Vec<u8>, String, u64), String> {
        w.ok(0x10, &cat(&[&s("q"), &s("{\"maxRetries\":0,\"visibilityTimeoutMs\":900000}")]))?;
        for i in 0..6u8 { w.ok(0x11, &cat(&[&s("q"), &s("{}"), &raw(&[i])]))?; }
        let b = w.data(0x12, &cat(&[&s("q"), &s("{\"batchSize\":3}")]))?;
        let mut r = Rd(&b); r.u32()?; let id = r.take(16)?.to_vec(); r.bytes()?; let id2 = r.take(16)?.to_vec();
        w.ok(0x1A, &cat(&[&raw(&id2), &s("q"), &s("x")]))?;
        w.ok(0x30, &cat(&[&s("t"), &s("{}")]))?;
        for i in 0..6u8 { w.data(0x31, &cat(&[&s("t"), &raw(&[i])]))?; }
        let b = w.data(0x33, &cat(&[&s("g"), &s("t")]))?; let mut r = Rd(&b); r.u64()?; let gen = r.u64()?; let c = String::from_utf8(r.bytes()?).unwrap();
        w.data(0x32, &cat(&[&s("t"), &s("g"), &s(&c), &n8(gen), &n4(3), &n4(0)]))?;
        w.ok(0x02, &cat(&[&s("k"), &s("{}"), &raw(b"v")]))?;
        w.ok(0x22, &cat(&[&s("p/+")]))?;
        w.ok(0x21, &cat(&[&s("p/a"), &s("{\"retain\":true}"), &raw(b"r")]))?;
        Ok((id, c, gen))
    };
    let (id, c, gen) = match setup() { Ok(x) => x, Err(e) => { run.case("setup", json!({}), true, || Err(e)); return; } };
    // complete requests (fixed part only, without a trailing body)
    let full: Vec<(u8, Vec<u8>)> = vec![
        (0x02, cat(&[&s("k2"), &s("{\"ttl\":7}")])), (0x03, cat(&[&s("k")])), (0x04, cat(&[&s("k")])),
        (0x10, cat(&[&s("q2"), &s("{}")])), (0x11, cat(&[&s("q"), &s("{\"priority\":3}")])), (0x12, cat(&[&s("q"), &s("{\"batchSize\":2}")])), (0x13, cat(&[&raw(&id), &s("q")])), (0x14, cat(&[&s("q")])), (0x15, cat(&[&s("q")])),
        (0x16, cat(&[&s("q"), &n4(1), &n4(0)])), (0x17, cat(&[&s("q"), &raw(&id)])), (0x18, cat(&[&s("q"), &raw(&id)])), (0x19, cat(&[&s("q")])), (0x1A, cat(&[&raw(&id), &s("q"), &s("why")])),
        (0x21, cat(&[&s("p/b"), &s("{\"retain\":true}")])), (0x22, cat(&[&s("p/c")])), (0x23, cat(&[&s("p/+")])),
        (0x30, cat(&[&s("t2"), &s("{}")])), (0x31, cat(&[&s("t")])), (0x32, cat(&[&s("t"), &s("g"), &s(&c), &n8(gen), &n4(2), &n4(0)])), (0x33, cat(&[&s("g2"), &s("t")])), (0x34, cat(&[&s("t"), &s("g"), &s(&c), &n8(gen), &n8(1)])),
        (0x35, cat(&[&s("t")])), (0x36, cat(&[&s("t")])), (0x38, cat(&[&s("t"), &s("g"), &raw(&[0])])), (0x39, cat(&[&s("t"), &s("g"), &s(&c), &n8(gen)])),
    ];
    let known: Vec<u8> = full.iter().map(|x| x.0).chain([0]).collect();
    for (op, p) in &full {
        for cut in 0..p.len() {
            if run.done() { return; }
            run.case("short-payload", json!({"opcode": op, "payload": hx(&p[..cut])}), true, || {
                let d0 = w.digest()?;
                w.err(*op, &p[..cut])?;
                let d1 = w.digest()?;
                ensure!(d0 == d1, "opcode {op:#x} refused a payload of {cut} bytes but changed the state from\n{}\nto\n{}", clip(&d0), clip(&d1));
                Ok(())
            });
        }
    }
    for op in 0..=255u8 {
        if known.contains(&op) { continue; }
        for (_, p) in [&full[0], &full[4], &full[19]] {
            run.case("unknown-opcode", json!({"opcode": op, "payload": hx(p)}), true, || {
                let d0 = w.digest()?; w.err(op, p)?;
                ensure!(d0 == w.digest()?, "unknown opcode {op:#x} changed the state");
                Ok(())
            });
        }
    }
    for _ in 0..n {
        if run.done() { return; }
        // damaged text or options
        let (op, p) = rng.pick(&full).clone(); let kind = rng.below(3);
        let mut bad = p.clone();
        match kind {
            0 => { let i = rng.below(bad.len()); bad[i] = 0xff; }
            1 => { bad.splice(0..4, (0x7fff_ffffu32).to_be_bytes()); }
            _ => { if let Some(i) = bad.iter().position(|b| *b == b'{') { bad[i] = b'['; } }
        }
        if bad == p || (op == 0x13 && bad[..16] == p[..16] && kind == 0) { continue; }
        let has_json = matches!(op, 0x02 | 0x10 | 0x11 | 0x12 | 0x21 | 0x30);
        let uuid_first = op == 0x13 || op == 0x1A;
        if (kind == 2 && !has_json) || (kind == 1 && uuid_first) { continue; }
        if kind == 0 { continue; }
        run.case("damaged-payload", json!({"opcode": op, "payload": hx(&bad)}), true, || {
            let d0 = w.digest()?; w.err(op, &bad)?;
            ensure!(d0 == w.digest()?, "a refused request (opcode {op:#x}) changed the state");
            Ok(())
        });
    }
    // text that is not UTF-8
    for (op, p) in &full {
        let i = if matches!(*op, 0x13 | 0x1A) { 20 } else { 4 };
        let mut bad = p.clone(); bad[i] = 0xff;
        run.case("not-utf8", json!({"opcode": op, "payload": hx(&bad)}), true, || { let d0 = w.digest()?; w.err(*op, &bad)?; ensure!(d0 == w.digest()?, "a refused request changed the state"); Ok(()) });
    }
}

// ---------------------------------------------------------------- T05
fn bodies(run: &mut Run, n: usize) {
    let mut rng = run.rng("bodies");
    let w = match W::new() { Ok(w) => w, Err(e) => { run.case("start", json!({}), true, || Err(e)); return; } };
    for it in 0..n {
        if run.done() { break; }
        let q = format!("q{it}");
        let items: Vec<(u8, Vec<u8>)> = (0..rng.below(7)).map(|_| (rng.below(3) as u8, if rng.chance(1, 12) { vec![7u8; rng.range(256, 70000)] } else { rng.bytes(30) })).collect();
        let k = rng.range(1, 8);
        let reasons: Vec<String> = (0..8).map(|i| if rng.chance(1, 4) { String::new() } else { format!("reason {i} {}", name(&mut rng)) }).collect();
        let show: Vec<(u8, String)> = items.iter().map(|x| (x.0, clip(&hx(&x.1)))).collect();
        run.case("queue-bodies", json!({"messages": show, "batch": k, "reasons": reasons}), !items.is_empty(), || {
            w.ok(0x10, &cat(&[&s(&q), &s("{\"maxRetries\":2}")]))?;
            let mut order: Vec<(u8, usize)> = vec![];
            for (i, (p, v)) in items.iter().enumerate() { w.ok(0x11, &cat(&[&s(&q), &s(&format!("{{\"priority\":{p}}}")), &raw(v)]))?; order.push((*p, i)); }
            order.sort_by_key(|x| (255 - x.0, x.1));
            let (_, pend) = wait(&w.rt, "messages", w.e.queue.get_messages(q.clone(), "pending".into(), 0, 100, None))?.ok_or("no queue")?;
            let b = w.data(0x12, &cat(&[&s(&q), &s(&format!("{{\"batchSize\":{k},\"waitMs\":0}}"))]))?;
            let mut r = Rd(&b); let c = r.u32()? as usize;
            ensure!(c == k.min(items.len()), "the body announces {c} messages, {} were due", k.min(items.len()));
            let mut ids = vec![];
            for j in 0..c {
                let id = Uuid::from_slice(r.take(16)?).unwrap(); let p = r.bytes()?;
                ensure!(p == items[order[j].1].1, "element {j} carries payload {}, expected {}", clip(&hx(&p)), clip(&hx(&items[order[j].1].1)));
                ensure!(pend.iter().any(|m| m.id == id && m.payload[..] == p[..]), "element {j} carries id {id} which is not the message with that payload");
                ids.push(id);
            }
            r.end()?;
            let e = w.data(0x12, &cat(&[&s(&q), &s("{\"batchSize\":50,\"waitMs\":0}")]))?;
            let mut r2 = Rd(&e); let c2 = r2.u32()? as usize; ensure!(c2 == items.len() - c, "the second body announces {c2}");
            for _ in 0..c2 { ids.push(Uuid::from_slice(r2.take(16)?).unwrap()); r2.bytes()?; } r2.end()?;
            for (i, id) in ids.iter().enumerate() { w.ok(0x1A, &cat(&[&raw(id.as_bytes()), &s(&q), &s(&reasons[i % 8])]))?; }
            // second and last delivery
            let e = w.data(0x12, &cat(&[&s(&q), &s("{\"batchSize\":50,\"waitMs\":0}")]))?;
            let mut r2 = Rd(&e); let c2 = r2.u32()? as usize; let mut again = vec![];
            for _ in 0..c2 { again.push(Uuid::from_slice(r2.take(16)?).unwrap()); r2.bytes()?; } r2.end()?;
            for (i, id) in again.iter().enumerate() { w.ok(0x1A, &cat(&[&raw(id.as_bytes()), &s(&q), &s(&reasons[(i + 3) % 8])]))?; }
            for (lim, off) in [(100u32, 0u32), (2, 1), (0, 0), (3, 100)] {
                let (wt, wm) = wait(&w.rt, "dlq", w.e.queue.peek_dlq(&q, lim as usize, off as usize))??;
                let b = w.data(0x16, &cat(&[&s(&q), &n4(lim), &n4(off)]))?;
                let mut r = Rd(&b); let (t, c) = (r.u32()? as usize, r.u32()? as usize);
                ensure!(t == wt && c == wm.len(), "dead-letter body announces total {t} and {c} elements, the result has {wt} and {}", wm.len());
                for m in &wm {
                    let (id, p, at, rs) = (Uuid::from_slice(r.take(16)?).unwrap(), r.bytes()?, r.u32()?, r.bytes()?);
                    ensure!(id == m.id && p[..] == m.payload[..] && at == m.attempts && rs == m.failure_reason.as_bytes(), "dead letter {} / {} bytes / {} attempts / {:?} is encoded as {id} / {} bytes / {at} / {:?}", m.id, m.payload.len(), m.attempts, m.failure_reason, p.len(), String::from_utf8_lossy(&rs));
                }
                r.end()?;
            }
            ensure!(w.data(0x17, &cat(&[&s(&q), &raw(Uuid::from_u128(5).as_bytes())]))? == [0], "MOVE of an unknown id is not 0");
            if let Some(id) = again.first() { ensure!(w.data(0x17, &cat(&[&s(&q), &raw(id.as_bytes())]))? == [1], "MOVE is not 1"); }
            if let Some(id) = again.get(1) { ensure!(w.data(0x18, &cat(&[&s(&q), &raw(id.as_bytes())]))? == [1], "DELETE is not 1"); ensure!(w.data(0x18, &cat(&[&s(&q), &raw(id.as_bytes())]))? == [0], "second DELETE is not 0"); }
            let left = again.len().saturating_sub(2) as u32;
            ensure!(w.data(0x19, &cat(&[&s(&q)]))? == left.to_be_bytes(), "PURGE does not report {left}");
            w.ok(0x15, &cat(&[&s(&q)]))
        });
        let t = format!("t{it}");
        let items: Vec<Vec<u8>> = (0..rng.below(7)).map(|_| if rng.chance(1, 12) { vec![7u8; rng.range(256, 70000)] } else { rng.bytes(30) }).collect();
        run.case("stream-bodies", json!({"messages": items.iter().map(|x| clip(&hx(x))).collect::<Vec<_>>()}), !items.is_empty(), || {
            w.ok(0x30, &cat(&[&s(&t), &s("{}")]))?;
            for (i, p) in items.iter().enumerate() { ensure!(w.data(0x31, &cat(&[&s(&t), &raw(p)]))? == (i as u64 + 1).to_be_bytes(), "publish {i} reports another position"); }
            let want = wait(&w.rt, "read", w.e.stream.read(&t, 0, 1000))?;
            let b = w.data(0x33, &cat(&[&s("g"), &s(&t)]))?;
            let mut r = Rd(&b); let (fl, gen) = (r.u64()?, r.u64()?); let c = String::from_utf8(r.bytes()?).map_err(|e| e.to_string())?; r.end()?;
            let direct = wait(&w.rt, "join", w.e.stream.join_group("g", &t, "me"))??;
            ensure!((fl, gen) == (direct.ack_floor, direct.generation), "join body says floor {fl} generation {gen}, a direct join {} {}", direct.ack_floor, direct.generation);
            let b = w.data(0x32, &cat(&[&s(&t), &s("g"), &s(&c), &n8(gen), &n4(1000), &n4(0)]))?;
            let mut r = Rd(&b); let k = r.u32()? as usize;
            ensure!(k == items.len() && want.len() == k, "the body announces {k} messages, {} were published", items.len());
            for (i, m) in want.iter().enumerate() {
                let (sq, ts, p) = (r.u64()?, r.u64()?, r.bytes()?);
                ensure!(sq == m.seq && ts == m.timestamp && p == items[i], "message {} @{} is encoded as {sq} @{ts} with {} bytes", m.seq, m.timestamp, p.len());
            }
            r.end()?;
            if k > 1 { w.ok(0x34, &cat(&[&s(&t), &s("g"), &s(&c), &n8(gen), &n8(1)]))?; let b = w.data(0x33, &cat(&[&s("g"), &s(&t)]))?; ensure!(Rd(&b).u64()? == 1, "join after an acknowledgement does not report floor 1"); }
            w.ok(0x36, &cat(&[&s(&t)]))
        });
        let topic = if rng.chance(1, 5) { "é/".repeat(rng.below(40)) } else { name(&mut rng) }; let p = if rng.chance(1, 12) { vec![7u8; 70000] } else { rng.bytes(60) };
        run.case("push-body", json!({"topic": topic, "payload": clip(&hx(&p))}), true, || {
            let m = PubSubMessage::new(topic.clone(), Bytes::from(p.clone()));
            for _ in 0..2 { let b = m.get_network_packet().to_vec(); let mut r = Rd(&b); let t = r.bytes()?; ensure!(t == topic.as_bytes() && r.0 == &p[..], "push of topic {topic:?} and {} bytes decodes to {:?} and {} bytes", p.len(), String::from_utf8_lossy(&t), r.0.len()); }
            Ok(())
        });
        let v = rng.bytes(50);
        run.case("value-body", json!({"value": hx(&v)}), true, || { w.ok(0x02, &cat(&[&s("k"), &s("{}"), &raw(&v)]))?; ensure!(w.data(0x03, &cat(&[&s("k")]))? == v, "GET body differs from the value"); Ok(()) });
    }
}

// ---------------------------------------------------------------- T06
fn sessions(run: &mut Run, n: usize) {
    let mut rng = run.rng("sessions");
    for _ in 0..n {
        if run.done() { break; }
        let k = rng.range(5, 120); let seed = rng.next(); let chunk = rng.range(1, 200);
        run.case("one-response-each", json!({"requests": k, "seed": seed, "write_size": chunk}), true, || {
            let tmp = tempfile::tempdir().map_err(|e| e.to_string())?;
            let rt1 = rt();
            wait(&rt1, "session", async {
                let e = NexoEngine::new(&scratch_config(tmp.path())).await;
                let a = serve(e).await;
                let mut c = Client::connect(a).await;
                for (op, p) in [(0x10u8, cat(&[&s("q"), &s("{}")])), (0x30, cat(&[&s("t"), &s("{}")])), (0x22, cat(&[&s("x/#")]))] { c.ask(op, 1, &p).await?; }
                let mut r = Rng::new(seed);
                let mut out = vec![]; let mut want: std::collections::BTreeMap<u32, (u8, Vec<u8>)> = Default::default();
                for i in 0..k {
                    let id = if r.chance(1, 10) { u32::MAX - i as u32 } else { 1000 + i as u32 };
                    let body = r.bytes(40);
                    let (ty, op, p, w): (u8, u8, Vec<u8>, (u8, Vec<u8>)) = match r.below(7) {
                        0 => (1, 0, body.clone(), (3, body)),
                        1 => (1, 0x12, cat(&[&s("q"), &s("{\"batchSize\":1,\"waitMs\":80}")]), (3, vec![0, 0, 0, 0])),
                        2 => (*r.pick(&[0u8, 2, 3, 200]), 0, body, (1, vec![])),
                        3 => (1, 0xEE, body, (1, vec![])),
                        4 => (1, 0x03, cat(&[&s("nokey")]), (2, vec![])),
                        5 => (1, 0x35, cat(&[&s("t")]), (0, vec![])),
                        _ => (1, 0x21, cat(&[&s("x/y"), &s("{}"), &raw(&body)]), (0, vec![])),
                    };
                    out.extend(frame(ty, op, id, &p)); want.insert(id, w);
                }
                let mut left = want.clone();
                for part in out.chunks(chunk) { c.send(part).await?; if r.chance(1, 20) { tokio::task::yield_now().await; } }
                while !left.is_empty() {
                    let f = c.recv().await?;
                    if f.ty == 3 { continue; }
                    ensure!(f.ty == 2, "the server sent a frame of type {}", f.ty);
                    let (st, b) = left.remove(&f.id).ok_or(format!("a response for request {} which is not open", f.id))?;
                    ensure!(f.meta == st && (st == 1 || f.body == b), "request {} answered with status {} body {}, expected status {st} body {}", f.id, f.meta, hx(&f.body), hx(&b));
                }
                // nothing more arrives
                if let Ok(Ok(f)) = tokio::time::timeout(Duration::from_millis(120), async { loop { let f = c.recv().await?; if f.ty != 3 { return Ok::<_, String>(f); } } }).await { return Err(format!("a second response for request {}", f.id)); }
                Ok(())
            })?
        });
    }
}

fn main() {
    let mut run = Run::from_args();
    match run.prop.as_str() {
        "T04" => { let n = run.n(400); fields(&mut run, n); let n = run.n(150); refusals(&mut run, n); }
        "T05" => { let n = run.n(600); bodies(&mut run, n); }
        "T06" => { let n = run.n(25); sessions(&mut run, n); }
        p => panic!("{p}"),
    }
    run.finish();
}
