use bytes::{Bytes, BytesMut};
use nexo::transport::tcp::protocol::cursor::PayloadCursor;
use nexo::transport::tcp::protocol::*;
use nexo_search::*;
use serde_json::json;
use tokio_util::codec::{Decoder, Encoder};

fn frame(t: u8, op: u8, id: u32, p: &[u8]) -> Vec<u8> {
    let mut v = vec![t, op];
    v.extend(id.to_be_bytes());
    v.extend((p.len() as u32).to_be_bytes());
    v.extend(p);
    v
}

fn t01(run: &mut Run) {
    let max = nexo::config::Config::global().server.max_payload_size;
    let mut r = run.rng("t01");
    for i in 0..run.n(3000) {
        if run.done() { break; }
        let k = r.range(1, 6);
        let mut want = vec![];
        let mut stream = vec![];
        for _ in 0..k {
            let n = *r.pick(&[0usize, 1, 2, 9, 10, 11, 17, 255, 256, 257, 300]);
            let p: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            let f = (r.next() as u8, r.next() as u8, if r.chance(1, 3) { u32::MAX - r.below(3) as u32 } else { r.next() as u32 }, p);
            stream.extend(frame(f.0, f.1, f.2, &f.3));
            want.push(f);
        }
        // cut into reads
        let mut cuts = vec![];
        let mode = r.below(4);
        let mut p = 0;
        while p < stream.len() {
            let s = match mode { 0 => 1, 1 => r.range(1, 12), 2 => r.range(1, 60), _ => stream.len() };
            p = (p + s).min(stream.len());
            cuts.push(p);
        }
        if i < 40 { cuts = vec![i.min(stream.len()), stream.len()]; }
        let desc = json!({"frames": want.iter().map(|f| json!([f.0, f.1, f.2, hx(&f.3)])).collect::<Vec<_>>(), "cuts": cuts});
        run.case("frames-recovered", desc, true, || {
            let mut c = NexoCodec::new();
            let mut buf = BytesMut::new();
            let mut got = vec![];
            let mut at = 0;
            let mut consumed = 0;
            for &cut in &cuts {
                buf.extend_from_slice(&stream[at..cut]);
                at = cut;
                loop {
                    let before = buf.clone();
                    match c.decode(&mut buf).map_err(|e| format!("refused a legal stream: {e}"))? {
                        Some(f) => {
                            consumed += before.len() - buf.len();
                            ensure!(buf[..] == stream[consumed..at], "after a frame the rest of the buffer is not the rest of the stream");
                            got.push((f.header.frame_type, f.header.meta, f.header.id(), f.payload.to_vec()));
                        }
                        None => {
                            ensure!(buf == before, "an incomplete frame changed the buffer");
                            break;
                        }
                    }
                }
                let complete = { let mut n = 0; let mut l = 0; for w in &want { l += 10 + w.3.len(); if l <= at { n += 1 } } n };
                ensure!(got.len() == complete, "after {at} bytes {} frames were recovered, {complete} are complete", got.len());
            }
            ensure!(got == want, "recovered frames differ from those sent");
            ensure!(buf.is_empty(), "bytes left over");
            Ok(())
        });
    }
    for n in [max, max + 1, max + 2, u32::MAX as usize, 0x8000_0000, 1 << 31, (1u64 << 32) as usize - 1] {
        for body in [0usize, 5] {
            run.case("max-payload", json!({"announced": n, "max": max, "body": body}), true, || {
                let mut c = NexoCodec::new();
                let mut b = BytesMut::new();
                b.extend_from_slice(&[1, 2, 0, 0, 0, 9]);
                b.extend_from_slice(&(n as u32).to_be_bytes());
                b.extend_from_slice(&vec![7; body]);
                let before = b.clone();
                match c.decode(&mut b) {
                    Err(_) => ensure!(n as u32 as usize > max, "a payload of allowed size {n} was refused"),
                    Ok(None) => { ensure!(n <= max, "a payload of {n} bytes announced above the maximum {max} was accepted"); ensure!(b == before, "consumed bytes"); }
                    Ok(Some(_)) => return Err("a frame appeared out of an incomplete one".into()),
                }
                Ok(())
            });
        }
    }
    run.case("max-payload-exact", json!({"max": max}), true, || {
        let mut c = NexoCodec::new();
        let p = vec![0xA5u8; max];
        let mut b = BytesMut::from(&frame(1, 7, 77, &p)[..]);
        b.extend_from_slice(&[1]);
        let f = c.decode(&mut b).map_err(|e| e.to_string())?.ok_or("not recovered")?;
        ensure!(f.payload.len() == max && f.payload[..] == p[..] && b.len() == 1, "largest allowed frame altered");
        Ok(())
    });
}

fn t02(run: &mut Run) {
    let mut r = run.rng("t02");
    for _ in 0..run.n(4000) {
        if run.done() { break; }
        let k = r.range(1, 5);
        let pre = r.bytes(20);
        let mut msgs: Vec<(u8, u8, u32, Vec<u8>)> = vec![];
        for _ in 0..k {
            let id = if r.chance(1, 4) { u32::MAX } else { r.next() as u32 };
            let sz = *r.pick(&[0, 1, 3, 30, 255, 256, 70000]);
            let b = r.bytes(sz);
            let txt: String = (0..r.below(20)).map(|_| *r.pick(&['a', 'é', '€', '😀', ' ', '\n'])).collect();
            msgs.push(match r.below(5) {
                0 => (2, 0, id, vec![]),
                1 => (2, 1, id, txt.into_bytes()),
                2 => (2, 2, id, vec![]),
                3 => (2, 3, id, b),
                _ => (3, 0, id, b),
            });
        }
        let desc = json!({"queued": hx(&pre), "messages": msgs.iter().map(|m| json!([m.0, m.1, m.2, hx(&m.3[..m.3.len().min(40)]), m.3.len()])).collect::<Vec<_>>()});
        run.case("outbound-frames", desc, true, || {
            let mut c = NexoCodec::new();
            let mut dst = BytesMut::from(&pre[..]);
            let mut want = pre.clone();
            for (t, st, id, p) in &msgs {
                let (f, wp) = match (t, st) {
                    (2, 0) => (OutboundFrame::Response { id: *id, response: Response::Ok }, vec![]),
                    (2, 1) => {
                        let mut w = (p.len() as u32).to_be_bytes().to_vec();
                        w.extend(p);
                        (OutboundFrame::Response { id: *id, response: Response::Error(String::from_utf8(p.clone()).unwrap()) }, w)
                    }
                    (2, 2) => (OutboundFrame::Response { id: *id, response: Response::Null }, vec![]),
                    (2, 3) => (OutboundFrame::Response { id: *id, response: Response::Data(Bytes::from(p.clone())) }, p.clone()),
                    _ => (OutboundFrame::PushPubSub { id: *id, payload: Bytes::from(p.clone()) }, p.clone()),
                };
                c.encode(f, &mut dst).map_err(|e| e.to_string())?;
                let mut w = frame(*t, if *t == 2 { *st } else { 0 }, *id, &wp);
                if *t == 3 { w[1] = dst[want.len() + 1]; }
                want.extend(w);
                ensure!(dst[..] == want[..], "written bytes differ from the documented frame (or earlier bytes were altered)");
            }
            Ok(())
        });
    }
}

fn t03(run: &mut Run) {
    let mut r = run.rng("t03");
    for i in 0..run.n(12000) {
        if run.done() { break; }
        // a payload built from fields, then possibly truncated / corrupted
        let mut b = vec![];
        for _ in 0..r.below(5) {
            match r.below(5) {
                0 => b.push(r.next() as u8),
                1 => b.extend((r.next() as u32).to_be_bytes()),
                2 => b.extend(r.next().to_be_bytes()),
                3 => b.extend((0..16).map(|_| r.next() as u8)),
                _ => {
                    let s: String = (0..r.below(6)).map(|_| *r.pick(&['a', 'z', 'é', '€', '😀', '\0'])).collect();
                    b.extend((s.len() as u32).to_be_bytes());
                    b.extend(s.as_bytes());
                }
            }
        }
        match r.below(5) {
            0 => { let n = r.below(b.len() + 1); b.truncate(n); }
            1 if !b.is_empty() => { let k = r.below(b.len()); b[k] = r.next() as u8; }
            2 => b = r.bytes(40),
            3 => { let l: u32 = *r.pick(&[0, 1, 4, u32::MAX, u32::MAX - 3, 0x7fff_ffff, 0x8000_0000]); let mut x = l.to_be_bytes().to_vec(); x.extend(r.bytes(6)); b = x; }
            _ => {}
        }
        let ops: Vec<u8> = (0..r.range(1, 7)).map(|_| r.below(6) as u8).collect();
        run.case("cursor", json!({"payload": hx(&b), "reads": ops, "n": i}), !b.is_empty(), || {
            let mut c = PayloadCursor::new(Bytes::from(b.clone()));
            let mut p = 0usize;
            for op in &ops {
                let rem = &b[p..];
                ensure!(c.len() == rem.len(), "len() is {}, {} bytes remain", c.len(), rem.len());
                for k in [0, 1, rem.len(), rem.len() + 1] { ensure!(c.has_remaining(k) == (rem.len() >= k), "has_remaining({k}) wrong"); }
                match op {
                    0 => match c.read_u8() { Ok(v) => { ensure!(rem.len() >= 1 && v == rem[0], "u8 read {v}"); p += 1 } Err(_) => ensure!(rem.is_empty(), "u8 refused") },
                    1 => match c.read_u32() { Ok(v) => { ensure!(rem.len() >= 4 && v == u32::from_be_bytes(rem[..4].try_into().unwrap()), "u32 read {v}"); p += 4 } Err(_) => ensure!(rem.len() < 4, "u32 refused") },
                    2 => match c.read_u64() { Ok(v) => { ensure!(rem.len() >= 8 && v == u64::from_be_bytes(rem[..8].try_into().unwrap()), "u64 read {v}"); p += 8 } Err(_) => ensure!(rem.len() < 8, "u64 refused") },
                    3 => match c.read_uuid_bytes() { Ok(v) => { ensure!(rem.len() >= 16 && v[..] == rem[..16], "uuid read"); p += 16 } Err(_) => ensure!(rem.len() < 16, "uuid refused") },
                    4 => {
                        let ok = if rem.len() >= 4 { let l = u32::from_be_bytes(rem[..4].try_into().unwrap()) as usize; if rem.len() - 4 >= l { std::str::from_utf8(&rem[4..4 + l]).ok().map(|s| (s.to_string(), 4 + l)) } else { None } } else { None };
                        match (c.read_string(), ok) {
                            (Ok(s), Some((w, n))) => { ensure!(s == w, "text read {s:?}, sent {w:?}"); p += n }
                            (Err(_), None) => return Ok(()), // position after a refused text is not specified
                            (Ok(s), None) => return Err(format!("text {s:?} read where none is encoded")),
                            (Err(e), Some((w, _))) => return Err(format!("text {w:?} refused: {e}")),
                        }
                    }
                    _ => { let x = c.read_remaining(); ensure!(x[..] == *rem, "rest differs"); p = b.len(); }
                }
            }
            ensure!(c.read_remaining()[..] == b[p..], "the rest after the reads differs");
            Ok(())
        });
    }
}

fn main() {
    let mut run = Run::from_args();
    match run.prop.as_str() {
        "T01" => t01(&mut run),
        "T02" => { t02(&mut run); }
        "T03" => t03(&mut run),
        p => panic!("{p}"),
    }
    run.finish();
}
