//! PROXY protocol headers over a simulated stream.
use crate::server::proxy::{Addresses, Protocol, parse_header};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::Rng;
use simdrv::{Outcome, finish};
use std::net::{Ipv4Addr, Ipv6Addr};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{CutKind, Profile, pair};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// hex of header
    head: String,
    tls: bool,
    /// hex of what follows the header
    tail: String,
    /// writes: (number of bytes, pause before in ms)
    segs: Vec<(usize, u64)>,
    /// the tail is sent only after the header was parsed
    hold_tail: bool,
    /// the sender ends after this many bytes
    cut: Option<(usize, u8)>,
    short_ppm: u64,
}

const SIG: &[u8] = b"\r\n\r\n\0\r\nQUIT\n";

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn tlv(t: u8, v: &[u8]) -> Vec<u8> {
    let mut b = vec![t, (v.len() >> 8) as u8, v.len() as u8];
    b.extend_from_slice(v);
    b
}
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.next() as u8).collect()
}

fn header(r: &mut Rng, tls: bool) -> Vec<u8> {
    let mut b = SIG.to_vec();
    let local = r.chance(1, 12);
    let ver = if r.chance(1, 25) { (r.below(16) as u8) << 4 } else { 0x20 };
    let cmd = if local { 0 } else if r.chance(1, 25) { r.below(16) as u8 } else { 1 };
    b.push(ver | cmd);
    let fam = if local && r.chance(4, 5) { 0 } else if r.chance(1, 15) { r.below(16) as u8 } else { 1 + r.below(3) as u8 };
    let proto = if local && r.chance(4, 5) { 0 } else if r.chance(1, 15) { r.below(16) as u8 } else { 1 + r.below(2) as u8 };
    b.push(fam << 4 | proto);
    let alen = match fam {
        1 => 12,
        2 => 36,
        3 => 216,
        _ => *r.pick(&[0, 12, 36, 216]),
    };
    let mut body = if local && r.chance(3, 4) { vec![] } else { bytes(r, alen) };
    let mut crc_at = None;
    if !(local && r.chance(3, 4)) {
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let want_tls = if r.chance(1, 8) { !tls } else { tls };
        if want_tls {
            let mut v = vec![r.below(8) as u8, 0, 0, 0, 0];
            if r.chance(1, 10) {
                v[1 + r.below(4) as usize] = 1 << r.below(8);
            }
            if r.chance(1, 2) {
                v.extend(tlv(0x21, b"TLSv1.3"));
            }
            if r.chance(1, 3) {
                v.extend(tlv(0x22, b"client.example.org"));
            }
            if r.chance(1, 12) {
                v.truncate(r.below(6) as usize);
            }
            parts.push(tlv(0x20, &v));
        }
        let want_auth = if r.chance(1, 8) { !want_tls } else { want_tls };
        if want_auth {
            let n = r.below(40) as usize;
            let v = match r.below(10) {
                0 => vec![],
                1 => bytes(r, n),
                2 => "bücher.example".as_bytes().to_vec(),
                _ => format!("host{}.example.org", r.below(1000)).into_bytes(),
            };
            parts.push(tlv(0x02, &v));
        }
        for _ in 0..r.below(3) {
            let t = *r.pick(&[0x01u8, 0x04, 0x05, 0x30, 0xe0, 0xea, 0xff, 0x21]);
            let n = if r.chance(1, 8) { r.below(250) } else { r.below(20) } as usize;
            parts.push(tlv(t, &bytes(r, n)));
        }
        let crc = r.chance(1, 2);
        if crc {
            parts.push(tlv(0x03, &[0; 4]));
        }
        if r.chance(1, 12) && !parts.is_empty() {
            let d = r.pick(&parts).clone();
            if d[0] != 3 {
                parts.push(d);
            }
        }
        r.shuffle(&mut parts);
        if r.chance(1, 6) {
            // exactly at, just under or over the limit on TLV bytes
            let have: usize = parts.iter().map(|p| p.len()).sum();
            let want = *r.pick(&[255usize, 256, 257, 258]);
            if have + 3 <= want {
                parts.push(tlv(0x04, &vec![0; want - have - 3]));
            }
        }
        for p in parts {
            if p[0] == 3 {
                crc_at = Some(16 + body.len() + 3);
            }
            body.extend(p);
        }
    }
    if r.chance(1, 20) {
        let n = 1 + r.below(3) as usize;
        body.extend(bytes(r, n));
    }
    let mut n = body.len();
    if r.chance(1, 15) {
        // a declared length that does not fit
        n = match r.below(4) {
            0 => n.saturating_sub(1 + r.below(8) as usize),
            1 => n + 1 + r.below(8) as usize,
            2 => 0,
            _ => r.below(65536) as usize,
        };
    }
    b.extend_from_slice(&(n as u16).to_be_bytes());
    b.extend(body);
    if let Some(at) = crc_at {
        let c = crc32c::crc32c(&b[..(16 + n).min(b.len())]);
        if at + 4 <= b.len() {
            b[at..at + 4].copy_from_slice(&c.to_be_bytes());
            if r.chance(1, 6) {
                let k = r.below(b.len() as u64) as usize;
                b[k] ^= 1 << r.below(8);
            }
        }
    }
    if r.chance(1, 12) {
        let k = r.below(b.len() as u64) as usize;
        b[k] ^= 1 << r.below(8);
    }
    if r.chance(1, 60) {
        b = bytes(r, 40);
    }
    b
}

pub fn plan(seed: u64, i: u64) -> Value {
    let mut r = Rng::stream(seed, 0x1900_0000 + i);
    let n = 1 + r.below(16);
    let mut cases = Vec::new();
    for _ in 0..n {
        let tls = r.chance(1, 2);
        let head = header(&mut r, tls);
        let nt = r.below(60) as usize;
        let tail = bytes(&mut r, nt);
        let mut segs = Vec::new();
        let style = r.below(5);
        let mut left = head.len() + tail.len();
        while left > 0 && segs.len() < 400 {
            let k = match style {
                0 => left,
                1 => 1,
                2 => 1 + r.below(7) as usize,
                3 => 1 + r.below(40) as usize,
                _ => *r.pick(&[16usize, 12, 28, 1, 15, 17]),
            }
            .min(left);
            let pause = if r.chance(1, 4) { r.below(200) } else { 0 };
            segs.push((k, pause));
            left -= k;
        }
        let cut = r.chance(1, 5).then(|| (r.below(head.len() as u64 + 1) as usize, r.below(2) as u8));
        cases.push(Case {
            head: hex(&head),
            tls,
            tail: hex(&tail),
            segs,
            hold_tail: r.chance(1, 2),
            cut,
            short_ppm: *r.pick(&[0, 0, 300_000, 900_000]),
        });
    }
    serde_json::json!({"kind": "streams", "seed": r.next() >> 1, "cases": cases})
}

/// What the specification says about a stream that starts with these bytes.
#[derive(Debug, PartialEq)]
enum Want {
    /// Local connection; the header's length.
    Local(usize),
    Header { len: usize, protocol: Protocol, addresses: Addresses, sni: Option<String> },
    /// Must be refused (or may wait for the header's remaining bytes only).
    Err,
    /// Both are fine; length of the header.
    Either(usize, Option<(Protocol, Addresses)>),
    /// Not enough bytes.
    Short,
}
fn reference(b: &[u8], tls: bool) -> Want {
    if b.len() < 16 {
        return Want::Short;
    }
    if &b[..12] != SIG {
        return Want::Err;
    }
    let len = 16 + u16::from_be_bytes([b[14], b[15]]) as usize;
    if b[12] >> 4 != 2 || b[12] & 15 > 1 {
        return Want::Err;
    }
    if b[12] & 15 == 0 {
        return if b[13] == 0 && len == 16 { Want::Local(16) } else { Want::Either(len, None) };
    }
    let alen = match b[13] >> 4 {
        0 => return Want::Either(len, None),
        1 => 12,
        2 => 36,
        3 => 216,
        _ => return Want::Err,
    };
    let protocol = match b[13] & 15 {
        0 => return Want::Either(len, None),
        1 => Protocol::Stream,
        2 => Protocol::Datagram,
        _ => return Want::Err,
    };
    if len < 16 + alen {
        return Want::Err;
    }
    if b.len() < len {
        return Want::Short;
    }
    let a = &b[16..16 + alen];
    let p16 = |i: usize| u16::from_be_bytes([a[i], a[i + 1]]);
    let addresses = match alen {
        12 => Addresses::IPv4 {
            source_address: Ipv4Addr::new(a[0], a[1], a[2], a[3]),
            destination_address: Ipv4Addr::new(a[4], a[5], a[6], a[7]),
            source_port: p16(8),
            destination_port: p16(10),
        },
        36 => Addresses::IPv6 {
            source_address: Ipv6Addr::from(<[u8; 16]>::try_from(&a[..16]).unwrap()),
            destination_address: Ipv6Addr::from(<[u8; 16]>::try_from(&a[16..32]).unwrap()),
            source_port: p16(32),
            destination_port: p16(34),
        },
        _ => Addresses::Unix { source: a[..108].try_into().unwrap(), destination: a[108..].try_into().unwrap() },
    };
    let mut t = &b[16 + alen..len];
    let total = t.len();
    let (mut ssl, mut names, mut crc, mut bad, mut verified) = (0, Vec::new(), 0, false, true);
    let mut at = 16 + alen;
    while !t.is_empty() {
        if t.len() < 3 {
            return Want::Err;
        }
        let n = u16::from_be_bytes([t[1], t[2]]) as usize;
        if t.len() < 3 + n {
            return Want::Err;
        }
        let v = &t[3..3 + n];
        match t[0] {
            2 => match std::str::from_utf8(v) {
                Ok(s) if !s.is_empty() => names.push(s.to_string()),
                _ => bad = true,
            },
            3 => {
                crc += 1;
                if n != 4 {
                    bad = true;
                } else {
                    let mut h = b[..len].to_vec();
                    h[at + 3..at + 7].fill(0);
                    if crc32c::crc32c(&h).to_be_bytes() != v {
                        bad = true;
                    }
                }
            }
            0x20 => {
                ssl += 1;
                if n < 5 || v[1..5] != [0; 4] {
                    verified = false;
                }
            }
            _ => {}
        }
        t = &t[3 + n..];
        at += 3 + n;
    }
    if crc > 1 {
        return Want::Either(len, Some((protocol, addresses)));
    }
    if bad || !verified || (tls != (ssl > 0)) || (tls != !names.is_empty()) {
        return Want::Err;
    }
    if total > 256 || ssl > 1 || names.len() > 1 {
        return Want::Either(len, Some((protocol, addresses)));
    }
    Want::Header { len, protocol, addresses, sni: names.pop() }
}

pub fn exec(plan: &Value, trace: bool) -> ! {
    let cases: Vec<Case> = serde_json::from_value(plan["cases"].clone()).expect("cases");
    let seed = plan["seed"].as_u64().unwrap_or(1);
    let cfg = simcore::SchedConfig { seed, max_steps: 3_000_000, ..Default::default() };
    simcore::init(
        cfg,
        Box::new(|f| {
            let mut o = Outcome::default();
            match f {
                simcore::Fatal::Idle => o.fail("C19.waits", "the reader waits for bytes although the stream ended or the whole header was there"),
                simcore::Fatal::HarnessPanic(p) => o.fail("C19.panic", p),
                f => o.inconclusive = Some(format!("{f:?}")),
            }
            finish(&o)
        }),
    );
    tokio::net::configure(seed);
    let o = simcore::block_on(async move {
        let mut o = Outcome::default();
        let mut shape = 0xcbf29ce484222325u64;
        for (k, c) in cases.iter().enumerate() {
            one(k, c, &mut o, &mut shape, trace).await;
        }
        o.shape = shape;
        o.fp = simcore::fingerprint();
        o.sim_ns = simcore::now();
        let s = tokio::net::net_stats();
        for (n, v) in [("bytes", s.bytes), ("short reads", s.short_reads), ("resets", s.rst), ("orderly closes", s.fin)] {
            o.stat(n, v);
        }
        o
    });
    finish(&o)
}

async fn one(k: usize, c: &Case, o: &mut Outcome, shape: &mut u64, trace: bool) {
    let head = unhex(&c.head);
    let tail = unhex(&c.tail);
    let mut all = head.clone();
    all.extend(&tail);
    let sent: Vec<u8> = match c.cut {
        Some((n, _)) => all[..n.min(all.len())].to_vec(),
        None => all.clone(),
    };
    // what the reader may conclude from all bytes of this stream
    let want = reference(&sent, c.tls);
    let hlen = match &want {
        Want::Header { len, .. } | Want::Local(len) | Want::Either(len, _) => *len,
        _ => usize::MAX,
    };
    let hold = c.hold_tail && c.cut.is_none();
    // how much goes out before the header has been answered
    let first = if hold { hlen.min(sent.len()) } else { sent.len() };
    let prof = Profile { short_read_ppm: c.short_ppm, ..Default::default() };
    let (mut client, mut server, conn) = pair(prof, Profile::default());
    let (segs, data, cut) = (c.segs.clone(), sent[..first].to_vec(), c.cut);
    let writer = tokio::spawn(async move {
        let mut i = 0;
        for (n, ms) in segs {
            if ms > 0 {
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            let e = (i + n).min(data.len());
            if e > i {
                let _ = client.write_all(&data[i..e]).await;
                tokio::time::sleep(Duration::from_micros(10)).await;
            }
            i = e;
        }
        if i < data.len() {
            let _ = client.write_all(&data[i..]).await;
        }
        match cut {
            Some((_, 0)) => {
                let _ = client.shutdown().await;
            }
            Some(_) => {
                tokio::time::sleep(Duration::from_millis(2)).await;
                conn.cut(CutKind::Rst);
            }
            None => {}
        }
        client
    });
    let tls = c.tls;
    // the reader runs as a task of the system so that a panic is an observation
    let (tx, rx) = std::sync::mpsc::channel();
    let h = tokio::task::spawn_in(Some(simcore::Group::System), async move {
        let r = parse_header(&mut server, tls).await;
        let _ = tx.send((r, server));
    });
    let limit = c.segs.iter().map(|s| s.1 + 1).sum::<u64>() + 1000;
    let done = tokio::time::timeout(Duration::from_millis(limit), h).await;
    let what = || format!("case {k}: header {} tls {} cut {:?} sent {} bytes, reference {:?}", c.head, c.tls, c.cut, first, want);
    let got = match done {
        Ok(Ok(())) => rx.try_recv().ok(),
        Ok(Err(_)) => {
            o.fail("C19.panic", format!("{}: {:?}", what(), simcore::system_panics().last()));
            return;
        }
        Err(_) => None,
    };
    o.stat("streams", 1);
    o.stat("cut streams", c.cut.is_some() as u64);
    o.stat("segments", c.segs.len() as u64);
    o.nontrivial |= c.segs.len() > 1 || !matches!(want, Want::Header { .. });
    for b in format!("{}{}{:?}{}", c.head, c.tls, c.cut, c.segs.len()).bytes() {
        *shape = (*shape ^ b as u64).wrapping_mul(0x100000001b3);
    }
    if trace {
        o.trace.push(format!("{} -> {:?}", what(), got.as_ref().map(|g| format!("{:?}", g.0))));
    }
    let Some((res, mut server)) = got else {
        // still waiting
        match want {
            Want::Short if c.cut.is_none() => {}
            // a header that is wrong but whose declared bytes have not all come
            Want::Err if c.cut.is_none() && sent.len() < 16 + u16::from_be_bytes([sent[14], sent[15]]) as usize => {}
            Want::Either(len, _) if sent.len() < len && c.cut.is_none() => {}
            _ => o.fail("C19.waits", format!("{}: no result although nothing more belongs to the header", what())),
        }
        return;
    };
    simcore::fold(res.is_ok() as u64);
    match (&want, &res) {
        (Want::Err | Want::Short, Err(_)) | (Want::Either(..), Err(_)) => {
            o.stat("refused", 1);
            return;
        }
        (Want::Err, Ok(x)) => {
            o.fail("C19.accepts", format!("{}: accepted as {x:?}", what()));
            return;
        }
        (Want::Short, Ok(x)) => {
            o.fail("C19.truncated", format!("{}: accepted as {x:?}", what()));
            return;
        }
        (Want::Local(_), Ok(None)) => o.stat("local", 1),
        (Want::Header { protocol, addresses, sni, .. }, Ok(Some(x)))
            if x.protocol == *protocol && x.addresses == *addresses && x.tls_sni == *sni =>
        {
            o.stat("accepted", 1)
        }
        (Want::Either(_, None), Ok(None)) => {}
        (Want::Either(_, Some((p, a))), Ok(Some(x))) if x.protocol == *p && x.addresses == *a => {}
        (_, Err(_)) if matches!(c.cut, Some((_, 1))) => {
            // a reset may destroy bytes that were on their way
            o.stat("reset before the end", 1);
            return;
        }
        (_, x) => {
            o.fail("C19.wrong", format!("{}: result {x:?}", what()));
            return;
        }
    }
    // the stream must stand exactly behind the header
    if hlen > sent.len() {
        o.fail("C19.truncated", format!("{}: accepted before the whole header was there", what()));
        return;
    }
    let Ok(Ok(mut client)) = tokio::time::timeout(Duration::from_secs(3600), writer).await else { return };
    if c.cut.is_none() {
        if hold {
            let _ = client.write_all(&sent[first..]).await;
        }
        let _ = client.write_all(&[0xa5, 0x5a]).await;
        let mut rest = sent[hlen..].to_vec();
        rest.extend([0xa5, 0x5a]);
        let mut b = vec![0u8; rest.len()];
        match tokio::time::timeout(Duration::from_secs(30), server.read_exact(&mut b)).await {
            Ok(Ok(_)) if b == rest => {}
            x => o.fail("C19.consumes", format!("{}: the bytes after the header are {:?} ({x:?}) instead of {:?}", what(), b, rest)),
        }
    }
}
