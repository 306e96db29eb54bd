//! C14: a misbehaving connection only ends itself.
use super::delivery::{answered_of, check_delivery, check_order};
use super::sessions::hex;
use super::*;
use crate::client::{Ev, SEC};
use crate::view::{Conn, matches};
use crate::wire::{Con, Pkt, Pub, Val, Will};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        budget: (12_000, 30),
        plan: c14,
        judge: j14,
        rule: "whatever a peer sends, no task of the broker panics, no connection but that one ends, and all other clients keep their sessions, subscriptions and messages and are answered in time",
        note: "1 to 4 hostile peers among healthy clients: malformed, mutated and truncated packets, packets illegal in their state, broken TLS records, WebSocket frames, HTTP requests, PROXY headers and SCRAM exchanges",
    }]
}

fn any_props(g: &mut G) -> Vec<(u8, Val)> {
    let mut v = Vec::new();
    if g.pc(50) {
        return v;
    }
    for _ in 0..g.range(1, 4) {
        let id = g.pick(&[1u8, 2, 3, 8, 9, 0x0b, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c, 0x1f, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x00, 0x7f, 0xff]);
        let x = match id {
            1 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => Val::U8(g.pick(&[0, 1, 2, 255])),
            0x13 | 0x21 | 0x22 | 0x23 => Val::U16(g.pick(&[0, 1, 2, 10, 11, 65535])),
            2 | 0x11 | 0x18 | 0x27 => Val::U32(g.pick(&[0, 1, 5, 100, u32::MAX])),
            0x0b => Val::Var(g.pick(&[0, 1, 268_435_455])),
            9 | 0x16 => Val::Bin((0..g.below(20)).map(|_| g.r.next() as u8).collect()),
            0x26 => Val::Pair("k".into(), "v".repeat(g.pick(&[0, 3, 300]))),
            _ => Val::Str(g.pick(&["", "h/x", "SCRAM-SHA-256", "#", "\u{0}", "\u{feff}ö", "text/plain"]).into()),
        };
        v.push((id, x));
    }
    v
}
fn text(g: &mut G) -> String {
    let t = ["h/a", "h/b/c", "h/#", "h/+", "", "/", "h//", "$SYS/h", "$share/g/h/#", "$share/g", "$share//h", "$share/g/", "$share/+/h", "$share", "$", "h/#/x", "h/a+", "+", "h\u{0}", "h/ü/\u{10ffff}", "$share/a#/h"];
    if g.pc(4) { format!("h/{}", "z/".repeat(g.range(1, 30_000) as usize)) } else { g.pick(&t).into() }
}
fn connect(g: &mut G, ver: u8, cid: &str) -> Con {
    let mut con = Con { ver, cid: cid.into(), clean: g.pc(50), keep_alive: g.pick(&[0, 1, 10, 65535]), props: any_props(g), ..Default::default() };
    if g.pc(8) {
        con.cid = g.pick(&["", "\u{0}", "hostile/#", "hostile+"]).into();
    }
    if g.pc(3) {
        con.cid = "hostile".repeat(3000);
    }
    if g.pc(30) {
        con.will = Some(Will { topic: text(g), payload: vec![1; g.below(9) as usize], qos: g.below(4) as u8, retain: g.pc(30), props: any_props(g) });
    }
    if g.pc(20) {
        con.user = Some(g.pick(&["u", "", "x"]).into());
    }
    if g.pc(20) {
        con.pass = Some(g.pick(&[&b"p"[..], b"", b"\0"]).to_vec());
    }
    if g.pc(15) {
        con.props.push((0x15, Val::Str(g.pick(&["SCRAM-SHA-256", "SCRAM-SHA-1", ""]).into())));
        if g.pc(80) {
            con.props.push((0x16, Val::Bin(g.pick(&[&b"n,,n=u,r=abcdefghijkl"[..], b"n,,n=u", b"", b"y,,n=,r=", b"p=tls-unique,,n=u,r=x", b"n,a=\xff,n=u,r=x", b"\xff\xfe", b"n,,m=x,n=u,r=x", b"n,,n==2C=3D,r=x", b"n,,n=u,r=a,b=c", b",,,,,,"]).to_vec())));
        }
    }
    con
}
/// A packet, more or less what the protocol allows.
fn packet(g: &mut G, ver: u8, cid: &str) -> Vec<u8> {
    let pid = g.pick(&[0u16, 1, 2, 3, 65535]);
    let v5 = ver == 5;
    let mut b = match g.below(14) {
        0..=3 => {
            let n = g.pick(&[0usize, 1, 20, 300, 20_000]);
            wire::encode(&Pkt::Publish(Pub { dup: g.pc(20), qos: g.pick(&[0, 1, 1, 2, 2, 3]), retain: g.pc(30), topic: text(g), pid, payload: (0..n).map(|i| i as u8).collect(), props: any_props(g) }), ver)
        }
        4 | 5 => {
            let f = (0..g.below(4)).map(|_| (text(g), g.pick(&[0u8, 1, 2, 3, 4, 0x0a, 0x2c, 0x30, 0x40, 0xff]))).collect();
            wire::encode(&Pkt::Subscribe { pid, filters: f, props: any_props(g) }, ver)
        }
        6 => {
            let f = (0..g.below(4)).map(|_| text(g)).collect();
            wire::encode(&Pkt::Unsubscribe { pid, filters: f }, ver)
        }
        7 | 8 => wire::encode(&Pkt::Ack { kind: g.range(4, 7) as u8, pid, code: if v5 { g.pick(&[0, 0x10, 0x80, 0x92, 0xff]) } else { 0 } }, ver),
        9 => wire::encode(&Pkt::Pingreq, ver),
        10 => wire::encode(&Pkt::Disconnect { code: if v5 { g.pick(&[0, 4, 0x80, 0x8e, 0xff]) } else { 0 }, props: if v5 { any_props(g) } else { vec![] } }, ver),
        11 => wire::encode(&Pkt::Auth { code: g.pick(&[0, 0x18, 0x19, 0xff]), props: any_props(g) }, ver),
        12 => {
            let c = connect(g, ver, cid);
            wire::encode(&Pkt::Connect(c), ver)
        }
        // what only a server sends, or nobody
        _ => {
            let n = g.below(6) as usize;
            let body: Vec<u8> = (0..n).map(|_| g.pick(&[0u8, 1, 2, 255])).collect();
            wire::frame(g.pick(&[0x00u8, 0x20, 0x90, 0xb0, 0xd0, 0xf0, 0x01, 0x12, 0x60, 0x80, 0xa0, 0xc1, 0xe1, 0xff]), &body)
        }
    };
    match g.below(10) {
        0 | 1 => {
            for _ in 0..g.range(1, 3) {
                let k = g.below(b.len().min(60) as u64) as usize;
                b[k] = g.r.next() as u8;
            }
        }
        2 => {
            let k = g.below(b.len().min(60) as u64) as usize;
            b[k] ^= 1 << g.below(8);
        }
        3 => {
            let k = g.below(b.len() as u64) as usize;
            b.truncate(k);
        }
        4 => {
            let k = g.below(b.len() as u64) as usize;
            b.insert(k, g.r.next() as u8);
        }
        5 => {
            let k = g.below(b.len() as u64) as usize;
            b.remove(k);
        }
        _ => {}
    }
    b
}
fn deep(g: &mut G) -> String {
    let n = g.pick(&[150, 300, 3000, 31_000, 31_500, 32_000]);
    format!("h/{}", "z/".repeat(n))
}
/// A well-formed packet with at most one thing wrong with it.
fn fluent(g: &mut G, ver: u8, cid: &str) -> Vec<u8> {
    let v5 = ver == 5;
    let pid = g.range(1, 3) as u16;
    let mut p = Pub { qos: g.below(3) as u8, topic: "h/a".into(), pid, payload: vec![g.below(2) as u8; g.pick(&[0, 1, 1, 500])], ..Default::default() };
    let pkt = match g.below(if v5 { 26 } else { 16 }) {
        0 => Pkt::Publish(p),
        1 => {
            p.retain = true;
            Pkt::Publish(p)
        }
        2 => {
            p.dup = true;
            Pkt::Publish(p)
        }
        3 => {
            p.topic = text(g);
            Pkt::Publish(p)
        }
        4 => {
            p.topic = deep(g);
            p.retain = g.pc(50);
            Pkt::Publish(p)
        }
        5 | 6 => Pkt::Ack { kind: g.range(4, 7) as u8, pid, code: 0 },
        7 => Pkt::Subscribe { pid, filters: vec![(deep(g), g.below(3) as u8)], props: vec![] },
        8 | 9 => Pkt::Subscribe { pid, filters: (0..g.range(1, 3)).map(|_| (text(g), g.below(3) as u8)).collect(), props: vec![] },
        10 => Pkt::Unsubscribe { pid, filters: vec![if g.pc(20) { deep(g) } else { text(g) }] },
        11 => {
            let n = g.range(10, 40);
            let mut b = Vec::new();
            for k in 0..n {
                (p.pid, p.qos) = (k as u16 + 1, 2);
                b.extend(wire::encode(&Pkt::Publish(p.clone()), ver));
            }
            return b;
        }
        12 => {
            let mut b = wire::encode(&Pkt::Publish(Pub { qos: 2, ..p.clone() }), ver);
            p.payload = vec![9];
            b.extend(wire::encode(&Pkt::Publish(Pub { qos: 2, dup: g.pc(50), ..p }), ver));
            return b;
        }
        13 => Pkt::Connect(Con { ver, cid: cid.into(), clean: g.pc(50), ..Default::default() }),
        14 => {
            let k = g.pick(&[0x20u8, 0x90, 0xb0, 0xd0]);
            return wire::frame(k, &[&[][..], &[0, 0], &[0, 1], &[0, 1, 0], &[0, 0, 0]][g.below(5) as usize]);
        }
        15 => Pkt::Pingreq,
        16 => {
            p.props = vec![(0x23, Val::U16(g.pick(&[0, 1, 2, 65535])))];
            Pkt::Publish(p)
        }
        17 | 18 => {
            p.props = vec![(0x23, Val::U16(g.pick(&[0, 1, 2, 9, 65535])))];
            p.topic = String::new();
            Pkt::Publish(p)
        }
        19 => {
            p.topic = String::new();
            Pkt::Publish(p)
        }
        20 => {
            p.props = vec![(0x0b, Val::Var(g.pick(&[1, 268_435_455])))];
            Pkt::Publish(p)
        }
        21 => {
            p.props = vec![(8, Val::Str(text(g))), (2, Val::U32(g.pick(&[0, 1, u32::MAX])))];
            Pkt::Publish(p)
        }
        22 => Pkt::Subscribe { pid, filters: vec![("$share/g/h/#".into(), g.pick(&[2u8, 4, 6, 0x30, 0x0e]))], props: vec![(0x0b, Val::Var(g.pick(&[0, 1, 268_435_455])))] },
        23 | 24 => {
            let mut props = vec![(0x15, Val::Str(g.pick(&["SCRAM-SHA-256", "SCRAM-SHA-1"]).into()))];
            if g.pc(80) {
                props.push((0x16, Val::Bin(g.pick(&[&b"n,,n=u,r=abcdefghijkl"[..], b"n,,n=nobody,r=abc", b"c=biws,r=abc,p=AAAA", b"c=biws,r=abc", b"p=", b"", b"\xff"]).to_vec())));
            }
            Pkt::Auth { code: g.pick(&[0, 0x18, 0x19]), props }
        }
        _ => Pkt::Disconnect { code: g.pick(&[0, 4, 0x81]), props: vec![(0x11, Val::U32(g.pick(&[0, 1, u32::MAX])))] },
    };
    wire::encode(&pkt, ver)
}
/// A CONNECT with at most one thing wrong with it.
fn fluent_connect(g: &mut G, ver: u8, cid: &str) -> Con {
    let mut con = Con { ver, cid: cid.into(), clean: g.pc(50), keep_alive: 30, ..Default::default() };
    let mut will = Will { topic: "h/will".into(), payload: vec![1], qos: g.below(3) as u8, retain: g.pc(30), props: vec![] };
    match g.below(if ver == 5 { 12 } else { 6 }) {
        0 => {
            will.topic = deep(g);
            con.will = Some(will);
        }
        1 => {
            will.topic = text(g);
            con.will = Some(will);
        }
        2 => (con.cid, con.clean) = (String::new(), g.pc(50)),
        3 => con.user = Some("u".into()),
        4 => con.pass = Some(b"p".to_vec()),
        5 => con.cid = g.pick(&["hostile\u{0}", "hostile/#"]).into(),
        6..=8 => {
            con.props.push((0x15, Val::Str(g.pick(&["SCRAM-SHA-256", "SCRAM-SHA-256", "SCRAM-SHA-1", "", "\u{fffd}"]).into())));
            if g.pc(90) {
                con.props.push((0x16, Val::Bin(g.pick(&[&b"n,,n=u,r=abcdefghijkl"[..], b"n,,n=u,r=abcdefghijkl", b"n,,n=nobody,r=abcdef", b"n,a=u,n=u,r=abc"]).to_vec())));
            }
        }
        9 => con.props.push((0x21, Val::U16(g.pick(&[0, 1])))),
        10 => con.props.push((0x27, Val::U32(g.pick(&[0, 1, 10, 30])))),
        _ => {
            will.props = vec![(0x18, Val::U32(g.pick(&[0, 1, u32::MAX]))), (2, Val::U32(0))];
            con.will = Some(will);
        }
    }
    con
}
fn raw(g: &mut G, ops: &mut Vec<Op>, b: &[u8]) {
    let b = &b[..b.len().min(70_000)];
    let (piece, gap) = match g.below(5) {
        0 => (g.range(1, 9) as usize, 0),
        1 => (b.len().div_ceil(2).max(1), 50),
        _ => (0, 0),
    };
    ops.push(Op::Raw { hex: hex(b), piece: if b.len() > 2000 { 0 } else { piece }, gap });
}
fn c14(g: &mut G) {
    g.sched();
    g.p.settle = 40;
    g.cfg("max_in_mem_pending_messages", json!(100_000));
    g.p.x = json!({"scram": [["u", "p", 5]]});
    g.listener("mqtt");
    for k in ["ws", "mqtts", "wss"] {
        if g.pc(35) {
            g.listener(k);
        }
    }
    if g.pc(25) {
        let l = g.listener("mqtt");
        g.p.fix_listen[l].proxy = g.pick(&["normal", "tls"]).into();
    }
    g.nets(3);
    // the healthy ones
    g.actor("base", vec![Op::Sleep(200), Op::Counters, Op::Sync(1)]);
    let (ns, np) = (g.range(1, 2), g.range(1, 2));
    for s in 0..ns {
        let ver = g.ver();
        let mut c = g.conn(&format!("sub{s}"), ver);
        (c.net, c.keep_alive) = (0, 30);
        let mut ops = vec![Op::Sync(1), Op::Connect(c.clone())];
        let f = g.pick(&["t/#", "t/+", "t/a"]);
        let q = g.range(1, 2) as u8;
        ops.push(Op::Sub { filters: vec![(f.into(), q)], sid: None, wait: 20_000 });
        ops.push(Op::Sync(2));
        if g.pc(40) {
            let ms = g.range(0, 3000);
            ops.push(Op::Sleep(ms));
            ops.push(if g.pc(50) { Op::Disconnect { code: 0, expiry: None } } else { Op::Cut('r') });
            let ms = g.range(100, 3000);
            ops.push(Op::Sleep(ms));
            ops.push(Op::Connect(c));
        }
        ops.push(Op::Sync(3));
        ops.push(Op::Ping(5000));
        g.actor(&format!("sub{s}"), ops);
    }
    for s in 0..np {
        let ver = g.ver();
        let mut c = g.conn(&format!("pub{s}"), ver);
        (c.net, c.keep_alive) = (0, 30);
        let mut ops = vec![Op::Sync(1), Op::Connect(c), Op::Sync(2)];
        for _ in 0..g.range(2, 8) {
            let n = g.pick(&[1, 2, 5, 10]);
            let p = PubP { topic: g.pick(&["t/a", "t/b"]).into(), qos: g.range(0, 2) as u8, tag: g.tags(n), pad: g.pick(&[0, 0, 300]), retain: g.pc(10), ..Default::default() };
            ops.push(Op::Burst { p, n });
            let ms = g.range(0, 1500);
            ops.push(Op::Sleep(ms));
        }
        ops.push(Op::Sync(3));
        ops.push(Op::WaitAcks(20_000));
        ops.push(Op::Ping(5000));
        g.actor(&format!("pub{s}"), ops);
    }
    // the others
    for k in 0..g.range(1, 4) {
        let cid = format!("hostile{k}");
        let mut ops = vec![Op::Sync(2)];
        for _ in 0..g.range(1, 4) {
            let ms = g.range(0, 1500);
            ops.push(Op::Sleep(ms));
            let ver = g.ver();
            let l = g.any_listener();
            let lst = g.p.fix_listen[l].clone();
            let net = g.any_net();
            let tame = g.pc(50);
            match g.below(10) {
                // after a proper CONNECT
                0..=4 => {
                    let mut c = ConnP { cid: cid.clone(), ver, clean: g.pc(50), listener: l, net, expiry: (ver == 5 && g.pc(50)).then_some(100), wait: 4000, ..Default::default() };
                    if ver == 5 && g.pc(30) {
                        c.rx_max = Some(g.range(1, 3) as u16);
                        c.max_packet = g.pc(50).then(|| g.range(1, 60) as u32);
                    }
                    if g.pc(30) {
                        c.will = Some(WillP { topic: "h/will".into(), tag: g.tag(), qos: g.below(3) as u8, retain: g.pc(30), ..Default::default() });
                    }
                    if lst.kind.starts_with("ws") && g.pc(40) {
                        c.ws = 8;
                    }
                    let broken_ws = c.ws == 8;
                    ops.push(Op::Connect(c));
                    if g.pc(40) {
                        ops.push(Op::Sub { filters: vec![("h/#".into(), 2)], sid: None, wait: 2000 });
                    }
                    if g.pc(20) {
                        ops.push(Op::Ack(Ack::Hold));
                    }
                    let mut b = Vec::new();
                    for _ in 0..g.range(1, 6) {
                        if broken_ws {
                            let f: &[u8] = g.pick(&[
                                &b"\x81\x85\0\0\0\0hello"[..], b"\x82\x05\xc0\0\0\0\0", b"\xc2\x82\0\0\0\0\xc0\0", b"\x88\x80\0\0\0\0", b"\x88\x82\0\0\0\0\x03\xe8", b"\x88\x81\0\0\0\0\x03", b"\x82\xff\x7f\xff\xff\xff\xff\xff\xff\xff\0\0\0\0",
                                b"\x82\xff\0\0\0\0\x10\0\0\0\0\0\0\0", b"\x80\x82\0\0\0\0\xc0\0", b"\x02\x81\0\0\0\0\xc0", b"\x8a\x80\0\0\0\0", b"\x89\xff\0\0\0\0\0\0\0\x80\0\0\0\0", b"\x83\x80\0\0\0\0", b"\x82\x80\0\0\0\0", b"\x82\x82\0\0\0\0\xc0\0", b"\x89\x84\x01\x02\x03\x04ping",
                            ]);
                            b.extend(f);
                        } else {
                            let x = if tame { fluent(g, ver, &cid) } else { packet(g, ver, &cid) };
                            b.extend(x);
                        }
                        if g.pc(40) {
                            raw(g, &mut ops, &b);
                            b.clear();
                            let ms = g.pick(&[0, 1, 100]);
                            ops.push(Op::Sleep(ms));
                        }
                    }
                    raw(g, &mut ops, &b);
                }
                // instead of a proper CONNECT
                5..=7 => {
                    ops.push(Op::Open { listener: l, net, full: true, ver });
                    let c = if tame { fluent_connect(g, ver, &cid) } else { connect(g, ver, &cid) };
                    let mut b = wire::encode(&Pkt::Connect(c), ver);
                    for _ in 0..if tame { 0 } else { g.below(3) } {
                        let k = g.below(b.len().min(60) as u64) as usize;
                        match g.below(4) {
                            0 => b[k] = g.r.next() as u8,
                            1 => b[k] ^= 1 << g.below(8),
                            2 => b.truncate(k.max(1)),
                            _ => b.insert(k, g.r.next() as u8),
                        }
                    }
                    for _ in 0..g.below(4) {
                        let x = if tame { fluent(g, ver, &cid) } else { packet(g, ver, &cid) };
                        b.extend(x);
                    }
                    raw(g, &mut ops, &b);
                }
                // below MQTT
                _ => {
                    ops.push(Op::Open { listener: l, net, full: false, ver });
                    let mut b: Vec<u8> = Vec::new();
                    if !lst.proxy.is_empty() && g.pc(60) {
                        b.extend(crate::client::proxy_header(&lst.proxy, k as usize));
                        if g.pc(60) {
                            let i = g.below(b.len() as u64) as usize;
                            b[i] = g.r.next() as u8;
                        }
                    }
                    let more: Vec<u8> = match g.below(6) {
                        0 => (0..g.range(1, 300)).map(|_| g.r.next() as u8).collect(),
                        1 => {
                            let mut h = vec![0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3];
                            h.resize(11 + g.range(0, 600) as usize, 7);
                            h
                        }
                        2 => [&[0x16, 3, 3, 0xff, 0xff][..], &[0x15, 3, 3, 0, 2, 1, 0], &[0x17, 3, 3, 0, 1, 0]][g.below(3) as usize].to_vec(),
                        3 => b"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: nothing\r\n\r\n".to_vec(),
                        4 => format!("GET /mqtt HTTP/1.1\r\nHost: x\r\nX: {}\r\n", "y".repeat(g.range(1, 60_000) as usize)).into_bytes(),
                        _ => {
                            let c = connect(g, ver, &cid);
                            wire::encode(&Pkt::Connect(c), ver)
                        }
                    };
                    b.extend(more);
                    raw(g, &mut ops, &b);
                }
            }
            match g.below(5) {
                0 => {
                    let k = g.pick(&['r', 'f']);
                    ops.push(Op::Cut(k));
                }
                _ => ops.push(Op::AwaitClose(2500)),
            }
        }
        ops.push(Op::Cut('r'));
        ops.push(Op::Sync(3));
        g.actor(&cid, ops);
    }
    // and one that comes afterwards
    let ver = g.ver();
    let mut c = g.conn("late", ver);
    (c.net, c.keep_alive, c.clean, c.expiry) = (0, 30, true, None);
    g.actor("late", vec![Op::Sync(3), Op::Connect(c), Op::Ping(5000)]);
}
fn healthy(v: &View, a: usize) -> bool {
    !v.name(a).starts_with("hostile")
}
fn j14(v: &View, o: &mut Outcome) {
    let bad = |c: &Conn| !healthy(v, c.actor);
    o.stat("hostile connections", v.conns[1..].iter().filter(|c| bad(c)).count() as u64);
    o.stat("of them ended by the broker", v.conns[1..].iter().filter(|c| bad(c) && matches!(c.end, Some((_, Ev::Closed(_))))).count() as u64);
    check_delivery(v, o, "C14");
    check_order(v, o, "C14");
    answered_of(v, o, "C14", &|a| healthy(v, a));
    for c in v.conns[1..].iter().filter(|c| healthy(v, c.actor)) {
        if v.dropped(c).is_some() {
            o.fail("C14.dropped", format!("connection {} of {} was ended by the broker, which sent nothing wrong", c.id, v.name(c.actor)));
        }
        if !c.ok() && (c.fail.is_some() || c.sent.is_some_and(|i| v.t(i) + 5 * SEC < v.end)) {
            o.fail("C14.refused", format!("{} was not accepted", v.name(c.actor)));
        }
        // the session it came back to
        let before = v.of(c.actor).filter(|d| d.id < c.id && d.ok()).last();
        if let Some(b) = before {
            if !c.p.clean && c.ok() && !c.sp() && !b.p.clean {
                o.fail("C14.session", format!("the session of {} was gone when it came back", v.name(c.actor)));
            }
        }
    }
    for a in (0..v.plan.actors.len()).filter(|a| healthy(v, *a)) {
        if v.skips(a, "no PINGRESP") + v.skips(a, "not all acknowledged") + v.skips(a, "no SUBACK") > 0 {
            o.fail("C14.unserved", format!("{} was not answered in time", v.name(a)));
        }
        // QoS 0 too, for those who stayed all the time
        for s in v.subs.iter().filter(|s| s.actor == a && s.granted().is_some() && v.steady(a)) {
            for p in v.pubs.values().filter(|p| p.tag > 0 && healthy(v, p.actor) && p.out > s.ack.unwrap() && v.steady(p.actor) && matches(&s.filter, &p.topic)) {
                let n = v.apps.iter().filter(|x| x.actor == a && x.tag == p.tag).count();
                if n != 1 && p.qos != 1 {
                    o.fail("C14.messages", format!("{} received message {} of {} (QoS {}) {n} times", v.name(a), p.tag, v.name(p.actor), p.qos));
                }
            }
        }
    }
    if let (Some(first), Some(last)) = (v.counters().first(), v.counters().last()) {
        let live = v.conns[1..].iter().filter(|c| c.live()).count() as u64;
        let open = v.conns[1..].iter().filter(|c| bad(c) && c.end.is_none() && c.fail.is_none()).count() as u64;
        if first.1 == 0 && first.2 == 0 && last.0 > first.0 && (last.1 < live || last.1 > live + open) {
            o.fail("C14.counters", format!("{} clients are online, {live} connections are served", last.1));
        }
    }
}
