//! C10, C11, C12: wills, keep-alive, unfinished handshakes.
use super::*;
use crate::client::{Ev, MS, Ns, SEC};
use crate::props::sessions::hex;
use crate::view::*;
use crate::wire::Pkt;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            budget: (14000, 45),
            plan: c10,
            judge: j10,
            rule: "the will of an accepted connection arrives at steady QoS 2 watchers exactly once, in the time its end, delay and session expiry allow; never after a normal DISCONNECT, a refused CONNECT, or when the session was continued before the delay passed; retained if asked",
            note: "wills with delays on connections that end by DISCONNECT, loss, silence, protocol errors and takeover, with returns before and after delay and expiry, while two watchers listen and a late subscriber looks for what was retained",
        },
        Prop {
            id: "C11",
            budget: (14000, 45),
            plan: c11,
            judge: j11,
            rule: "a connection without packets for keep-alive K is closed no earlier than 1.5 K and within 2.5 K + 4 s; one with a packet every K seconds is not closed, whatever earlier connections of the client did; the K in CONNACK is the one enforced",
            note: "chains of connections with different K, active with all kinds of packets or silent, sending fragments only, not reading, or gone without a trace; takeovers; bounds for K; steps of the system clock",
        },
        Prop {
            id: "C12",
            budget: (14000, 45),
            plan: c12,
            judge: j12,
            rule: "a connection without a successful CONNECT is closed within 5 s + 1.5 s of its beginning and leaves no client, counter or task; one that completes it in time stays",
            note: "prefixes of PROXY header, TLS, WebSocket upgrade, CONNECT and SCRAM exchange on all listeners, whole, in pieces and byte by byte, slow ones that make it in time, and malformed or refused CONNECTs",
        },
    ]
}

// ------------------------------------------------------------------ C10

/// Bytes no server accepts after CONNECT.
pub fn poison(g: &mut G, ver: u8) -> String {
    let v = ["0000", "f000", "360500016100 01", "30ffffffff7f", "8003000100", "820200 01", "3006000261ff0001", "1000", "6000", "300500032b2f23"];
    let s = g.pick(&v).replace(' ', "");
    if g.pc(20) { hex(&wire::encode(&Pkt::Connect(wire::Con { ver, cid: "again".into(), clean: true, ..Default::default() }), ver)) } else { s }
}
fn c10(g: &mut G) {
    g.sched();
    g.listeners(10);
    g.nets(3);
    g.p.settle = g.pick(&[5, 30]);
    if g.pc(15) {
        g.cfg("max_session_expiry_interval", json!(8));
    }
    for (name, ver) in [("wv5", 5u8), ("wv4", 4)] {
        let mut c = g.conn(name, ver);
        (c.net, c.listener) = (0, 0);
        g.actor(name, vec![Op::Connect(c), Op::Sub { filters: vec![("w/#".into(), 2 | 8)], sid: None, wait: 20_000 }, Op::Sync(1), Op::Sync(2)]);
    }
    let noise = g.pc(25);
    if noise {
        let mut c = g.conn("noise", 5);
        c.net = 0;
        let mut ops = vec![Op::Connect(c), Op::Sync(1)];
        for _ in 0..g.range(2, 8) {
            let n = g.range(1, 40);
            let p = PubP { topic: "n/1".into(), qos: g.below(2) as u8, tag: g.tags(n), pad: g.pick(&[0, 100, 3000]), quota_wait: Some(2000), ..Default::default() };
            ops.push(Op::Burst { p, n });
            let ms = g.range(100, 4000);
            ops.push(Op::Sleep(ms));
        }
        ops.push(Op::Sync(2));
        g.actor("noise", ops);
    }
    let n = g.range(1, 4);
    for k in 0..n {
        let ver = g.ver();
        let cid = if k > 0 && g.pc(25) { "c0".to_string() } else { format!("c{k}") };
        let mut ops = vec![Op::Sync(1)];
        for j in 0..g.range(1, 4) {
            let v = if g.pc(88) { ver } else { g.ver() };
            let e = g.pick(&[0u32, 0, 3, 10, 10, 25, 1000, u32::MAX]);
            let d = g.pick(&[0u32, 0, 1, 5, 5, 12, 40]);
            let will = g.pc(90).then(|| WillP {
                topic: format!("w/{k}/{j}"),
                tag: g.tag(),
                qos: g.below(3) as u8,
                retain: g.pc(35),
                delay: (v == 5 && (d > 0 || g.pc(20))).then_some(d),
                expiry: (v == 5 && g.pc(15)).then_some(1000),
            });
            let mut c = ConnP {
                cid: cid.clone(),
                ver: v,
                clean: g.pc(30),
                expiry: (v == 5 && (e > 0 || g.pc(50))).then_some(e),
                keep_alive: g.pick(&[0, 0, 10, 11]),
                listener: g.any_listener(),
                net: g.any_net(),
                ping: true,
                will,
                ..Default::default()
            };
            if g.pc(12) {
                c.ping = false;
                c.keep_alive = 10;
            }
            if g.pc(12) {
                let dir = g.below(2) as usize;
                c.cut = Some((dir, g.range(0, 120), if dir == 0 { g.cut() } else { 'r' }));
            }
            let idle = !c.ping;
            ops.push(Op::Connect(c));
            if noise && g.pc(50) {
                ops.push(Op::Sub { filters: vec![("n/#".into(), 1)], sid: None, wait: 3000 });
                if g.pc(50) {
                    ops.push(Op::Read(false));
                }
            }
            if g.pc(25) {
                let n = g.range(1, 10);
                let p = PubP { topic: "o/1".into(), qos: g.below(3) as u8, tag: g.tags(n), quota_wait: Some(500), ..Default::default() };
                ops.push(Op::Burst { p, n });
            }
            let ms = g.pick(&[0, 0, 20, 2000]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
            let mut e2 = e;
            let mut closed = true;
            match g.below(10) {
                0 | 1 => {
                    let ne = if v == 5 && e > 0 && g.pc(30) { Some(g.pick(&[0, 3, 25])) } else { None };
                    e2 = ne.unwrap_or(e);
                    let code = if v == 5 { g.pick(&[0, 0, 4, 4, 0x80, 0x93]) } else { 0 };
                    ops.push(Op::Disconnect { code, expiry: ne });
                }
                2..=4 => {
                    let c = g.cut();
                    ops.push(Op::Cut(c));
                }
                5 => {
                    let h = poison(g, v);
                    ops.push(Op::Raw { hex: h, piece: 0, gap: 0 });
                    ops.push(Op::AwaitClose(3000));
                    ops.push(Op::Close);
                }
                6 if idle => ops.push(Op::AwaitClose(30_000)),
                7 => {
                    let k = if g.pc(50) { 'r' } else { 'f' };
                    ops.push(Op::CutAfter { dir: 0, bytes: g.range(0, 60), kind: k });
                    let p = PubP { topic: "o/2".into(), qos: g.below(3) as u8, tag: g.tags(5), pad: 20, quota_wait: Some(300), ..Default::default() };
                    ops.push(Op::Burst { p, n: 5 });
                    ops.push(Op::AwaitClose(500));
                }
                _ => closed = false,
            }
            let w = d.min(if v == 5 { e2 } else { 0 }) as u64;
            let gap = match g.below(6) {
                0 | 1 => g.range(0, 300),
                2 if w > 2 => (w - 2) * 1000 + g.range(0, 700),
                3 => w * 1000 + g.range(2500, 4500),
                4 => w * 1000 + g.range(0, 2000),
                _ => g.range(0, 12_000),
            };
            if closed || g.pc(50) {
                ops.push(Op::Sleep(gap));
            }
            if g.pc(4) {
                let ms = g.pick(&[-3_600_000, -20_000, 20_000, 3_600_000]);
                ops.push(Op::Jump(ms));
            }
        }
        if g.pc(25) {
            let mut c = g.conn(&cid, ver);
            c.clean = g.pc(30);
            ops.push(Op::Connect(c));
        }
        ops.push(Op::Sync(2));
        g.actor(&format!("c{k}"), ops);
    }
    let ms = g.pick(&[2500, 2500, 30_000]);
    let v = g.pick(&[4, 5]);
    let mut c = g.conn("late", v);
    (c.net, c.listener) = (0, 0);
    g.actor("late", vec![Op::Sync(2), Op::Sleep(ms), Op::Connect(c), Op::Sub { filters: vec![("w/#".into(), 2 | 8)], sid: None, wait: 20_000 }]);
}
/// Seconds of keep-alive the broker enforces on an accepted connection.
pub fn keep(c: &Conn) -> u64 {
    wire::prop_u(c.props(), 0x13).unwrap_or(c.p.keep_alive as u64)
}
/// Between which times the broker came to know that the connection ended, apart from takeover.
fn ended(v: &View, c: &Conn) -> (Ns, Ns) {
    let inf = Ns::MAX / 4;
    let last = c.outs.last().map_or(0, |i| v.t(*i));
    let quiet = match keep(c) {
        0 => inf,
        k => last + k * SEC * 5 / 2 + 3 * SEC,
    };
    match &c.end {
        // silence began at some time
        _ if c.p.cut.is_some_and(|x| x.2 == 's') => (0, quiet),
        None => (if c.hurt || c.p.cut.is_some() { 0 } else { v.end }, quiet),
        Some((i, Ev::Cut('s'))) => (v.t(*i), quiet),
        Some((i, Ev::Cut(_))) => (v.t(*i), v.t(*i) + 2 * SEC),
        Some((i, _)) => (v.t(*i).saturating_sub(2 * SEC), v.t(*i) + 2 * SEC),
    }
}
fn j10(v: &View, o: &mut Outcome) {
    let Some(late) = v.plan.actors.iter().position(|a| a.name == "late") else { return };
    let watchers: Vec<usize> = (0..v.plan.actors.len()).filter(|a| v.plan.actors[*a].name.starts_with("wv")).collect();
    let inf = Ns::MAX / 4;
    let (mut must, mut never, mut cancelled, mut kept) = (0, 0, 0, 0);
    for w in watchers {
        if !v.steady(w) {
            continue;
        }
        let Some(sub) = v.subs.iter().find(|s| s.actor == w && s.granted() == Some(2) && s.filter == "w/#").and_then(|s| s.ack) else { continue };
        for c in v.conns[1..].iter().filter(|c| !c.raw && c.sent.is_some_and(|s| s > sub)) {
            let Some(will) = &c.p.will else { continue };
            let got: Vec<&AppR> = v.apps.iter().filter(|a| a.actor == w && a.tag == will.tag).collect();
            let n = got.len();
            let what = format!("the will {} of connection {} ({})", will.tag, c.id, c.p.cid);
            if n > 1 {
                o.fail("C10.twice", format!("{what} was published {n} times"));
                continue;
            }
            if let Some(a) = got.first() {
                if a.topic != will.topic || a.qos != will.qos || v.name(w) == "wv5" && a.retain != will.retain {
                    o.fail("C10.changed", format!("{what} arrived on {} with QoS {} and retain {}, not {} {} {}", a.topic, a.qos, a.retain, will.topic, will.qos, will.retain));
                }
            }
            // what was retained
            if let Some(ls) = v.subs.iter().find(|s| s.actor == late && s.granted().is_some()) {
                let la: Vec<&AppR> = v.apps.iter().filter(|a| a.actor == late && a.tag == will.tag).collect();
                let before = got.first().is_some_and(|a| v.t(a.i) + SEC < v.t(ls.out));
                if before && v.steady(late) && v.end > v.t(ls.ack.unwrap()) + 3 * SEC {
                    kept += 1;
                    if will.retain != (la.len() == 1) {
                        o.fail("C10.retain", format!("{what} (retain = {}) was found {} times by a later subscriber", will.retain, la.len()));
                    } else if la.iter().any(|a| !a.retain) {
                        o.fail("C10.retain", format!("{what} was sent to a later subscriber without the retain flag"));
                    }
                }
            }
            if !c.ok() {
                if c.ack.is_some() && n > 0 {
                    o.fail("C10.refused", format!("{what}, which was refused, was published"));
                }
                continue;
            }
            let ack = c.ack.as_ref().unwrap().0;
            // other connections of the client that may have reached the broker after this one
            let maybe: Vec<&Conn> = v
                .by_cid(&c.p.cid)
                .filter(|d| d.id != c.id && d.sent.is_some())
                .filter(|d| match &d.ack {
                    Some(a) => a.0 > c.sent.unwrap(),
                    None => d.end.as_ref().is_none_or(|e| v.t(e.0) + 2 * SEC > v.t(c.sent.unwrap())),
                })
                .collect();
            let sure: Vec<&Conn> = maybe.iter().filter(|d| d.sent.unwrap() > ack).copied().collect();
            let amb = maybe.len() > sure.len();
            if let Some((i, 0, x)) = c.disc {
                let bad = c.p.ver == 5 && c.p.expiry.unwrap_or(0) == 0 && x.unwrap_or(0) > 0;
                let raw = c.outs.iter().any(|i| matches!(v.recs[*i].ev, Ev::RawOut(_)));
                let rival = maybe.iter().any(|d| v.t(d.open) < v.t(i) + SEC);
                let idle = keep(c) > 0 && !c.p.ping;
                // what the broker writes to a closed connection makes it fail before it has read all
                let busy = v.subs.iter().any(|s| v.conns[s.conn].p.cid == c.p.cid);
                if !c.hurt && c.p.cut.is_none() && !bad && !raw && !rival && !idle && !busy && c.in_disc.is_none() {
                    never += 1;
                    if n > 0 {
                        o.fail("C10.normal", format!("{what} was published although the connection ended with a normal DISCONNECT"));
                    }
                }
                continue;
            }
            if c.live() && !c.hurt && !c.slow && c.p.cut.is_none() && maybe.is_empty() {
                never += 1;
                if got.iter().any(|a| v.t(a.i) + 2 * SEC < v.end) {
                    o.fail("C10.alive", format!("{what} was published although the connection is open"));
                }
                continue;
            }
            // whether the expiry of a DISCONNECT was in force is open
            if let Some((i, _, Some(_))) = c.disc {
                let busy = v.subs.iter().any(|s| v.conns[s.conn].p.cid == c.p.cid);
                if busy || c.hurt || c.p.cut.is_some() || maybe.iter().any(|d| v.t(d.open) < v.t(i) + SEC) {
                    continue;
                }
            }
            let (mut lo, mut hi) = ended(v, c);
            let next = sure.iter().filter(|d| d.ok()).min_by_key(|d| d.ack.as_ref().unwrap().0);
            if let Some(d) = next {
                hi = hi.min(v.t(d.ack.as_ref().unwrap().0));
            }
            for d in &sure {
                lo = lo.min(v.t(d.sent.unwrap()));
            }
            // a client that does not read does not see that the broker closed the connection
            if amb || c.slow {
                lo = lo.min(if amb { 0 } else { v.t(ack) });
            }
            let e = v.expiry_of(c);
            let d = will.delay.unwrap_or(0) as u64;
            let wait = if c.p.ver < 5 { 0 } else { d.min(e) } * SEC;
            let (mut from, mut to) = (lo + wait, (hi + wait).min(inf));
            if wait > 0 {
                if amb || sure.iter().any(|u| u.ack.is_none() && v.t(u.sent.unwrap()) < to + 2 * SEC) {
                    continue;
                }
                if next.is_some_and(|d| sure.iter().any(|u| u.id != d.id && u.sent.unwrap() < d.ack.as_ref().unwrap().0)) {
                    continue;
                }
                if let Some(d) = next {
                    let (sd, ad) = (v.t(d.sent.unwrap()), v.t(d.ack.as_ref().unwrap().0));
                    if !d.sp() {
                        from = from.min(sd);
                        to = to.min(ad);
                    } else if ad + SEC < from {
                        cancelled += 1;
                        if n > 0 {
                            o.fail("C10.cancel", format!("{what} was published although connection {} continued the session {:.3} s before it was due", d.id, (from - ad) as f64 / 1e9));
                        }
                        continue;
                    } else if sd <= to + 3 * SEC {
                        continue;
                    }
                }
            }
            match got.first() {
                None if to + 3 * SEC < v.end => {
                    o.fail("C10.missing", format!("{what} was not published, it was due by {:.3} s", to as f64 / 1e9));
                }
                Some(a) if v.t(a.i) + SEC / 2 < from => {
                    o.fail("C10.early", format!("{what} was published at {:.3} s, before {:.3} s", v.t(a.i) as f64 / 1e9, from as f64 / 1e9));
                }
                Some(a) if v.t(a.i) > to + 3 * SEC => {
                    o.fail("C10.late", format!("{what} was published at {:.3} s, it was due by {:.3} s", v.t(a.i) as f64 / 1e9, to as f64 / 1e9));
                }
                _ => must += 1,
            }
        }
    }
    let _ = MS;
    o.stat("wills due", must);
    o.stat("wills never due", never);
    o.stat("wills cancelled", cancelled);
    o.stat("retained wills looked for", kept);
}

// ------------------------------------------------------------------ C11

fn c11(g: &mut G) {
    g.sched();
    g.listeners(20);
    g.nets(3);
    let min = g.pick(&[0u16, 0, 2, 5, 10]);
    g.cfg("min_keep_alive", json!(min));
    let max = g.pick(&[65535u16, 65535, 12, 20]);
    g.cfg("max_keep_alive", json!(max));
    let mut longest = 0;
    let n = g.range(1, 5);
    let deaf = g.pc(30);
    if deaf {
        let mut c = g.conn("noise", 4);
        (c.net, c.ping) = (0, false);
        let mut ops = vec![Op::Connect(c)];
        for _ in 0..g.range(2, 12) {
            let n = g.range(1, 30);
            let p = PubP { topic: "n/1".into(), qos: g.below(3) as u8, tag: g.tags(n), pad: g.pick(&[0, 100, 3000]), quota_wait: Some(2000), ..Default::default() };
            ops.push(Op::Burst { p, n });
            let ms = g.range(100, 6000);
            ops.push(Op::Sleep(ms));
        }
        g.actor("noise", ops);
    }
    for k in 0..n {
        let ver = g.ver();
        let cid = if k > 0 && g.pc(20) { "k0".to_string() } else { format!("k{k}") };
        let mut ops = Vec::new();
        for _ in 0..g.range(1, 4) {
            let v = if g.pc(90) { ver } else { g.ver() };
            let ka = g.pick(&[0u16, 1, 2, 2, 5, 10, 15, 30]);
            let eff = if v == 5 { ka.clamp(min, max.max(min)) } else { ka } as u64;
            longest = longest.max(eff);
            let c = ConnP { cid: cid.clone(), ver: v, clean: g.pc(50), expiry: (v == 5 && g.pc(60)).then_some(1000), keep_alive: ka, listener: g.any_listener(), net: g.any_net(), ..Default::default() };
            ops.push(Op::Connect(c));
            if deaf && g.pc(40) {
                ops.push(Op::Sub { filters: vec![("n/#".into(), 2)], sid: None, wait: 500 });
                if g.pc(70) {
                    ops.push(Op::Read(false));
                }
            }
            if eff > 0 && g.pc(65) {
                // active
                for _ in 0..g.range(2, 9) {
                    let part = g.pick(&[30, 70, 95, 98]);
                    let ms = (eff * 10 * part).saturating_sub(g.range(0, 100)).max(50);
                    ops.push(Op::Sleep(ms));
                    match g.below(6) {
                        0..=2 => ops.push(Op::Ping(0)),
                        3 => ops.push(Op::Sub { filters: vec![("own/#".into(), 1)], sid: None, wait: 0 }),
                        4 => ops.push(Op::Unsub { filters: vec!["own/#".into()], wait: 0 }),
                        _ => {
                            let p = PubP { topic: format!("own/{k}"), qos: g.below(3) as u8, tag: g.tag(), pad: g.pick(&[0, 0, 2000]), quota_wait: Some(1), ..Default::default() };
                            ops.push(Op::Pub(p));
                        }
                    }
                }
            }
            let span = eff * 2500 + 5000;
            match g.below(8) {
                0 | 1 => ops.push(Op::AwaitClose(span)),
                2 => {
                    // fragments of a packet that does not end
                    let b = [&[0x30u8, 0xff, 0x03, 0, 1, b'o'][..], &[7u8; 40]].concat();
                    ops.push(Op::Raw { hex: hex(&b), piece: 1, gap: eff * 500 });
                    ops.push(Op::AwaitClose(span));
                }
                3 => ops.push(Op::Disconnect { code: 0, expiry: None }),
                4 | 5 => {
                    let c = g.cut();
                    ops.push(Op::Cut(c));
                }
                6 => {
                    let part = g.range(0, 149);
                    ops.push(Op::Sleep(eff * 10 * part));
                }
                _ => {}
            }
            let ms = g.pick(&[0, 5, 500, 3000]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
            if g.pc(6) {
                let ms = g.pick(&[-3_600_000, -20_000, 20_000, 3_600_000]);
                ops.push(Op::Jump(ms));
            }
        }
        g.actor(&format!("k{k}"), ops);
    }
    g.p.settle = longest * 5 / 2 + 8;
}
fn j11(v: &View, o: &mut Outcome) {
    let (mut early, mut closed, mut active) = (0u64, 0u64, 0u64);
    let (mut gone, mut there, mut open_q) = (0u64, 0u64, 0u64);
    for c in v.conns[1..].iter().filter(|c| !c.raw && c.ok()) {
        let k = keep(c) * SEC;
        if c.p.ver == 5 {
            let (min, max) = (v.plan.cfg["min_keep_alive"].as_u64().unwrap_or(10), v.plan.cfg["max_keep_alive"].as_u64().unwrap_or(65535));
            let due = (c.p.keep_alive as u64).min(max).max(min);
            if keep(c) != due && min <= max {
                o.fail("C11.bounds", format!("connection {} asked for keep-alive {} within [{min}, {max}] and was told {}", c.id, c.p.keep_alive, keep(c)));
            }
        }
        let ack = v.t(c.ack.as_ref().unwrap().0);
        // acknowledgements sent meanwhile complete the packet that was not to end
        let fragment = c.outs.iter().position(|i| matches!(v.recs[*i].ev, Ev::RawOut(_)));
        if fragment.is_some_and(|f| c.outs[f..].iter().any(|i| !matches!(v.recs[*i].ev, Ev::RawOut(_)))) {
            open_q += 1;
            continue;
        }
        let raw = c.outs.iter().any(|i| matches!(v.recs[*i].ev, Ev::RawOut(_)));
        // what is sent after the first fragment belongs to that packet
        let at: Vec<Ns> = c.outs.iter().take_while(|i| !matches!(v.recs[**i].ev, Ev::RawOut(_))).map(|i| v.t(*i)).collect();
        let rival = v.by_cid(&c.p.cid).any(|d| d.id != c.id && d.sent.is_some() && (d.actor != c.actor || d.id > c.id) && c.end.as_ref().is_none_or(|e| d.open < e.0));
        let last = at.last().copied().unwrap_or(ack);
        if let (Some((i, Ev::Closed(_))), false) = (&c.end, c.hurt) {
            let te = v.t(*i);
            if c.disc.is_none() && !rival && c.fail.is_none() {
                let prev = at.iter().copied().filter(|t| t + SEC / 2 <= te).max().unwrap_or(ack);
                // a client that does not read notices the end late
                // and what it sends may not be read while it does not take what it subscribed to
                let narrow = v.plan.fix_nets.get(c.p.net).is_some_and(|n| n.win.1 > 0 || n.rate > 0);
                let stuffed = (c.slow || narrow) && v.subs.iter().any(|s| s.conn == c.id || v.conns[s.conn].p.cid == c.p.cid);
                let silent = stuffed || c.slow && [ack].iter().chain(&at).zip(at.iter()).any(|(a, b)| b + SEC / 2 >= a + k * 3 / 2);
                let bad = c.in_disc.is_some_and(|d| d.1 != 0x8d);
                if k == 0 && !raw || k > 0 && !silent && te < prev + k * 3 / 2 - SEC / 2 {
                    o.fail(
                        "C11.early",
                        format!("connection {} of {} with keep-alive {} s was closed {:.3} s after its last packet{}", c.id, c.p.cid, keep(c), (te - prev) as f64 / 1e9, if bad { " with another reason" } else { "" }),
                    );
                }
                closed += 1;
            }
        } else {
            active += 1;
        }
        early += 1;
        if k == 0 || c.hurt {
            open_q += (c.live() || c.hurt || c.slow || matches!(c.end, Some((_, Ev::Cut('s'))))) as u64;
            continue;
        }
        // closed in time?
        let bound = k * 5 / 2 + 4 * SEC;
        let end = c.end.as_ref().map_or(v.end, |e| v.t(e.0)).min(c.disc.map_or(u64::MAX, |d| v.t(d.0)));
        let mut p = ack;
        for t in at.iter().copied().chain([end]) {
            if t > p + bound && !c.slow && !rival {
                o.fail("C11.late", format!("connection {} of {} with keep-alive {} s was not closed {:.3} s after its last packet", c.id, c.p.cid, keep(c), (t - p) as f64 / 1e9));
                break;
            }
            p = t;
        }
        // the client cannot see whether the broker still has it
        if c.slow || matches!(c.end, Some((_, Ev::Cut('s')))) {
            if last + bound + 2 * SEC < v.end {
                gone += 1;
            } else {
                open_q += 1;
            }
        } else if c.live() && !rival {
            there += 1;
            open_q += (last + k * 3 / 2 < v.end + SEC) as u64;
        }
    }
    if let Some((_, online, _, _)) = v.counters().last() {
        if gone > 0 && *online > there + open_q {
            o.fail("C11.ghost", format!("{online} clients are online, at most {} connections can be: {gone} clients were silent for longer than their keep-alive allows", there + open_q));
        }
    }
    o.stat("connections judged", early);
    o.stat("closed for silence", closed);
    o.stat("silent without seeing the end", gone);
    o.stat("ended otherwise", active);
}

// ------------------------------------------------------------------ C12

fn c12(g: &mut G) {
    g.sched();
    g.cfg("min_keep_alive", json!(0));
    let all = ["mqtt", "ws", "mqtts", "wss"];
    for k in all {
        if k == "mqtt" || g.pc(45) {
            let l = g.listener(k);
            if g.pc(35) {
                g.p.fix_listen[l].proxy = if k.ends_with('s') && k != "ws" || g.pc(50) { "normal".into() } else { "tls".into() };
            }
        }
    }
    g.nets(3);
    g.p.x = json!({"users": [["u", "p", 2]]});
    g.p.settle = 9;
    g.actor("base", vec![Op::Sleep(500), Op::Counters, Op::Sync(1)]);
    for k in 0..g.range(2, 7) {
        let name = format!("h{k}");
        let ver = g.ver();
        let l = g.any_listener();
        let lst = g.p.fix_listen[l].clone();
        let net = g.any_net();
        let mut ops = vec![Op::Sync(1)];
        let ms = g.range(0, 1500);
        ops.push(Op::Sleep(ms));
        let mut con = wire::Con { ver, cid: name.clone(), clean: g.pc(60), ..Default::default() };
        if ver == 5 && g.pc(30) {
            con.props.push((0x11, wire::Val::U32(1000)));
        }
        let good = g.pc(30);
        let scram = !good && ver == 5 && g.pc(40);
        if scram {
            con.props.push((0x15, wire::Val::Str("SCRAM-SHA-256".into())));
            con.props.push((0x16, wire::Val::Bin(b"n,,n=user,r=0123456789abcdef".to_vec())));
        }
        let b = wire::encode(&Pkt::Connect(con.clone()), ver);
        if good {
            let net = if g.pc(50) { 0 } else { net };
            let n = b.len() as u64;
            let piece = match g.below(4) {
                0 => (0, 0),
                1 => (1, g.range(1, 3500 / n)),
                2 => (b.len() / 2 + 1, g.range(100, 3500)),
                _ => (b.len() - 1, g.range(100, 3500)),
            };
            ops.push(Op::Connect(ConnP { cid: name.clone(), ver, clean: con.clean, listener: l, net, piece, ..Default::default() }));
            let ms = g.range(1000, 9000);
            ops.push(Op::Sleep(ms));
            ops.push(Op::Ping(2000));
            let ms = g.range(0, 3000);
            ops.push(Op::Sleep(ms));
            ops.push(Op::Disconnect { code: 0, expiry: Some(0) });
            g.actor(&name, ops);
            continue;
        }
        let mut bytes: Vec<u8> = Vec::new();
        let mut full = true;
        if scram || g.pc(45) {
            // MQTT over complete layers
            let n = if scram { b.len() } else { g.range(0, b.len() as u64 - 1) as usize };
            bytes.extend(&b[..n]);
            if scram && g.pc(40) {
                let x: &[u8] = g.pick(&[&b"\xc0\x00"[..], &b"\xf0"[..], &b"\xf0\x02\x18\x00"[..], &b"\xf0\x1a\x18\x18\x15\x00\x0dSCRAM-SHA-256\x16\x00\x05c=biw"[..], &b"\xf0\x30"[..]]);
                bytes.extend(x);
            }
            if g.pc(25) && !scram {
                // something else
                bytes = match g.below(6) {
                    0 => vec![0xc0, 0],
                    1 => vec![0x10, 0xff, 0xff, 0xff, 0xff, 0xff],
                    2 => (0..g.range(1, 200)).map(|_| g.r.next() as u8).collect(),
                    3 => b"\x10\x10\x00\x04MQTX\x04\x02\x00\x00\x00\x04abcd".to_vec(),
                    4 => b"\x10\xff\xff\xff\x7f\x00\x04MQTT\x05\x02\x00\x00".to_vec(),
                    _ => b"\x10\x10\x00\x04MQTT\x04\x01\x00\x00\x00\x04abcd".to_vec(),
                };
            }
        } else {
            full = false;
            if !lst.proxy.is_empty() {
                let h = crate::client::proxy_header(&lst.proxy, k as usize);
                let n = if g.pc(50) { h.len() } else { g.range(0, h.len() as u64 - 1) as usize };
                bytes.extend(&h[..n]);
                if n < h.len() && g.pc(50) {
                    bytes.extend([0u8; 3]);
                }
            }
            let tls = lst.kind == "mqtts" || lst.kind == "wss";
            let more: Vec<u8> = if tls {
                let mut h = vec![0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3];
                h.resize(11 + g.range(0, 300) as usize, 7);
                h
            } else if lst.kind == "ws" {
                let mut r = b"GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n".to_vec();
                if g.pc(50) {
                    let n = g.range(0, r.len() as u64);
                    r.truncate(n as usize);
                } else {
                    let f: &[u8] = g.pick(&[&[0x82u8][..], &[0x82, 0xfe][..], &[0x82, 0x8a, 1, 2, 3, 4, 0x11][..], &[0x02, 0x81, 0, 0, 0, 0, 0x10][..], &[0x89, 0x80, 0, 0, 0, 0][..], &[0x81, 0x81, 0, 0, 0, 0, 0x10][..]]);
                    r.extend(f);
                }
                r
            } else {
                b[..b.len() - 1].to_vec()
            };
            let n = g.range(0, more.len() as u64) as usize;
            bytes.extend(&more[..n]);
        }
        ops.push(Op::Open { listener: l, net, full, ver });
        if !bytes.is_empty() {
            let (piece, gap) = match g.below(4) {
                0 | 1 => (0, 0),
                2 => (1, g.pick(&[1, 100, 700])),
                _ => (bytes.len().div_ceil(3), g.pick(&[500, 1500, 3000])),
            };
            ops.push(Op::Raw { hex: hex(&bytes), piece, gap });
        }
        match g.below(8) {
            0 => {
                let c = g.cut();
                ops.push(Op::Cut(c));
            }
            _ => ops.push(Op::AwaitClose(8000)),
        }
        g.actor(&name, ops);
    }
}
fn j12(v: &View, o: &mut Outcome) {
    let (mut dropped, mut stayed) = (0, 0);
    let mut clean = true;
    for c in &v.conns[1..] {
        let t0 = v.t(c.open);
        let limit = 5 * SEC + SEC * 3 / 2;
        let te = c.end.as_ref().map_or(v.end, |e| v.t(e.0));
        let name = v.name(c.actor);
        if c.ok() {
            let ack = c.ack.as_ref().unwrap().0;
            if let (Some((i, Ev::Closed(_))), None, false) = (&c.end, c.disc, c.hurt) {
                o.fail("C12.cut", format!("{name} finished its handshake {:.3} s after connecting and was disconnected {:.3} s later", (v.t(ack) - t0) as f64 / 1e9, (v.t(*i) - v.t(ack)) as f64 / 1e9));
            }
            stayed += 1;
            clean &= c.end.is_some();
            continue;
        }
        if let Some(i) = c.sent {
            if v.t(i) < t0 + 4400 * MS && !c.hurt && v.end > t0 + 6 * SEC && c.disc.is_none() && !matches!(c.end, Some((_, Ev::Cut(_)))) {
                o.fail("C12.refused", format!("{name} sent a complete CONNECT within {:.3} s and was not accepted", (v.t(i) - t0) as f64 / 1e9));
            }
        }
        match &c.end {
            Some((_, Ev::Cut('s'))) => continue,
            Some((_, Ev::Cut(_))) if te <= t0 + limit => continue,
            _ => {}
        }
        if v.end > t0 + limit && te > t0 + limit && c.fail.as_ref().is_none_or(|f| v.t(f.0) > t0 + limit) && !c.hurt {
            o.fail("C12.kept", format!("connection {} of {name} without a successful CONNECT was not closed {:.3} s after it began", c.id, (te - t0) as f64 / 1e9));
        }
        dropped += 1;
    }
    let cs = v.counters();
    if let (Some(base), Some(last), true) = (cs.first(), cs.last(), cs.len() >= 2 && clean) {
        let stay = v.conns[1..].iter().any(|c| v.t(c.open) + 8 * SEC > v.end);
        if !stay && base.1 == 0 && base.2 == 0 && v.conns[1..].first().is_none_or(|c| c.open > base.0) {
            if last.1 > 0 {
                o.fail("C12.leak", format!("{} clients are online although no connection is left", last.1));
            }
            let kept = v.conns[1..].iter().filter(|c| c.ok()).count();
            if last.2 > kept {
                o.fail("C12.leak", format!("{} clients are registered, {kept} ever connected", last.2));
            }
            if last.3 > base.3 + kept {
                o.fail("C12.leak", format!("{} tasks of the broker are left, {} before any connection", last.3, base.3));
            }
        }
    }
    o.stat("handshakes dropped", dropped);
    o.stat("slow handshakes accepted", stayed);
}
