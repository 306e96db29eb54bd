//! C04, C05, C06: sessions, takeover, counters.
use super::*;
use crate::client::{Ev, SEC};
use crate::view::*;
use crate::wire::Pkt;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            budget: (16000, 45),
            plan: c04,
            judge: j04,
            rule: "session-present is reported iff the session was persistent and unexpired; within a session every acknowledged QoS>0 message for a subscription made before it arrives; nothing published before the subscriptions of a fresh session arrives in it",
            note: "clients that come back before and after their session expiry interval, with clean starts, takeovers, changed expiry at DISCONNECT, caps and clock steps, while a publisher keeps sending",
        },
        Prop {
            id: "C05",
            budget: (16000, 45),
            plan: c05,
            judge: j05,
            rule: "an undisturbed CONNECT is answered; an older connection of the identifier ends within 5 s of a newer one's CONNACK; the last connect is accepted, served until the end, and alone",
            note: "rivals with one identifier in all protocol versions, racing, cut at any byte of the exchange, abandoned, refused or delayed by hooks, with incomplete and malformed CONNECTs between them",
        },
        Prop {
            id: "C06",
            budget: (16000, 45),
            plan: c06,
            judge: j06,
            rule: "at quiescence: reported online clients = connections being served; reported clients within what the session model allows",
            note: "phases of connects, takeovers, clean starts, expiries, disconnects, losses and failed handshakes, each followed by a quiet time and a reading of both counters",
        },
    ]
}

// ------------------------------------------------------------------ C04

fn c04(g: &mut G) {
    g.sched();
    g.listeners(10);
    g.nets(3);
    g.p.settle = 5;
    let cap = if g.pc(25) {
        g.cfg("max_session_expiry_interval", json!(15));
        15
    } else {
        100_000
    };
    let n = g.range(1, 3);
    for k in 0..n {
        let ver = g.ver();
        let cid = format!("s{k}");
        let mut ops = Vec::new();
        let mut open = false;
        for _ in 0..g.range(2, 5) {
            let v = if g.pc(92) { ver } else { g.ver() };
            let e = g.pick(&[0u32, 4, 4, 12, 12, 30, 50, u32::MAX]);
            let c = ConnP {
                cid: cid.clone(),
                ver: v,
                clean: g.pc(20),
                expiry: (v == 5 && (e > 0 || g.pc(50))).then_some(e),
                listener: g.any_listener(),
                net: g.any_net(),
                ping: true,
                ..Default::default()
            };
            let eff = if v == 5 { e.min(cap) } else { 30 };
            ops.push(Op::Connect(c));
            if g.pc(60) {
                for _ in 0..g.range(1, 2) {
                    let f = g.pick(&["x", "+", "#", "y"]);
                    let q = g.range(1, 2) as u8;
                    ops.push(Op::Sub { filters: vec![(format!("{cid}/{f}"), q)], sid: None, wait: 20_000 });
                }
            }
            let ms = g.pick(&[50, 1000, 4000, 8000]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
            open = false;
            let mut eff2 = eff;
            match g.below(8) {
                0..=2 => {
                    let ne = if v == 5 && e > 0 && g.pc(50) { Some(g.pick(&[0, 3, 12, 30]).min(cap)) } else { None };
                    eff2 = ne.unwrap_or(eff);
                    ops.push(Op::Disconnect { code: if g.pc(80) { 0 } else { 4 }, expiry: ne });
                }
                3..=5 => {
                    let k = g.pick(&['r', 'f']);
                    ops.push(Op::Cut(k));
                }
                6 => {
                    // a stray packet ends it
                    ops.push(Op::Raw { hex: "f000".into(), piece: 0, gap: 0 });
                    ops.push(Op::AwaitClose(3000));
                    ops.push(Op::Close);
                }
                _ => open = true,
            }
            if !open {
                let gap = match g.below(5) {
                    0 => g.range(0, 3),
                    1 | 2 if eff2 > 4 && eff2 < 100 => (eff2 as u64).saturating_sub(g.range(4, 5)),
                    3 | 4 if eff2 < 100 => eff2 as u64 + g.range(4, 6),
                    _ => g.range(0, 40),
                };
                let ms = gap * 1000 + g.range(0, 300);
                ops.push(Op::Sleep(ms));
            }
        }
        let _ = open;
        let c = ConnP { cid: cid.clone(), ver, clean: false, expiry: (ver == 5).then_some(100), ping: true, ..Default::default() };
        ops.push(Op::Connect(c));
        ops.push(Op::Sleep(8000));
        g.actor(&cid, ops);
    }
    let pv = g.ver();
    let mut c = g.conn("pub", pv);
    c.net = 0;
    let mut ops = vec![Op::Connect(c)];
    for _ in 0..g.range(3, 25) {
        let t = g.pick(&[300, 3000, 8000]);
        let ms = g.range(10, t);
        ops.push(Op::Sleep(ms));
        let k = g.below(n);
        let l = g.pick(&["x", "x", "y"]);
        let p = PubP { topic: format!("s{k}/{l}"), qos: g.range(1, 2) as u8, tag: g.tag(), ..Default::default() };
        ops.push(Op::Pub(p));
        if g.pc(4) {
            let ms = g.pick(&[-3_600_000, -20_000, 20_000, 3_600_000]);
            ops.push(Op::Jump(ms));
        }
    }
    g.actor("pub", ops);
}
/// The connections of one client identifier used by one actor, with the session each one is in.
pub fn epochs<'a>(v: &'a View, cid: &str) -> Vec<Vec<&'a Conn>> {
    let mut r: Vec<Vec<&Conn>> = Vec::new();
    for c in v.conns[1..].iter().filter(|c| !c.raw && c.p.cid == cid && c.ok()) {
        if !c.sp() || r.is_empty() {
            r.push(vec![]);
        }
        r.last_mut().unwrap().push(c);
    }
    r
}
/// What session-present must be on `c`, after the connections `before` of the same identifier;
/// None if it cannot be told.
pub fn sp_due(v: &View, before: &[&Conn], c: &Conn) -> Option<bool> {
    if c.p.clean {
        return Some(false);
    }
    let Some(d) = before.iter().rev().find(|d| d.sent.is_some()) else { return Some(false) };
    if d.ack.is_none() || d.p.ver != c.p.ver {
        return None;
    }
    if !d.ok() {
        // refused: as if it had not been
        let k = before.iter().position(|x| x.id == d.id).unwrap();
        return sp_due(v, &before[..k], c);
    }
    let e = v.expiry_of(d);
    let at = v.t(c.sent?);
    if let Some((i, _, Some(_))) = d.disc {
        // CONNECT may overtake the DISCONNECT of the other connection
        if at < v.t(i) + SEC {
            return None;
        }
    }
    if e == 0 {
        return Some(false);
    }
    if e == u64::MAX {
        return Some(true);
    }
    let end = match (&d.end, &d.disc) {
        (_, Some(x)) => v.t(x.0),
        (Some(x), None) if v.t(x.0) < v.t(c.open) => v.t(x.0),
        _ => return Some(true),
    };
    let gap = at.saturating_sub(end);
    let margin = 3 * SEC;
    if gap + margin < e * SEC {
        Some(true)
    } else if gap > e * SEC + margin {
        Some(false)
    } else {
        None
    }
}
fn j04(v: &View, o: &mut Outcome) {
    let (mut told, mut owed, mut alien) = (0, 0, 0);
    for cid in v.cids() {
        if v.contested(&cid) || cid.is_empty() {
            continue;
        }
        let conns: Vec<&Conn> = v.conns[1..].iter().filter(|c| !c.raw && c.p.cid == cid).collect();
        for (k, c) in conns.iter().enumerate() {
            if !c.ok() {
                if c.sent.is_some() && !c.hurt && c.p.cut.is_none() && c.end.as_ref().is_some_and(|e| matches!(e.1, Ev::Closed(_))) {
                    o.fail("C04.refused", format!("connection {} of {cid} was not accepted", c.id));
                }
                continue;
            }
            if let Some(b) = sp_due(v, &conns[..k], c) {
                told += 1;
                if b != c.sp() {
                    let why = conns[..k].iter().rev().find(|d| d.ok()).map_or("there was none before".into(), |d| {
                        let t = v.end_t(d).min(v.t(c.open));
                        format!("the one before ended {:.3} s earlier with session expiry {} s", (v.t(c.sent.unwrap()) - t) as f64 / 1e9, v.expiry_of(d) as i64)
                    });
                    o.fail("C04.present", format!("connection {} of {cid} was told session present = {}, {why}", c.id, c.sp()));
                }
            }
        }
        for ep in epochs(v, &cid) {
            let ids: BTreeSet<usize> = ep.iter().map(|c| c.id).collect();
            let actor = ep[0].actor;
            let subs: Vec<&SubR> = v.subs.iter().filter(|s| ids.contains(&s.conn)).collect();
            for p in v.pubs.values().filter(|p| p.tag > 0 && p.qos > 0) {
                let got = v.apps.iter().any(|a| ids.contains(&a.conn) && a.tag == p.tag);
                if let Some((ack, code)) = p.acked {
                    if code < 0x80
                        && subs.iter().any(|s| s.granted().is_some_and(|q| q > 0) && s.ack.unwrap() < p.out && matches(&s.filter, &p.topic))
                        && ep.iter().any(|c| !c.slow && !c.hurt && v.end_t(c) >= v.t(ack).max(v.t(c.ack.as_ref().unwrap().0)) + 3 * SEC)
                        && v.unsubs.iter().all(|u| u.actor != actor)
                    {
                        owed += 1;
                        if !got {
                            o.fail("C04.lost", format!("message {} on {} acknowledged at {:.3} s did not reach the session of {cid} that began with connection {}", p.tag, p.topic, v.t(ack) as f64 / 1e9, ep[0].id));
                        }
                    }
                }
                let Some(done) = v.processed(p) else { continue };
                if subs.iter().filter(|s| matches(&s.filter, &p.topic)).all(|s| s.out > done) && !p.retain {
                    alien += 1;
                    if got {
                        o.fail("C04.leftover", format!("message {} on {}, published before the subscriptions of the session of {cid} that began with connection {}, arrived in it", p.tag, p.topic, ep[0].id));
                    }
                }
            }
        }
    }
    o.stat("session-present verdicts", told);
    o.stat("deliveries owed", owed);
    o.stat("messages of other sessions", alien);
}

// ------------------------------------------------------------------ C05

fn c05(g: &mut G) {
    g.sched();
    g.listeners(20);
    g.nets(4);
    g.p.settle = 3;
    let mut hook = Vec::new();
    if g.pc(50) {
        for _ in 0..g.range(1, 3) {
            let on = g.pick(&["connect", "connect", "connected", "disconnected"]);
            let mut h = json!({"on": on, "cid": "x", "count": g.range(1, 3)});
            if g.pc(60) {
                h["delay"] = json!(g.pick(&[10u64, 300, 1000]));
            }
            if g.pc(40) {
                if on == "connect" && g.pc(50) {
                    h["code"] = json!(g.range(1, 7));
                } else {
                    h["fail"] = json!(true);
                }
            }
            hook.push(h);
        }
    }
    g.p.x = json!({"hook": hook});
    let n = g.range(2, 4);
    let wild = g.pc(50);
    for a in 0..n {
        let ver = g.ver();
        let mut ops = vec![Op::Sync(1)];
        for _ in 0..g.range(1, 5) {
            let v = if wild { g.ver() } else { ver };
            let mut c = ConnP {
                cid: "x".into(),
                ver: v,
                clean: g.pc(40),
                expiry: if v == 5 && g.pc(60) { Some(g.pick(&[1, 3, 20, 1000])) } else { None },
                keep_alive: g.pick(&[0, 0, 10, 12]),
                listener: g.any_listener(),
                net: g.any_net(),
                ..Default::default()
            };
            c.ping = c.keep_alive > 0 && g.pc(70);
            if g.pc(25) {
                c.cut = Some((g.below(2) as usize, g.range(0, 60), g.cut()));
            }
            match g.below(12) {
                0 => {
                    let l = c.listener;
                    let b = wire::encode(&Pkt::Connect(wire::Con { ver: v, cid: "x".into(), clean: c.clean, ..Default::default() }), v);
                    let n = g.range(0, b.len() as u64 - 1) as usize;
                    ops.push(Op::Open { listener: l, net: c.net, full: true, ver: v });
                    ops.push(Op::Raw { hex: hex(&b[..n]), piece: 0, gap: 0 });
                    if g.pc(50) {
                        ops.push(Op::Raw { hex: "ffffffffff".into(), piece: 0, gap: 0 });
                    }
                    continue;
                }
                1 | 2 => c.wait = 0,
                _ => {}
            }
            ops.push(Op::Connect(c.clone()));
            if c.wait > 0 && g.pc(20) {
                ops.push(Op::Sub { filters: vec![("t/#".into(), 1)], sid: None, wait: 3000 });
            }
            if c.wait > 0 && g.pc(20) {
                let p = PubP { topic: "t/a".into(), qos: g.below(3) as u8, tag: g.tag(), quota_wait: Some(500), ..Default::default() };
                ops.push(Op::Burst { p, n: 5 });
            }
            if g.pc(15) {
                let dir = g.below(2) as usize;
                let ms = g.range(10, 2000);
                ops.push(Op::Stall { dir, ms });
            }
            let ms = g.pick(&[0, 0, 1, 30, 500, 3000]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
            match g.below(6) {
                0 => ops.push(Op::Disconnect { code: 0, expiry: None }),
                1 => {
                    let k = g.cut();
                    ops.push(Op::Cut(k));
                }
                2 => ops.push(Op::Raw { hex: "f000".into(), piece: 0, gap: 0 }),
                _ => {}
            }
        }
        if g.pc(80) {
            ops.push(Op::Sync(2));
        }
        g.actor(&format!("r{a}"), ops);
    }
    // some later, a well-behaved client
    let v = g.ver();
    let ka = g.pick(&[0u16, 10]);
    let mut ops = vec![Op::Sync(1), Op::Sync(2)];
    let ms = g.pick(&[0u64, 0, 10, 1000, 7000]);
    ops.push(Op::Sleep(ms));
    for _ in 0..4 {
        ops.push(Op::Connect(ConnP { cid: "x".into(), ver: v, clean: g.pc(50), expiry: None, keep_alive: ka, ping: true, ..Default::default() }));
        ops.push(Op::Sleep(20));
    }
    ops.push(Op::Ping(5000));
    ops.push(Op::Sleep(45_000));
    ops.push(Op::Ping(5000));
    g.actor("last", ops);
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn j05(v: &View, o: &mut Outcome) {
    let conns: Vec<&Conn> = v.by_cid("x").collect();
    let hooks: Vec<(u64, String)> = v.recs.iter().filter_map(|r| if let Ev::Hook { what, data, .. } = &r.ev { Some((r.t, format!("{what} {data}"))) } else { None }).collect();
    let refused = |from: u64, to: u64| hooks.iter().any(|(t, h)| *t >= from && *t <= to && (h.contains("refuse") || h.contains("fail")));
    let mut pairs = 0;
    for c in &conns {
        let Some(sent) = c.sent else { continue };
        // answered
        if c.ack.is_none() && !c.hurt && c.p.cut.is_none() && c.p.wait > 0 {
            let late = v.recs.iter().any(|r| r.conn == c.id && matches!(&r.ev, Ev::Skip(s) if s == "no CONNACK"));
            if late {
                o.fail("C05.unanswered", format!("connection {} got no answer to its CONNECT within {} s", c.id, c.p.wait / 1000));
            }
            // closed without an answer although no hook refused and nobody took it over
            if let Some((e, Ev::Closed(_))) = &c.end {
                let rival = conns.iter().any(|d| d.id != c.id && d.sent.is_some() && v.t(d.sent.unwrap()) <= v.t(*e) && d.end.as_ref().map_or(v.end, |x| v.t(x.0)) + 5 * SEC >= v.t(sent));
                if !refused(v.t(sent), v.t(*e)) && !rival {
                    o.fail("C05.closed", format!("the broker closed connection {} without an answer to its CONNECT", c.id));
                }
            }
        }
        // older connections end
        let Some((ack, _, 0, _)) = c.ack else { continue };
        for d in conns.iter().filter(|d| d.id != c.id && d.ok() && d.ack.as_ref().unwrap().0 < ack) {
            if d.hurt || d.slow || d.p.cut.is_some() || matches!(d.end, Some((_, Ev::Cut(_)))) {
                continue;
            }
            if d.ack.as_ref().unwrap().0 > sent {
                // raced
                if conns.iter().any(|e| e.id != c.id && e.id != d.id && e.sent.is_some_and(|s| s < ack)) {
                    continue;
                }
            }
            pairs += 1;
            let t = d.end.as_ref().map_or(v.end, |e| v.t(e.0));
            if d.ack.as_ref().unwrap().0 < sent && t > v.t(ack) + 5 * SEC {
                o.fail("C05.two", format!("connection {} was still open 5 s after connection {} of the same client was accepted", d.id, c.id));
            }
        }
    }
    // the last one
    let last = v.plan.actors.iter().position(|a| a.name == "last");
    let Some(l) = last.and_then(|a| v.last_conn(a)) else { return };
    let Some(sent) = l.sent else { return };
    // nobody else connects or is being served from then on
    let alone = conns.iter().all(|d| d.id == l.id || d.open < l.open);
    if !alone {
        return;
    }
    if !l.ok() {
        if !refused(v.t(sent), l.end.as_ref().map_or(v.end, |e| v.t(e.0))) && !matches!(l.end, Some((_, Ev::Cut('r')))) {
            o.fail("C05.locked", format!("connection {}, the last one of the client, was not accepted", l.id));
        }
        return;
    }
    if let Some((e, Ev::Closed(_))) = &l.end {
        // a CONNECT of an older connection may have been under way still
        let under_way = conns.iter().any(|d| d.id != l.id && (d.ack.is_none() || d.ack.as_ref().unwrap().0 > sent) && d.sent.is_some()) && v.t(*e) < v.t(l.open) + 15 * SEC;
        if !under_way && l.disc.is_none() && !refused(v.t(sent), v.t(*e)) {
            o.fail("C05.kicked", format!("the broker ended connection {} {:.3} s after it was opened, though it was the last one of the client and active", l.id, (v.t(*e) - v.t(l.open)) as f64 / 1e9));
        }
    }
    if l.live() {
        if v.t(l.open) + 40 * SEC < v.end {
            for d in conns.iter().filter(|d| d.id != l.id && d.sent.is_some() && d.end.is_none() && !d.hurt && d.p.cut.is_none() && !d.slow) {
                o.fail("C05.two", format!("connection {} is still open at the end although connection {} of the same client was accepted later", d.id, l.id));
            }
            if let Some((_, online, _, _)) = v.counters().last() {
                if *online != 1 {
                    o.fail("C05.online", format!("{online} clients are reported online at the end; one connection is served"));
                }
            }
        }
        if v.skips(l.actor, "no PINGRESP") > 0 {
            o.fail("C05.dead", "a PINGREQ of the last connection was not answered");
        }
        o.stat("last connection served", 1);
    }
    o.stat("pairs of connections", pairs);
}

// ------------------------------------------------------------------ C06

fn c06(g: &mut G) {
    g.sched();
    g.listeners(20);
    g.nets(3);
    g.p.settle = 8;
    let n = g.range(1, 4);
    let phases = g.range(1, 4) as u32;
    let one = g.pc(30);
    let vers: Vec<u8> = (0..n).map(|_| g.ver()).collect();
    if g.pc(40) {
        let on = g.pick(&["connect", "connected", "disconnected"]);
        let code = if on == "connect" { g.range(0, 3) } else { 0 };
        g.p.x = json!({"hook": [{"on": on, "count": g.range(1, 3), "delay": g.pick(&[0u64, 500]), "code": code, "fail": g.pc(50)}]});
    }
    let mut mon = vec![];
    for ph in 0..phases {
        mon.extend([Op::Sync(2 * ph), Op::Sleep(7000), Op::Counters, Op::Sync(2 * ph + 1)]);
    }
    for a in 0..n {
        let mut ops = vec![];
        for ph in 0..phases {
            for _ in 0..g.range(0, 3) {
                let v = if g.pc(85) { vers[a as usize] } else { g.ver() };
                let cid = if g.pc(10) { String::new() } else if one { "x".into() } else { format!("c{a}") };
                let mut c = ConnP {
                    clean: cid.is_empty() || g.pc(35),
                    cid,
                    ver: v,
                    expiry: if v == 5 && g.pc(60) { Some(g.pick(&[0, 1, 3, 14, 1000])) } else { None },
                    listener: g.any_listener(),
                    net: g.any_net(),
                    ping: true,
                    ..Default::default()
                };
                match g.below(8) {
                    0 => {
                        // CutKind 's' would leave a connection the broker cannot know to be dead
                        let k = g.pick(&['r', 'f']);
                        c.cut = Some((g.below(2) as usize, g.range(0, 80), k));
                    }
                    1 => {
                        ops.push(Op::Open { listener: c.listener, net: c.net, full: true, ver: v });
                        let h = g.pick(&["10", "100c00044d515454", "ffff", "3000"]);
                        ops.push(Op::Raw { hex: h.into(), piece: 0, gap: 0 });
                        continue;
                    }
                    _ => {}
                }
                ops.push(Op::Connect(c));
                if g.pc(30) {
                    ops.push(Op::Sub { filters: vec![("#".into(), 1)], sid: None, wait: 3000 });
                }
                if g.pc(20) {
                    let p = PubP { topic: "t".into(), qos: g.below(3) as u8, tag: g.tags(3), quota_wait: Some(500), ..Default::default() };
                    ops.push(Op::Burst { p, n: 3 });
                }
                let ms = g.pick(&[0, 5, 500, 2000]);
                let ms = g.range(0, ms);
                ops.push(Op::Sleep(ms));
                match g.below(6) {
                    0 | 1 => ops.push(Op::Disconnect { code: 0, expiry: None }),
                    2 => {
                        let k = g.pick(&['r', 'f']);
                        ops.push(Op::Cut(k));
                    }
                    3 => ops.push(Op::Raw { hex: "f000".into(), piece: 0, gap: 0 }),
                    _ => {}
                }
            }
            ops.push(Op::Sync(2 * ph));
            ops.push(Op::Sync(2 * ph + 1));
        }
        g.actor(&format!("c{a}"), ops);
    }
    g.actor("monitor", mon);
}
fn j06(v: &View, o: &mut Outcome) {
    let mut n = 0;
    for (i, online, clients, _) in v.counters() {
        let t = v.t(i);
        // nothing happens for a while
        let quiet = v.recs[..i].iter().rev().take_while(|r| r.t + 6 * SEC > t).all(|r| {
            matches!(r.ev, Ev::Counters { .. } | Ev::In(Pkt::Pingresp) | Ev::Out(Pkt::Pingreq) | Ev::Read(_))
                || (matches!(r.ev, Ev::Closed(_)) && (r.conn == 0 || v.conns[r.conn].raw))
        });
        if !quiet {
            continue;
        }
        n += 1;
        let live: Vec<&Conn> = v.conns[1..].iter().filter(|c| !c.raw && c.ack.as_ref().is_some_and(|a| a.0 < i && a.2 == 0) && c.end.as_ref().is_none_or(|e| e.0 > i)).collect();
        // a connection whose client has not heard yet or never will
        let unsure = v.conns[1..].iter().filter(|c| !c.raw && c.sent.is_some_and(|s| s < i) && c.ack.as_ref().is_none_or(|a| a.0 > i) && c.end.as_ref().is_none_or(|e| e.0 > i)).count();
        if online < live.len() as u64 || online > (live.len() + unsure) as u64 {
            o.fail("C06.online", format!("{online} clients are reported online at {:.3} s, {} connections are served", t as f64 / 1e9, live.len()));
        }
        // sessions
        let (mut lo, mut hi) = (0, 0);
        let mut by: BTreeMap<&str, Vec<&Conn>> = BTreeMap::new();
        let mut anon: Vec<&Conn> = Vec::new();
        for c in v.conns[1..].iter().filter(|c| !c.raw && c.sent.is_some_and(|s| s < i)) {
            if c.p.cid.is_empty() {
                anon.push(c);
            } else {
                by.entry(&c.p.cid).or_default().push(c);
            }
        }
        let groups = by.into_values().chain(anon.into_iter().map(|c| vec![c]));
        for gr in groups {
            let (l, h) = exists(v, &gr, i);
            lo += l;
            hi += h;
        }
        if clients < lo || clients > hi {
            o.fail("C06.clients", format!("{clients} clients are reported at {:.3} s, {lo} to {hi} sessions exist", t as f64 / 1e9));
        }
        if lo == hi {
            o.stat("exact session counts", 1);
        }
    }
    o.stat("counter readings", n);
}
/// How many sessions these connections of one identifier leave at record `i`.
fn exists(v: &View, cs: &[&Conn], i: usize) -> (usize, usize) {
    let up = |c: &Conn| c.ack.as_ref().is_some_and(|a| a.0 < i && a.2 == 0) && c.end.as_ref().is_none_or(|e| e.0 > i);
    if cs.iter().any(|c| up(c)) {
        return (1, 1);
    }
    let sure = |c: &Conn| match &c.ack {
        Some(a) => a.0 < i,
        None => false,
    };
    // overlapping connections of several clients: only the newest state counts, and it is not known which
    let actors: BTreeSet<usize> = cs.iter().map(|c| c.actor).collect();
    let mut k = cs.len();
    while k > 0 && sure(cs[k - 1]) && !cs[k - 1].ok() {
        k -= 1;
    }
    if k == 0 {
        return (0, 0);
    }
    let c = cs[k - 1];
    if !sure(c) {
        return (0, 1);
    }
    let end = c.end.as_ref().map_or(v.t(i), |e| v.t(e.0)).min(c.disc.map_or(u64::MAX, |d| v.t(d.0)));
    let e = v.expiry_of(c);
    // an attempt that was given up may still arrive later than the next one
    let late = cs.iter().any(|d| d.id != c.id && !sure(d) && d.end.as_ref().is_none_or(|x| v.t(x.0) + 2 * SEC > v.t(c.open)));
    if late || actors.len() > 1 && cs.iter().any(|d| d.id != c.id && (d.end.as_ref().is_none_or(|x| v.t(x.0) + SEC > v.t(c.open)) || !sure(d))) {
        // the order in which the broker saw the end of one and the beginning of another is open
        let es: Vec<u64> = cs.iter().map(|d| v.expiry_of(d)).collect();
        return if es.iter().all(|e| *e == 0) { (0, 0) } else { (0, 1) };
    }
    if e == 0 {
        return (0, 0);
    }
    if e == u64::MAX {
        return (1, 1);
    }
    let gap = v.t(i).saturating_sub(end);
    let m = 2 * SEC;
    if gap + m < e * SEC {
        (1, 1)
    } else if gap > e * SEC + m {
        (0, 0)
    } else {
        (0, 1)
    }
}
