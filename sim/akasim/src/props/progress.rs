//! C23, C24: progress once faults stop, and bounded queues.
use super::delivery::{calm, received};
use super::*;
use crate::client::{Ev, Ns, SEC};
use crate::view::*;
use crate::wire::Pkt;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        budget: (9000, 45),
        plan: c23,
        judge: j23,
        rule: "once the last fault is over, every PINGREQ is answered, every connect accepted and every publish to a healthy subscriber delivered within 20 s; at all times the same holds within 5 s for clients that have nothing to do with the disturbed ones; tasks of ended connections finish",
        note: "many publishers flooding few subscribers, clients flooding each other, readers that stop and go on or never read again, simultaneous losses, disconnects and takeovers in the middle of it, held acknowledgements, slow hooks, small windows, every scheduler",
    }, Prop {
        id: "C24",
        budget: (9000, 45),
        plan: c24,
        judge: j24,
        rule: "reference bound: a message accepted while fewer than the configured number is kept for the session is delivered; never more than the bound (plus the fixed channels while the client does not read) are outstanding; what is delivered is in order, unchanged, and QoS 2 at most once",
        note: "offline periods, held and partial acknowledgements, readers that stop, several publishers and bounds of 1 to 50 messages",
    }]
}

// ------------------------------------------------------------------ C23

fn flood(g: &mut G, ops: &mut Vec<Op>, np: u64, big: bool) {
    let j = g.below(np);
    let topic = g.pick(&["all/x".to_string(), "all/y".into(), format!("in/{j}"), format!("in/{j}"), "sh/x".into()]);
    let n = if big { g.pick(&[5, 20, 40, 80]) } else { g.pick(&[1, 3, 10, 30]) };
    let p = PubP { topic, qos: g.pick(&[0, 0, 0, 1, 1, 2]), tag: g.tags(n), pad: g.pick(&[0, 0, 200, 3000]), retain: g.pc(5), quota_wait: Some(2000), ..Default::default() };
    ops.push(Op::Burst { p, n });
}
fn last_part(g: &mut G, ops: &mut Vec<Op>, c: &ConnP, fresh: bool) {
    ops.push(Op::Sync(2));
    ops.push(Op::Ack(Ack::Auto));
    ops.push(Op::HoldRel(false));
    ops.push(Op::Release);
    ops.push(Op::Read(true));
    if fresh {
        let mut c = c.clone();
        c.net = 0;
        c.cut = None;
        ops.push(Op::Connect(c));
    }
    ops.push(Op::Sleep(28_000));
    let q = g.below(3) as u8;
    ops.push(Op::Sub { filters: vec![("probe/#".into(), q)], sid: None, wait: 20_000 });
    ops.push(Op::Sync(3));
    let n = g.pick(&[1, 1, 5, 20]);
    let p = PubP { topic: g.pick(&["probe/a", "probe/b"]).into(), qos: g.below(3) as u8, tag: g.tags(n), quota_wait: Some(2000), ..Default::default() };
    ops.push(Op::Burst { p, n });
    ops.push(Op::Ping(10_000));
    ops.push(Op::Sleep(15_000));
    ops.push(Op::Ping(10_000));
    ops.push(Op::Sync(4));
    ops.push(Op::Disconnect { code: 0, expiry: Some(0) });
}
fn c23(g: &mut G) {
    g.sched();
    g.listeners(20);
    g.nets(3);
    g.p.settle = 40;
    g.cfg("max_in_mem_pending_messages", json!(100_000));
    if g.pc(30) {
        let n = g.range(1, 5);
        g.cfg("max_inflight_client", json!(n));
    }
    if g.pc(30) {
        let n = g.range(1, 5);
        g.cfg("max_inflight_server", json!(n));
    }
    if g.pc(30) {
        let m = g.pick(&["Random", "HashClientId", "HashTopicName"]);
        g.cfg("shared_subscription_mode", json!(m));
    }
    g.actor("base", vec![Op::Sleep(200), Op::Counters, Op::Sync(1)]);
    if g.pc(25) {
        return crowd(g);
    }
    let np = g.range(2, 7);
    let storm = g.pc(40);
    // a narrow way to the clients fills the broker's queues, but it must not be so slow that what is queued takes long
    for k in 1..g.p.fix_nets.len() {
        g.p.fix_nets[k].lat = g.pick(&[(1u64, 50u64), (100, 100), (50, 500)]);
        g.p.fix_nets[k].win = (g.pick(&[0usize, 2000, 60_000]), g.pick(&[0usize, 2000, 2000, 6000]));
    }
    if g.pc(25) {
        let mut rules = Vec::new();
        for _ in 0..g.range(1, 3) {
            let on = g.pick(&["connect", "connected", "publish", "published", "subscribe", "subscribed", "disconnected"]);
            let cid = format!("p{}", g.below(np));
            rules.push(json!({"on": on, "cid": cid, "count": g.range(1, 5), "delay": g.pick(&[1u64, 50, 1000, 4000])}));
        }
        g.p.x = json!({"hook": rules});
    }
    // bystanders
    let b0 = ConnP { keep_alive: 12, ..g.conn("by0", 4) };
    let mut ops = vec![Op::Sync(1), Op::Connect(ConnP { net: 0, ver: g.ver(), ..b0.clone() }), Op::Sleep(100)];
    for _ in 0..g.range(4, 12) {
        let p = PubP { topic: "by/x/y".into(), qos: g.below(3) as u8, tag: g.tags(1), quota_wait: Some(1), ..Default::default() };
        ops.push(Op::Pub(p));
        ops.push(Op::Ping(0));
        let ms = g.pick(&[1, 200, 900]);
        ops.push(Op::Sleep(ms));
    }
    ops.push(Op::Sync(4));
    ops.push(Op::Disconnect { code: 0, expiry: Some(0) });
    g.actor("by0", ops);
    let q = g.below(3) as u8;
    let sub = Op::Sub { filters: vec![("by/#".into(), q)], sid: None, wait: 20_000 };
    let ops = vec![Op::Sync(1), Op::Connect(ConnP { net: 0, cid: "by1".into(), ver: g.ver(), ..b0.clone() }), sub, Op::Sync(4), Op::Disconnect { code: 0, expiry: Some(0) }];
    g.actor("by1", ops);
    let mut ops = vec![Op::Sync(1)];
    for _ in 0..g.range(1, 6) {
        let ms = g.range(1, 1500);
        ops.push(Op::Sleep(ms));
        ops.push(Op::Connect(ConnP { net: 0, cid: "by2".into(), ver: g.ver(), clean: g.pc(50), retries: 0, ..b0.clone() }));
        ops.push(Op::Ping(5000));
        ops.push(Op::Disconnect { code: 0, expiry: None });
    }
    g.actor("by2", ops);
    for k in 0..np {
        let ver = g.ver();
        // two of them may use the same client identifier
        let cid = if k == 1 && g.pc(30) { "p0".into() } else { format!("p{k}") };
        let mut c = g.conn(&cid, ver);
        c.keep_alive = 10;
        c.expiry = (ver == 5).then(|| g.pick(&[0, 10, 18]));
        c.clean = g.pc(40);
        c.retries = 1;
        if ver == 5 && g.pc(30) {
            c.rx_max = Some(g.range(1, 5) as u16);
        }
        if g.pc(20) {
            c.will = Some(WillP { topic: format!("in/{}", g.below(np)), tag: g.tag(), qos: g.below(3) as u8, ..Default::default() });
        }
        let mut first = c.clone();
        first.retries = 3;
        let mut ops = vec![Op::Sync(1), Op::Connect(first)];
        let mut fs = vec![(format!("in/{k}"), g.below(3) as u8)];
        if g.pc(60) {
            fs.push((g.pick(&["all/#", "all/x", "+/x", "in/+", "sh/#"]).into(), g.below(3) as u8));
        }
        if g.pc(30) {
            fs.push(("$share/g/sh/x".into(), g.below(3) as u8));
        }
        if ver != 5 {
            fs.retain(|f| !f.0.starts_with("$share"));
        }
    
        ops.push(Op::Sub { filters: fs, sid: None, wait: 20_000 });
        ops.push(Op::Sync(5));
        let mut cut = false;
        let rounds = g.range(1, 4);
        for r in 0..rounds {
            for _ in 0..g.range(0, 3) {
                flood(g, &mut ops, np, true);
            }
            if storm && r == 0 {
                ops.push(Op::Sync(6));
            }
            match g.below(16) {
                0..=3 => {
                    ops.push(Op::Read(false));
                    if g.pc(50) {
                        flood(g, &mut ops, np, false);
                    }
                    let ms = g.pick(&[10, 300, 3000, 20_000]);
                    let ms = g.range(1, ms);
                    ops.push(Op::Sleep(ms));
                    match g.below(4) {
                        0 => {
                            let k = g.cut();
                            ops.push(Op::Cut(k));
                            cut = true;
                        }
                        1 => {}
                        _ => ops.push(Op::Read(true)),
                    }
                }
                4 | 5 => {
                    let k = g.cut();
                    ops.push(Op::Cut(k));
                    cut = true;
                }
                6 | 7 => {
                    ops.push(Op::Disconnect { code: 0, expiry: None });
                    cut = true;
                }
                8 => {
                    let (dir, bytes, kind) = (g.below(2) as usize, g.range(0, 3000), g.pick(&['r', 'f']));
                    ops.push(Op::CutAfter { dir, bytes, kind });
                    cut = true;
                }
                9 => {
                    let (dir, ms) = (g.below(2) as usize, g.range(10, 2000));
                    ops.push(Op::Stall { dir, ms });
                }
                10 => {
                    let a = g.pick(&[Ack::Hold, Ack::Delay(300), Ack::Some(50), Ack::Auto]);
                    ops.push(Op::Ack(a));
                }
                11 => {
                    let n = g.any_net();
                    ops.push(Op::Net(n));
                }
                _ => {}
            }
            let ms = g.pick(&[0, 0, 5, 300, 2500]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
            if g.pc(if cut { 70 } else { 25 }) {
                let mut c = c.clone();
                c.net = g.any_net();
                c.listener = g.any_listener();
                ops.push(Op::Connect(c));
                cut = false;
            }
        }
        let fresh = cut || g.pc(25) || cid != format!("p{k}");
        let zombie = g.pc(15);
        if zombie {
            ops.push(Op::Read(false));
            ops.push(Op::Sync(2));
            if g.pc(40) {
                // the broker ends it, but can not tell it so
                if g.pc(70) {
                    let n = g.range(1, 4);
                    let p = PubP { topic: format!("in/{k}"), qos: 0, tag: g.tags(n), pad: 4000, ..Default::default() };
                    ops.push(Op::Burst { p, n });
                    ops.push(Op::Sleep(100));
                }
                let h = g.pick(&["f000", "30ff", "ffff"]);
                ops.push(Op::Raw { hex: h.into(), piece: 0, gap: 0 });
                let ms = g.range(1, 2000);
                ops.push(Op::Sleep(ms));
            }
            if g.pc(60) {
                let k = g.pick(&['r', 'f', 's', 's']);
                ops.push(Op::Cut(k));
            }
            ops.push(Op::Sleep(28_000));
            ops.push(Op::Sync(3));
            ops.push(Op::Sync(4));
        } else if k == 1 && cid == "p0" {
            ops.push(Op::Sync(2));
            ops.push(Op::Cut('r'));
            ops.push(Op::Sync(3));
            ops.push(Op::Sync(4));
        } else {
            last_part(g, &mut ops, &c, fresh);
        }
        g.actor(&format!("p{k}"), ops);
    }
    let ver = g.ver();
    let c = ConnP { keep_alive: 10, ..g.conn("fresh", ver) };
    let mut ops = vec![Op::Sync(1)];
    last_part(g, &mut ops, &c, true);
    g.actor("fresh", ops);
}
/// Many publishers, nothing else: everything must get through.
fn crowd(g: &mut G) {
    g.kind("crowd");
    for k in 1..g.p.fix_nets.len() {
        g.p.fix_nets[k].lat = g.pick(&[(1u64, 50u64), (100, 100), (50, 500)]);
        g.p.fix_nets[k].win = (g.pick(&[0usize, 2000, 60_000]), g.pick(&[0usize, 2000, 2000, 6000]));
    }
    let fan = g.pc(40);
    let (ns, np) = if fan { (g.range(8, 14), g.range(1, 3)) } else { (g.range(1, 2), g.range(8, 14)) };
    for s in 0..ns {
        let ver = g.ver();
        let mut c = g.conn(&format!("s{s}"), ver);
        c.keep_alive = 12;
        c.clean = g.pc(50);
        let q = g.below(3) as u8;
        let mut ops = vec![Op::Connect(c), Op::Sub { filters: vec![("c/#".into(), q)], sid: None, wait: 20_000 }, Op::Sync(1)];
        if g.pc(30) {
            ops.push(Op::Read(false));
            let ms = g.range(1, 3000);
            ops.push(Op::Sleep(ms));
            ops.push(Op::Read(true));
        }
        ops.push(Op::Sync(2));
        ops.push(Op::Sleep(25_000));
        ops.push(Op::Ping(10_000));
        ops.push(Op::Sync(4));
        if fan {
            ops.push(Op::Sleep(1000));
        }
        ops.push(Op::Disconnect { code: 0, expiry: Some(0) });
        g.actor(&format!("s{s}"), ops);
    }
    let burst = g.pick(&[1, 2, 5, 12, 30]);
    for k in 0..np {
        let ver = g.ver();
        let mut c = g.conn(&format!("q{k}"), ver);
        c.keep_alive = 12;
        c.clean = true;
        let mut ops = vec![Op::Connect(c), Op::Sync(1)];
        for _ in 0..if fan { g.range(2, 6) } else { g.range(1, 2) } {
            let n = burst;
            let p = PubP { topic: "c/x".into(), qos: g.pick(&[0, 0, 0, 1, 2]), tag: g.tags(n), pad: g.pick(&[0, 0, 100, 1500]), quota_wait: Some(2000), ..Default::default() };
            ops.push(Op::Burst { p, n });
            if fan {
                let ms = g.pick(&[0, 20, 500, 2000]);
                ops.push(Op::Sleep(ms));
            }
        }
        ops.push(Op::Sync(2));
        ops.push(Op::Sleep(25_000));
        if fan {
            let p = PubP { topic: "c/x".into(), qos: g.below(3) as u8, tag: g.tag(), quota_wait: Some(2000), ..Default::default() };
            ops.push(Op::Pub(p));
        }
        ops.push(Op::Ping(10_000));
        if fan {
            ops.push(Op::Sleep(21_000));
        }
        ops.push(Op::Sync(4));
        ops.push(Op::Disconnect { code: 0, expiry: Some(0) });
        g.actor(&format!("q{k}"), ops);
    }
}

/// When the last disturbance is over for certain; None: never.
fn quiet_from(v: &View) -> Option<Ns> {
    let mut q = 0;
    for r in &v.recs {
        match &r.ev {
            Ev::Cut('s') => {
                let c = &v.conns[r.conn];
                if c.p.keep_alive == 0 {
                    return None;
                }
                q = q.max(r.t + c.p.keep_alive.max(10) as u64 * SEC * 3 / 2 + 3 * SEC);
            }
            Ev::Cut(_) if v.conns[r.conn].disc.is_some() => {}
            Ev::Cut(_) => q = q.max(r.t + SEC),
            Ev::Fault(f) if f.starts_with("cut") => {}
            Ev::Fault(_) => q = q.max(r.t + 3 * SEC),
            Ev::Hook { data, what, .. } if data.contains("rule") => q = q.max(r.t + if what.ends_with(":done") { SEC } else { 6 * SEC }),
            Ev::Read(true) => q = q.max(r.t + SEC),
            _ => {}
        }
    }
    for c in &v.conns[1..] {
        let last = v.recs.iter().enumerate().filter(|(_, r)| r.conn == c.id).filter_map(|(i, r)| if let Ev::Read(b) = r.ev { Some((i, b)) } else { None }).next_back();
        if let Some((i, false)) = last {
            // it does not see that the broker ends it; the broker does by its keep-alive
            match &c.end {
                Some((e, Ev::Cut('s'))) if c.p.keep_alive > 0 => q = q.max(v.t(*e) + c.p.keep_alive.max(10) as u64 * SEC * 3 / 2 + 3 * SEC),
                Some((e, _)) => q = q.max(v.t(*e) + SEC),
                None if c.p.keep_alive > 0 => q = q.max(v.t(i) + c.p.keep_alive.max(10) as u64 * SEC * 3 / 2 + 3 * SEC),
                None => return None,
            }
        }
    }
    Some(q)
}
/// The connection's orderly life: from CONNACK to the first sign of its end.
fn alive_to(v: &View, c: &Conn) -> Ns {
    let mut e = v.end_t(c);
    for i in v.recs.iter().enumerate().filter(|(_, r)| r.conn == c.id && matches!(&r.ev, Ev::Fault(f) if f.starts_with("cut"))).map(|x| x.0) {
        e = e.min(v.t(i));
    }
    // taken over by another actor
    for d in v.by_cid(&c.p.cid).filter(|d| d.id > c.id && d.actor != c.actor) {
        e = e.min(v.t(d.open));
    }
    e
}
fn j23(v: &View, o: &mut Outcome) {
    let quiet = quiet_from(v);
    let (mut pings, mut probes, mut connects, mut near) = (0, 0, 0, 0);
    let by = |a: usize| v.name(a).starts_with("by");
    let wait = 20 * SEC;
    for c in v.conns[1..].iter().filter(|c| !c.raw) {
        // from when on this connection must be served, and how fast
        let (from, limit) = if by(c.actor) { (0, 5 * SEC) } else if let Some(q) = quiet { (q, wait) } else { continue };
        let who = v.name(c.actor);
        if c.p.cut.is_some() {
            continue;
        }
        let end = alive_to(v, c);
        if let Some(s) = c.sent {
            let due = v.t(s).max(from) + limit;
            match &c.ack {
                Some(a) if v.t(a.0) <= due => {
                    connects += 1;
                    if a.2 != 0 {
                        o.fail("C23.refused", format!("{who}'s connection {} was refused with code {:#x}", c.id, a.2));
                    }
                }
                Some(a) => o.fail("C23.accept", format!("{who}'s connection {} was accepted {:.3} s after its CONNECT", c.id, (v.t(a.0) - v.t(s)) as f64 / 1e9)),
                None if end > due && c.fail.is_none() && matches!(c.end, None | Some((_, Ev::Cut(_)))) => {
                    o.fail("C23.accept", format!("{who}'s connection {} was not accepted within {} s although nothing disturbed the broker any more", c.id, limit / SEC))
                }
                None => {}
            }
        } else if let Some((i, e)) = &c.fail {
            if v.t(c.open) > from && !c.hurt {
                o.fail("C23.accept", format!("{who} could not open connection {} at {:.3} s: {e}", c.id, v.t(*i) as f64 / 1e9));
            }
        }
        let outs: Vec<usize> = c.outs.iter().copied().filter(|i| matches!(v.recs[*i].ev, Ev::Out(Pkt::Pingreq))).collect();
        let ins: Vec<usize> = c.ins.iter().copied().filter(|i| matches!(v.recs[*i].ev, Ev::In(Pkt::Pingresp))).collect();
        let reads = v.recs.iter().rev().find(|r| r.conn == c.id && matches!(r.ev, Ev::Read(_))).is_none_or(|r| r.ev == Ev::Read(true));
        for (k, i) in outs.iter().enumerate().filter(|_| reads) {
            let due = v.t(*i).max(from) + limit;
            if due >= end || !v.responsive(c.actor) {
                continue;
            }
            pings += 1;
            if ins.get(k).is_none_or(|j| v.t(*j) > due) {
                o.fail("C23.ping", format!("{who} got no answer to the PINGREQ of {:.3} s on connection {} within {} s ({})", v.t(*i) as f64 / 1e9, c.id, limit / SEC,
                    if by(c.actor) { "it has nothing to do with the disturbed clients" } else { "nothing is disturbed any more" }));
                break;
            }
        }
        if let (true, Some(why)) = (by(c.actor), v.dropped(c)) {
            o.fail("C23.dropped", format!("the broker ended connection {} of {who} ({why})", c.id));
        }
    }
    let got = received(v);
    for p in v.pubs.values().filter(|p| p.tag > 0) {
        let pc = &v.conns[p.conn];
        if !pc.ok() || p.out != p.last_out {
            continue;
        }
        for s in v.subs.iter().filter(|s| s.granted().is_some() && s.share().is_none() && s.ack.unwrap() < p.out && matches(&s.filter, &p.topic)) {
            let (a, sc) = (s.actor, &v.conns[s.conn]);
            let (from, limit) = if by(a) && by(p.actor) { (0, 5 * SEC) } else if let Some(q) = quiet { (q, wait) } else { continue };
            // what was sent in time to a subscriber in time
            let t = v.t(p.out);
            if t < from || alive_to(v, pc) < t + limit || alive_to(v, sc) < t + limit || !v.responsive(a) || v.end < t + limit {
                continue;
            }
            // acknowledgements kept back
            if v.recs.iter().any(|r| r.actor == a && matches!(r.ev, Ev::AckMode(false)) && r.t <= t + limit) && v.recs.iter().rev().find(|r| r.actor == a && matches!(r.ev, Ev::AckMode(_)) && r.t <= t).is_none_or(|r| r.ev == Ev::AckMode(false)) {
                continue;
            }
            if v.unsubs.iter().any(|u| u.actor == a) {
                continue;
            }
            // the publisher itself may have been kept waiting by what it sent before
            probes += 1;
            near += by(a) as u64;
            let x = got.get(&(a, p.tag)).and_then(|x| x.first());
            if x.is_none_or(|x| v.t(x.i) > t + limit) {
                o.fail(
                    "C23.delivery",
                    format!("message {} of {} (QoS {}, sent at {:.3} s) did not reach {} within {} s", p.tag, v.name(p.actor), p.qos, t as f64 / 1e9, v.name(a), limit / SEC),
                );
            }
        }
    }
    // what is left in the end
    let cs = v.counters();
    if let (Some(base), Some(last), Some(q)) = (cs.first(), cs.last(), quiet) {
        let first = v.conns[1..].iter().map(|c| c.open).min().unwrap_or(usize::MAX);
        let all = v.conns[1..].iter().all(|c| {
            let t = v.conns[1..].iter().find(|d| d.actor == c.actor && d.id > c.id && d.p.cid == c.p.cid && d.ok()).map(|d| v.t(d.open));
            c.end.is_some() && c.end.as_ref().is_some_and(|e| v.t(e.0) + 22 * SEC < v.end && (c.p.keep_alive > 0 || !matches!(e.1, Ev::Cut('s')))) || t.is_some_and(|t| t + 20 * SEC < v.end)
        });
        if cs.len() > 1 && base.0 < first && base.1 == 0 && base.2 == 0 && all && q + 5 * SEC < v.end {
            if last.1 > 0 {
                o.fail("C23.left", format!("{} clients are online at the end although every connection has ended", last.1));
            }
            // sessions that may expire later have a timer
            let timers = v.conns[1..].iter().filter(|c| c.ok() && c.p.ver == 5 && c.p.expiry.is_some_and(|e| c.end.as_ref().is_none_or(|x| v.t(x.0) + (e as u64 + 20) * SEC > v.end))).count();
            // and the one of the keep-alive runs until it would have been due
            let timers = timers + v.conns[1..].iter().filter(|c| c.ok() && c.end.as_ref().is_none_or(|x| v.t(x.0) + (2 * c.p.keep_alive.max(10) as u64 + 5) * SEC > v.end)).count();
            if last.3 > base.3 + last.2 + timers {
                o.fail("C23.left", format!("{} tasks of the broker are left, {} before any connection, {} sessions are kept, {timers} timers", last.3, base.3, last.2));
            }
            o.stat("runs whose tasks all ended", 1);
        }
    }
    o.stat("answered pings", pings);
    o.stat("accepted connects", connects);
    o.stat("probes delivered", probes);
    o.stat("probes between bystanders", near);
}

// ------------------------------------------------------------------ C24

/// A client that does not read, and much to send to it: the publishers have to wait.
fn stalled(g: &mut G) {
    g.kind("stalled");
    let np = g.range(1, 3);
    let max = g.pick(&[5u64, 20, 50]);
    g.cfg("max_in_mem_pending_messages", json!(max));
    for k in 1..g.p.fix_nets.len() {
        g.p.fix_nets[k].lat = (1, 50);
        g.p.fix_nets[k].win = (0, g.pick(&[500usize, 2000, 6000]));
    }
    let ver = g.ver();
    let c = ConnP { net: 1, keep_alive: if ver == 5 { 3000 } else { 0 }, ping: false, ..g.conn("sub0", ver) };
    let q = g.pick(&[0, 0, 1, 2]);
    let mut ops = vec![Op::Connect(c), Op::Sub { filters: vec![("t/#".into(), q)], sid: None, wait: 20_000 }, Op::Sync(1), Op::Read(false), Op::Sync(2)];
    let ms = g.pick(&[3000, 10_000, 40_000]);
    ops.push(Op::Sleep(ms));
    ops.push(Op::Mark("full".into()));
    ops.push(Op::Read(true));
    ops.push(Op::Sleep(60_000));
    g.actor("sub0", ops);
    for k in 0..np {
        let ver = g.ver();
        let mut c = g.conn(&format!("pub{k}"), ver);
        c.net = 0;
        let mut ops = vec![Op::Connect(c), Op::Sync(1), Op::Sync(2), Op::Sleep(100)];
        for _ in 0..g.range(2, 8) {
            let n = g.range(30, 120);
            let p = PubP { topic: "t/a".into(), qos: g.pick(&[0, 0, 0, 1]), tag: g.tags(n), pad: 6000, quota_wait: Some(3000), ..Default::default() };
            ops.push(Op::Burst { p, n });
            ops.push(Op::Ping(1));
        }
        ops.push(Op::Sleep(100_000));
        g.actor(&format!("pub{k}"), ops);
    }
}
fn c24(g: &mut G) {
    g.sched();
    g.listeners(15);
    g.nets(3);
    g.p.settle = 20;
    if g.pc(8) {
        return stalled(g);
    }
    let max = g.pick(&[1u64, 2, 3, 5, 10, 20, 50]);
    g.cfg("max_in_mem_pending_messages", json!(max));
    if g.pc(40) {
        let n = g.range(1, 8);
        g.cfg("max_inflight_client", json!(n));
    }
    if g.pc(40) {
        let n = g.range(1, 10);
        g.cfg("inflight_timeout", json!(n));
    }
    let np = g.range(1, 3);
    let phases = g.range(1, 4) as u32;
    for s in 0..g.range(1, 2) {
        let ver = g.ver();
        let mut c = g.conn(&format!("sub{s}"), ver);
        c.keep_alive = 0;
        c.ping = false;
        if ver == 5 && g.pc(50) {
            c.rx_max = Some(g.range(1, 5) as u16);
        }
        if ver == 5 {
            c.keep_alive = 3000;
        }
        let mut first = c.clone();
        first.net = 0;
        let mut ops = vec![Op::Connect(first)];
        let q = g.pick(&[1, 1, 2, 2]);
        ops.push(Op::Sub { filters: vec![("t/#".into(), q)], sid: None, wait: 20_000 });
        ops.push(Op::Sync(1));
        for k in 0..phases {
            let k = 10 + 2 * k;
            let mut up = true;
            match g.below(9) {
                0 | 1 => {
                    ops.push(Op::Disconnect { code: 0, expiry: None });
                    up = false;
                }
                2 => {
                    let k = g.pick(&['r', 'f']);
                    ops.push(Op::Cut(k));
                    up = false;
                }
                3 | 4 => ops.push(Op::Ack(Ack::Hold)),
                5 => ops.push(Op::Ack(Ack::Some(50))),
                6 => ops.push(Op::Read(false)),
                7 => ops.push(Op::HoldRel(true)),
                _ => {}
            }
            ops.push(Op::Sleep(2000));
            ops.push(Op::Sync(k));
            ops.push(Op::Sync(k + 1));
            ops.push(Op::Sleep(3000));
            ops.push(Op::Mark("kept".into()));
            if g.pc(40) && up {
                let x = g.pick(&[Op::Disconnect { code: 0, expiry: None }, Op::Cut('r')]);
                ops.push(x);
                ops.push(Op::Sleep(1500));
                up = false;
            }
            let held = g.pc(25);
            if !held {
                ops.push(Op::Ack(Ack::Auto));
            }
            if up {
                ops.push(Op::Read(true));
                if !held {
                    ops.push(Op::Release);
                }
            } else if g.pc(85) {
                let mut c = c.clone();
                c.net = g.any_net();
                c.listener = g.any_listener();
                ops.push(Op::Connect(c));
                if g.pc(20) {
                    let (dir, bytes, kind) = (g.below(2) as usize, g.range(0, 300), g.pick(&['r', 'f']));
                    ops.push(Op::CutAfter { dir, bytes, kind });
                }
            }
            let ms = g.pick(&[0, 100, 5000]);
            ops.push(Op::Sleep(ms));
        }
        ops.push(Op::Release);
        calm(&mut ops, c, 40_000);
        g.actor(&format!("sub{s}"), ops);
    }
    for s in 0..np {
        let ver = g.ver();
        let mut c = g.conn(&format!("pub{s}"), ver);
        c.net = 0;
        let mut ops = vec![Op::Connect(c), Op::Sync(1)];
        for k in 0..phases {
            ops.push(Op::Sync(10 + 2 * k));
            for _ in 0..g.range(0, 2) {
                let n = match g.below(5) {
                    0 => g.range(1, 3),
                    1 => max,
                    2 => max + 1,
                    3 => max.saturating_sub(1).max(1),
                    _ => g.range(1, 2 * max + 3),
                };
                let n = (n / np).max(1);
                let p = PubP { topic: g.pick(&["t/a", "t/b"]).into(), qos: g.pick(&[0, 1, 1, 2, 2]), tag: g.tags(n), pad: g.pick(&[0, 0, 50, 900]), quota_wait: Some(3000), ..Default::default() };
                ops.push(Op::Burst { p, n });
                if g.pc(30) {
                    ops.push(Op::Sleep(700));
                }
            }
            ops.push(Op::WaitAcks(4000));
            ops.push(Op::Sync(11 + 2 * k));
        }
        g.actor(&format!("pub{s}"), ops);
    }
}
fn j24(v: &View, o: &mut Outcome) {
    let max = v.plan.cfg["max_in_mem_pending_messages"].as_u64().unwrap_or(256) as usize;
    let np = v.plan.actors.iter().filter(|a| a.name.starts_with("pub")).count();
    super::delivery::check_order(v, o, "C24");
    let got = received(v);
    let (mut owed, mut lost, mut bounds) = (0, 0, 0);
    for a in (0..v.plan.actors.len()).filter(|a| v.name(*a).starts_with("sub")) {
        let subs: Vec<&SubR> = v.subs.iter().filter(|s| s.actor == a).collect();
        let [s] = subs[..] else { continue };
        if s.granted().is_none_or(|q| q == 0) || !v.lasting(&v.conns[s.conn]) || !v.responsive(a) {
            continue;
        }
        let last_auto = v.recs.iter().rev().find(|r| r.actor == a && matches!(r.ev, Ev::AckMode(_))).is_none_or(|r| r.ev == Ev::AckMode(true));
        if !last_auto || v.last_conn(a).is_some_and(|c| v.t(c.open) + 20 * SEC > v.end || c.hurt) {
            continue;
        }
        // publishers whose messages were accepted once and for all
        let ms: Vec<&PubR> = v.pubs.values().filter(|p| p.tag > 0 && p.qos > 0 && s.ack.unwrap() < p.out && matches(&s.filter, &p.topic)).collect();
        if ms.iter().any(|p| p.out != p.last_out || !v.steady(p.actor)) {
            continue;
        }
        // when the broker certainly knew that the message was completed
        let mut pid_of: BTreeMap<u16, u64> = BTreeMap::new();
        let mut done: BTreeMap<u64, Ns> = BTreeMap::new();
        let mut first_done: BTreeMap<u64, usize> = BTreeMap::new();
        for (i, r) in v.recs.iter().enumerate().filter(|(_, r)| r.actor == a) {
            match &r.ev {
                Ev::In(Pkt::Publish(p)) => {
                    let tag = crate::client::untag(&p.payload).0;
                    if p.qos > 0 {
                        pid_of.insert(p.pid, tag);
                        let known = done.get(&tag).is_some_and(|t| *t < r.t);
                        if known {
                            o.fail("C24.again", format!("message {tag} was sent to {} again at {:.3} s although it had acknowledged it", v.name(a), r.t as f64 / 1e9));
                        }
                    }
                }
                Ev::Out(Pkt::Ack { kind: 4 | 7, pid, .. }) => {
                    let Some(tag) = pid_of.get(pid) else { continue };
                    first_done.entry(*tag).or_insert(i);
                    let c = &v.conns[r.conn];
                    // what is written to a narrow way may have been decided upon long ago
                    let narrow = v.plan.fix_nets.get(c.p.net).is_some_and(|n| n.win.1 > 0 && n.win.1 < 8000);
                    let d = if narrow { 30 } else { 2 } * SEC;
                    if alive_to(v, c) >= r.t + d && !v.recs.iter().any(|x| x.conn == c.id && matches!(x.ev, Ev::Read(false)) && x.t < r.t + d) {
                        done.entry(*tag).or_insert(r.t + d);
                    }
                }
                _ => {}
            }
        }
        let inf = Ns::MAX;
        let kept: Vec<&&PubR> = ms.iter().filter(|p| got.contains_key(&(a, p.tag))).collect();
        for p in &ms {
            let x = got.get(&(a, p.tag)).map_or(&[][..], |x| &x[..]);
            if p.qos == 2 && s.granted() == Some(2) && x.len() > 1 {
                o.fail("C24.twice", format!("QoS 2 message {} reached {} {} times", p.tag, v.name(a), x.len()));
            }
            for y in x {
                if y.len != p.len || y.topic != p.topic || y.qos > p.qos {
                    o.fail("C24.changed", format!("message {} reached {} with {} bytes on {}, not {} on {}", p.tag, v.name(a), y.len, y.topic, p.len, p.topic));
                }
            }
            let Some((ack, code)) = p.acked else { continue };
            if code >= 0x80 {
                continue;
            }
            // a message waits in channels while the client does not read: it may be put in the queue later
            let stalled = v.recs.iter().any(|r| r.actor == a && matches!(r.ev, Ev::Read(false)));
            let before: Vec<&&&PubR> = kept.iter().filter(|m| m.tag != p.tag && (stalled || v.t(m.out) < v.t(ack) + SEC)).collect();
            let oldest = before.iter().filter(|m| stalled || done.get(&m.tag).copied().unwrap_or(inf) >= v.t(p.out)).map(|m| m.out).min();
            let n = oldest.map_or(0, |i| before.iter().filter(|m| m.acked.is_none_or(|x| x.0 > i)).count());
            if n < max {
                owed += 1;
                if x.is_empty() {
                    o.fail("C24.lost", format!("message {} on {} never reached {} although at most {n} others were kept for it when it was accepted; the bound is {max}", p.tag, p.topic, v.name(a)));
                }
            } else if x.is_empty() {
                lost += 1;
            }
        }
        // what was kept when the client said so
        for (i, r) in v.recs.iter().enumerate().filter(|(_, r)| r.actor == a && matches!(&r.ev, Ev::Mark(m) if m == "kept")) {
            let Some(c) = v.of(a).filter(|c| c.open < i).last() else { continue };
            let reading = !v.recs[..i].iter().rev().find(|x| x.conn == c.id && matches!(x.ev, Ev::Read(_))).is_some_and(|x| x.ev == Ev::Read(false));
            let n = kept
                .iter()
                .filter(|m| m.acked.is_some_and(|x| v.t(x.0) + SEC < r.t) && first_done.get(&m.tag).is_none_or(|d| *d > i))
                .count();
            let limit = if reading { max } else { max + 8 + 12 * np };
            bounds += 1;
            if n > limit {
                o.fail("C24.bound", format!("at {:.3} s {n} messages were kept for {}, the bound is {max}", r.t as f64 / 1e9, v.name(a)));
            }
        }
    }
    // what waits for a client that does not read without being in its queue
    for (i, r) in v.recs.iter().enumerate().filter(|(_, r)| matches!(&r.ev, Ev::Mark(m) if m == "full")) {
        let Some(c) = v.of(r.actor).filter(|c| c.open < i).last() else { continue };
        if v.recs[..i].iter().rev().find(|x| x.conn == c.id && matches!(x.ev, Ev::Read(_))).is_none_or(|x| x.ev == Ev::Read(true)) {
            continue;
        }
        let mut n = 0;
        for p in v.pubs.values().filter(|p| p.tag > 0 && p.out == p.last_out && got.get(&(r.actor, p.tag)).is_some_and(|x| x[0].i > i)) {
            // accepted before: acknowledged, or a later PINGREQ answered
            let pc = &v.conns[p.conn];
            let pings = pc.outs.iter().filter(|j| **j < p.out && matches!(v.recs[**j].ev, Ev::Out(Pkt::Pingreq))).count();
            let ponged = pc.ins.iter().filter(|j| **j < i && matches!(v.recs[**j].ev, Ev::In(Pkt::Pingresp))).count() > pings;
            let acked = p.acked.is_some_and(|x| x.0 < i);
            n += (ponged || acked) as usize;
        }
        // its queue, its write queue, the channels, and what TLS and the network hold
        let limit = max + 32 + 8 + 12 * np + (v.plan.fix_nets.iter().map(|n| if n.win.1 == 0 { 262_144 } else { n.win.1 }).max().unwrap_or(262_144) + 300_000) / 6000;
        bounds += 1;
        o.stat("bounds checked with a client that does not read", 1);
        if n > limit {
            o.fail("C24.flow", format!("at {:.3} s {n} messages were accepted for {} which does not read; at most {limit} fit anywhere", r.t as f64 / 1e9, v.name(r.actor)));
        }
    }
    o.stat("messages owed within the bound", owed);
    o.stat("messages lost beyond the bound", lost);
    o.stat("bounds checked", bounds);
}
