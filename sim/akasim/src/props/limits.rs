//! C15: limits agreed on at CONNECT.
use super::delivery::{answered_of, calm, check_delivery_if, received};
use super::*;
use crate::client::{Ev, SEC};
use crate::view::*;
use crate::wire::{Pkt, prop_u};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        budget: (14_000, 45),
        plan: c15,
        judge: j15,
        rule: "no packet to a v5 client exceeds its maximum packet size, topic alias maximum or receive maximum, aliases resolve to the topic bound last, and every message that fits arrives; the first packet of a client that exceeds what CONNACK announced gets a DISCONNECT with the matching reason and has no effect, and no other packet does",
        note: "windows of 1 to 5, packet sizes around the limit, more topics than aliases, acknowledgements held back, delayed and out of order, reconnects with other limits; clients at and beyond the broker's own limits",
    }]
}

fn topic(g: &mut G) -> String {
    match g.below(4) {
        0 => format!("t/{}", g.pick(&["a", "b", "c", "d", "e"])),
        1 => format!("t/{}/{}", g.pick(&["a", "b"]), "long".repeat(g.range(1, 30) as usize)),
        _ => format!("t/{}", g.below(8)),
    }
}
fn limits(g: &mut G, c: &mut ConnP) {
    if c.ver == 5 {
        c.rx_max = g.pc(65).then(|| g.pick(&[1, 1, 2, 3, 5]));
        c.max_packet = g.pc(65).then(|| g.range(64, 300) as u32);
        c.alias_max = g.pc(70).then(|| g.pick(&[0, 1, 2, 3, 10]));
    }
}
fn c15(g: &mut G) {
    g.sched();
    g.listeners(15);
    g.nets(3);
    g.p.settle = 30;
    g.cfg("max_in_mem_pending_messages", json!(100_000));
    if g.pc(60) {
        g.kind("receiver");
        receiver(g);
    } else {
        g.kind("sender");
        sender(g);
    }
}
fn receiver(g: &mut G) {
    if g.pc(30) {
        let n = g.range(1, 6);
        g.cfg("max_inflight_client", json!(n));
    }
    if g.pc(40) {
        let n = g.range(1, 20);
        g.cfg("inflight_timeout", json!(n));
    }
    for s in 0..g.range(1, 2) {
        let ver = g.pick(&[5, 5, 5, 4]);
        let mut c = g.conn(&format!("sub{s}"), ver);
        limits(g, &mut c);
        let mut first = c.clone();
        first.net = 0;
        let steady = g.pc(35);
        if steady {
            (first.clean, first.keep_alive) = (g.pc(50), 60);
        }
        let mut ops = vec![Op::Connect(first)];
        for _ in 0..g.range(1, 3) {
            let f = g.pick(&["t/#", "t/#", "t/+", "t/a", "t/a/#"]);
            let q = g.range(0, 2) as u8;
            let sid = (ver == 5 && g.pc(40)).then(|| g.pick(&[1, 127, 128, 200_000_000]));
            ops.push(Op::Sub { filters: vec![(f.into(), q)], sid, wait: 20_000 });
        }
        ops.push(Op::Sync(1));
        for _ in 0..g.range(1, 6) {
            match g.below(9) {
                0..=3 => {
                    let a = g.pick(&[Ack::Auto, Ack::Hold, Ack::Hold, Ack::Delay(400), Ack::Some(50)]);
                    ops.push(Op::Ack(a));
                }
                4 | 5 => ops.push(Op::Release),
                6 => {
                    ops.push(Op::Read(false));
                    let ms = g.range(10, 1500);
                    ops.push(Op::Sleep(ms));
                    ops.push(Op::Read(true));
                }
                _ if steady => {}
                7 => {
                    let k = g.cut();
                    ops.push(Op::Cut(k));
                    let ms = g.pick(&[0, 300, 3000]);
                    ops.push(Op::Sleep(ms));
                    limits(g, &mut c);
                    let mut c = c.clone();
                    c.net = g.any_net();
                    ops.push(Op::Connect(c));
                }
                _ => {
                    limits(g, &mut c);
                    let mut c = c.clone();
                    c.net = g.any_net();
                    ops.push(Op::Connect(c));
                }
            }
            let ms = g.pick(&[5, 200, 1500]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
        }
        if steady {
            ops.push(Op::Ack(Ack::Auto));
            ops.push(Op::Release);
            ops.push(Op::Sleep(1000));
            ops.push(Op::Release);
            ops.push(Op::Sleep(60_000));
        } else {
            limits(g, &mut c);
            calm(&mut ops, c, 60_000);
        }
        g.actor(&format!("sub{s}"), ops);
    }
    for s in 0..g.range(1, 2) {
        let ver = g.ver();
        let mut c = g.conn(&format!("pub{s}"), ver);
        (c.net, c.clean) = (0, true);
        let mut ops = vec![Op::Connect(c), Op::Sync(1)];
        for _ in 0..g.range(2, 14) {
            let n = g.pick(&[1, 1, 1, 2, 5, 12]);
            let pad = g.pick(&[0, 0, 20, 250, 260, 270, 280]);
            let pad = if pad == 0 { g.range(0, 260) } else { pad + g.range(0, 12) } as usize;
            let p = PubP { topic: topic(g), qos: g.pick(&[0, 1, 1, 2, 2]), tag: g.tags(n), pad, retain: g.pc(15), expiry: g.pc(20).then_some(10_000), ..Default::default() };
            ops.push(Op::Burst { p, n });
            if g.pc(40) {
                let ms = g.pick(&[0, 50, 1000]);
                ops.push(Op::Sleep(ms));
            }
        }
        ops.push(Op::WaitAcks(30_000));
        if ver == 5 && g.pc(50) {
            ops.push(Op::Ping(10_000));
        }
        g.actor(&format!("pub{s}"), ops);
    }
    if g.pc(30) {
        // retained messages, all at once
        let mut c = g.conn("late", 5);
        (c.clean, c.net) = (true, 0);
        limits(g, &mut c);
        let ms = g.range(500, 4000);
        let q = g.range(0, 2) as u8;
        g.actor("late", vec![Op::Sync(1), Op::Sleep(ms), Op::Connect(c), Op::Sub { filters: vec![("t/#".into(), q)], sid: None, wait: 0 }, Op::Sleep(3000)]);
    }
}
fn sender(g: &mut G) {
    let mut most = 2;
    if g.pc(60) {
        let n = g.range(1, 4);
        g.cfg("max_inflight_server", json!(n));
    }
    if g.pc(60) {
        let n = g.pick(&[0, 1, 2, 5]);
        g.cfg("topic_alias_max", json!(n));
    }
    let size = g.pc(50).then(|| g.range(100, 300));
    if let Some(n) = size {
        g.cfg("max_packet_size_server", json!(n));
    }
    if g.pc(25) {
        most = g.below(2);
        g.cfg("max_allowed_qos", json!(most));
    }
    for k in ["retain_available", "shared_subscription_available", "subscription_id_available", "wildcard_subscription_available"] {
        if g.pc(20) {
            g.cfg(k, json!(false));
        }
    }
    let mut c = g.conn("sub", 4);
    c.net = 0;
    g.actor("sub", vec![Op::Connect(c), Op::Sub { filters: vec![("t/#".into(), 2)], sid: None, wait: 20_000 }, Op::Sync(1)]);
    if g.pc(40) {
        let ver = g.ver();
        let mut c = g.conn("late", ver);
        c.net = 0;
        let ms = g.range(0, 3000);
        g.actor("late", vec![Op::Connect(c), Op::Sync(1), Op::Sleep(ms), Op::Sub { filters: vec![("t/#".into(), 2)], sid: None, wait: 20_000 }]);
    }
    let ver = g.ver();
    let mut c = g.conn("good", ver);
    (c.net, c.clean) = (0, true);
    let mut ops = vec![Op::Connect(c), Op::Sync(1)];
    for _ in 0..3 {
        let p = PubP { topic: "t/good".into(), qos: g.range(0, most) as u8, tag: g.tags(3), ..Default::default() };
        ops.push(Op::Burst { p, n: 3 });
        let ms = g.range(0, 2000);
        ops.push(Op::Sleep(ms));
    }
    ops.push(Op::WaitAcks(20_000));
    g.actor("good", ops);
    for s in 0..g.range(1, 2) {
        let name = format!("bad{s}");
        let mut ops = vec![Op::Sync(1)];
        // sessions that are resumed have no QoS 2 messages open
        let resume = g.pc(30);
        let most = if resume { most.min(1) } else { most };
        for _ in 0..g.range(1, 4) {
            let mut c = g.conn(&name, 5);
            (c.clean, c.retries, c.wait) = (!resume, 0, 4000);
            c.expiry = (resume || g.pc(50)).then_some(1000);
            if g.pc(15) {
                c.will = Some(WillP { topic: "w/x".into(), tag: g.tag(), qos: g.below(3) as u8, retain: g.pc(30), ..Default::default() });
            }
            c.problem_info = g.pc(30).then(|| g.below(2) as u8);
            if g.pc(30) {
                c.max_packet = Some(g.range(30, 70) as u32);
            }
            ops.push(Op::Connect(c));
            let dare = g.pick(&[0, 0, 10, 30]);
            let hold = g.pc(50);
            ops.push(Op::HoldRel(hold));
            for _ in 0..g.range(1, 10) {
                if g.pc(12) {
                    let f = g.pick(&["s/a", "s/#", "s/+/x", "$share/g/s/a", "$share/g/s/#"]);
                    let sid = g.pc(30).then_some(7);
                    let q = g.below(3) as u8;
                    ops.push(Op::Sub { filters: vec![(f.into(), q)], sid, wait: 0 });
                    continue;
                }
                let n = g.pick(&[1, 1, 1, 2, 3]);
                let dare = |g: &mut G| dare > 0 && g.pc(dare);
                let mut p = PubP { topic: topic(g), qos: g.range(0, most) as u8, tag: g.tags(n), ..Default::default() };
                p.topic.truncate(20);
                if dare(g) {
                    p.qos = g.range(1, 2 - resume as u64) as u8;
                }
                p.retain = dare(g);
                // the broker's limit, or one more
                p.quota_wait = Some(if dare(g) { 0 } else { 2000 });
                if let Some(n) = size {
                    let head = 3 + 2 + p.topic.len() as u64 + 2 + 1 + 3;
                    p.pad = match g.below(3) {
                        0 => 0,
                        _ if dare(g) => n - head + g.range(0, 20),
                        _ => (n - head).saturating_sub(g.range(0, 20)),
                    } as usize;
                }
                if g.pc(30) {
                    let m = g.p.cfg["topic_alias_max"].as_u64().unwrap_or(65535);
                    let a = if dare(g) { g.pick(&[0, m + 1, 65535]) } else if m == 0 { 99_999 } else { g.range(1, m.min(4)) };
                    if a <= 65535 {
                        p.alias = Some(a as u16);
                        // of a bound alias only, usually
                        let bound: Option<&PubP> = ops.iter().rev().take_while(|o| !matches!(o, Op::Connect(_))).find_map(|o| match o {
                            Op::Burst { p: q, .. } if q.alias == p.alias && !q.noname => Some(q),
                            _ => None,
                        });
                        if let (Some(q), true) = (bound, g.pc(60)) {
                            (p.topic, p.noname) = (q.topic.clone(), true);
                        } else if dare(g) {
                            p.noname = true;
                        }
                    }
                }
                ops.push(Op::Burst { p, n });
                if g.pc(30) {
                    let ms = g.range(0, 300);
                    ops.push(Op::Sleep(ms));
                }
                if hold && g.pc(10) {
                    ops.push(Op::HoldRel(false));
                    ops.push(Op::HoldRel(true));
                }
            }
            ops.push(Op::AwaitClose(6000));
            ops.push(Op::HoldRel(false));
        }
        g.actor(&name, ops);
    }
}

/// Upper bound of the size of the PUBLISH packets that carry `p` to `a`, without alias.
fn size(v: &View, a: usize, p: &PubR) -> u64 {
    let var = |n: u64| 1 + (n > 127) as u64 + (n > 16383) as u64 + (n > 2_097_151) as u64;
    let sids: u64 = v.subs.iter().filter(|s| s.actor == a && matches(&v.subtopic(s), &p.topic)).filter_map(|s| s.sid).map(|n| 1 + var(n as u64)).sum();
    let props = sids + if p.expiry.is_some() { 5 } else { 0 };
    let body = 2 + p.topic.len() as u64 + 2 + var(props) + props + p.len as u64;
    1 + var(body) + body
}
/// It fits into every connection of the actor.
fn fits(v: &View, a: usize, p: &PubR) -> bool {
    let least = v.of(a).filter(|c| c.p.ver == 5).filter_map(|c| c.p.max_packet).min();
    least.is_none_or(|m| size(v, a, p) <= m as u64)
}
fn j15(v: &View, o: &mut Outcome) {
    check_delivery_if(v, o, "C15", &|a, p| fits(v, a, p));
    window(v, o);
    announced(v, o);
    let cheat = |a: usize| v.name(a).starts_with("bad");
    answered_of(v, o, "C15", &|a| !cheat(a));
    for c in v.conns[1..].iter().filter(|c| cheat(c.actor) && c.p.ver == 5) {
        cheater(v, o, c);
    }
    // what arrives is what was sent, and QoS 0 arrives too
    let got = received(v);
    for x in &v.apps {
        if let Some(p) = v.pubs.get(&x.tag) {
            if x.topic != p.topic && !(cheat(p.actor) && !v.conns[p.conn].outs.contains(&p.last_out)) {
                o.fail("C15.topic", format!("message {} of {} on {} reached {} on {}", p.tag, v.name(p.actor), p.topic, v.name(x.actor), x.topic));
            }
            if x.retain && !cfg(v).retain {
                o.fail("C15.retained", format!("message {} reached {} with the retain flag although nothing is retained", p.tag, v.name(x.actor)));
            }
            if v.name(x.actor) == "late" && !cfg(v).retain && v.subs.iter().any(|s| s.actor == x.actor && v.processed(p).is_some_and(|i| i < s.out)) {
                o.fail("C15.retained", format!("message {} was retained although that is off", p.tag));
            }
            if x.tag > 0 && x.qos > p.qos {
                o.fail("C15.qos", format!("message {} arrived with QoS {}, it was sent with {}", p.tag, x.qos, p.qos));
            }
        }
    }
    for s in v.subs.iter().filter(|s| v.steady(s.actor) && s.granted().is_some() && s.share().is_none()) {
        for p in v.pubs.values().filter(|p| p.tag > 0 && !cheat(p.actor) && p.out > s.ack.unwrap() && v.steady(p.actor) && matches(&s.filter, &p.topic)) {
            let n = got.get(&(s.actor, p.tag)).map_or(0, |x| x.len());
            if fits(v, s.actor, p) && (p.qos == 0 || s.granted() == Some(0)) && v.processed(p).is_some() {
                o.stat("QoS 0 deliveries owed", 1);
                if n == 0 {
                    o.fail("C15.lost0", format!("message {} of {} (QoS {}) never reached {}", p.tag, v.name(p.actor), p.qos, v.name(s.actor)));
                }
            }
        }
    }
}
/// The publishes outstanding on each connection.
fn window(v: &View, o: &mut Outcome) {
    let default = v.plan.cfg["max_inflight_client"].as_u64().unwrap_or(10) as usize;
    for c in v.conns[1..].iter().filter(|c| c.ok() && c.p.ver == 5) {
        let max = c.p.rx_max.map_or(default, |x| x as usize);
        let mut open: BTreeSet<u16> = BTreeSet::new();
        let (mut most, mut seen) = (0, BTreeSet::new());
        let mut refs: Vec<usize> = c.outs.iter().chain(&c.ins).copied().collect();
        refs.sort();
        for i in refs {
            match &v.recs[i].ev {
                // a repetition may cross the acknowledgement
                Ev::In(Pkt::Publish(p)) if p.qos > 0 && (seen.insert(p.pid) || !p.dup) => {
                    open.insert(p.pid);
                    most = most.max(open.len());
                    if open.len() > max {
                        o.fail("C15.receive-maximum", format!("{} publishes are outstanding on connection {} of {}, its receive maximum is {max}", open.len(), c.id, v.name(c.actor)));
                        break;
                    }
                }
                Ev::Out(Pkt::Ack { kind: 4 | 7, pid, .. }) => {
                    open.remove(pid);
                }
                Ev::Out(Pkt::Ack { kind: 5, pid, code }) if *code >= 0x80 => {
                    open.remove(pid);
                }
                _ => {}
            }
        }
        if most == max {
            o.stat("connections with a full window", 1);
        }
        o.stat("deliveries by alias", v.apps.iter().filter(|x| x.conn == c.id && prop_u(&x.props, 0x23).is_some()).count() as u64);
    }
}
struct Cfg {
    rx: usize,
    alias: u64,
    size: usize,
    qos: u8,
    retain: bool,
    shared: bool,
    sid: bool,
    wild: bool,
}
fn cfg(v: &View) -> Cfg {
    let c = &v.plan.cfg;
    let b = |k: &str| c[k].as_bool().unwrap_or(true);
    Cfg {
        rx: c["max_inflight_server"].as_u64().unwrap_or(10) as usize,
        alias: c["topic_alias_max"].as_u64().unwrap_or(65535),
        size: c["max_packet_size_server"].as_u64().unwrap_or(268_435_460) as usize,
        qos: c["max_allowed_qos"].as_u64().unwrap_or(2) as u8,
        retain: b("retain_available"),
        shared: b("shared_subscription_available"),
        sid: b("subscription_id_available"),
        wild: b("wildcard_subscription_available"),
    }
}
/// CONNACK and SUBACK say what is configured.
fn announced(v: &View, o: &mut Outcome) {
    let f = cfg(v);
    for c in v.conns[1..].iter().filter(|c| c.ok() && c.p.ver == 5) {
        let p = |id: u8, d: u64| prop_u(c.props(), id).unwrap_or(d);
        let told = [p(0x21, 65535), p(0x24, 2), p(0x25, 1), p(0x27, u32::MAX as u64), p(0x22, 0), p(0x28, 1), p(0x29, 1), p(0x2a, 1)];
        let is = [f.rx as u64, f.qos as u64, f.retain as u64, f.size as u64, f.alias, f.wild as u64, f.sid as u64, f.shared as u64];
        if told != is {
            o.fail("C15.announced", format!("CONNACK announces {told:?}, configured is {is:?} (receive maximum, QoS, retain, packet size, aliases, wildcards, subscription identifiers, shared subscriptions)"));
        }
    }
    for s in v.subs.iter().filter(|s| s.ack.is_some()) {
        let want = if v.conns[s.conn].p.ver < 5 {
            (s.opt & 3).min(f.qos)
        } else if s.sid.is_some() && !f.sid {
            0xa1
        } else if s.share().is_some() && !f.shared {
            0x9e
        } else if s.filter.contains(['+', '#']) && !f.wild {
            0xa2
        } else {
            (s.opt & 3).min(f.qos)
        };
        if s.code != Some(want) {
            o.fail("C15.suback", format!("SUBACK answers {:?} to {}, {want:#x} is right", s.code, s.filter));
        }
    }
}
/// A client that may exceed the broker's limits, on a connection to which nothing else happens.
fn cheater(v: &View, o: &mut Outcome, c: &Conn) {
    let f = cfg(v);
    if c.hurt || c.p.cut.is_some() || v.contested(&c.p.cid) {
        return;
    }
    if let Some(w) = &c.p.will {
        let mut codes = Vec::new();
        if w.retain && !f.retain {
            codes.push(0x9a);
        }
        if w.qos > f.qos {
            codes.push(0x9b);
        }
        if !codes.is_empty() {
            match &c.ack {
                Some((_, _, code, _)) if !codes.contains(code) => o.fail("C15.will", format!("CONNACK code {code:#x} for a will the broker does not support")),
                None if c.sent.is_some_and(|i| v.t(i) + 5 * SEC < v.end) => o.fail("C15.will", "no CONNACK for a will the broker does not support"),
                _ => o.stat("unsupported wills refused", 1),
            }
            return;
        }
    }
    if !c.ok() {
        if c.fail.is_some() && c.sent.is_some() {
            o.fail("C15.refused", format!("{} was not accepted", v.name(c.actor)));
        }
        return;
    }
    let mut names: BTreeMap<u64, String> = BTreeMap::new();
    let mut open: BTreeSet<u16> = BTreeSet::new();
    let mut offence: Option<(usize, Vec<u8>, &str)> = None;
    for i in &c.outs {
        let Ev::Out(pkt) = &v.recs[*i].ev else { continue };
        let n = wire::encode(pkt, 5).len();
        let mut off = |codes: &[u8], what| {
            if offence.is_none() {
                offence = Some((*i, codes.to_vec(), what));
            }
        };
        if n > f.size {
            off(&[0x95], "a packet larger than announced");
        }
        match pkt {
            Pkt::Publish(p) => {
                if p.qos > f.qos {
                    off(&[0x9b], "a QoS that is not supported");
                }
                match prop_u(&p.props, 0x23) {
                    Some(a) if a == 0 || a > f.alias => off(&[0x94], "a topic alias out of range"),
                    Some(a) if p.topic.is_empty() && !names.contains_key(&a) => off(&[0x82, 0x94], "an unknown topic alias"),
                    Some(a) if !p.topic.is_empty() => {
                        names.insert(a, p.topic.clone());
                    }
                    _ => {}
                }
                if p.qos == 2 && !open.contains(&p.pid) {
                    if open.len() >= f.rx {
                        off(&[0x93], "more QoS 2 messages than announced");
                    }
                    open.insert(p.pid);
                }
            }
            Pkt::Ack { kind: 6, pid, .. } => {
                open.remove(pid);
            }
            _ => {}
        }
        if offence.is_some() {
            break;
        }
    }
    let own = c.end.as_ref().is_some_and(|e| !matches!(e.1, Ev::Closed(_)));
    let sub = v.subs.iter().find(|s| v.name(s.actor) == "sub" && s.granted().is_some() && v.steady(s.actor));
    let mine: Vec<&PubR> = v.pubs.values().filter(|p| p.tag > 0 && p.conn == c.id).collect();
    let seen = |p: &PubR| v.apps.iter().any(|x| x.tag == p.tag);
    match &offence {
        None => {
            if let Some((_, code)) = c.in_disc {
                o.fail("C15.innocent", format!("connection {} of {} kept within all limits and got DISCONNECT {code:#x}", c.id, v.name(c.actor)));
            } else if v.dropped(c).is_some() {
                o.fail("C15.innocent", format!("connection {} of {} kept within all limits and was closed", c.id, v.name(c.actor)));
            }
            o.stat("connections at the limits", 1);
        }
        Some((i, codes, what)) => {
            let due = v.t(*i) + 5 * SEC;
            match c.in_disc {
                Some((_, code)) if codes.contains(&code) => {
                    o.stat(what, 1);
                    if !own && c.end.is_none() && v.end > due {
                        o.fail("C15.open", format!("the connection stays open after DISCONNECT for {what}"));
                    }
                }
                Some((_, code)) => o.fail("C15.reason", format!("DISCONNECT {code:#x} for {what}, right is {codes:02x?}")),
                None => {
                    if !own && v.end > due && c.disc.is_none() {
                        o.fail("C15.tolerated", format!("connection {} of {}: {what} at {:.3} s was not answered with DISCONNECT", c.id, v.name(c.actor), v.t(*i) as f64 / 1e9));
                    }
                }
            }
            for p in mine.iter().filter(|p| p.out >= *i && seen(p) && c.outs.contains(&p.last_out)) {
                o.fail("C15.effect", format!("message {} was delivered although {what} came with it or before it", p.tag));
            }
        }
    }
    if let (Some(s), false) = (sub, own) {
        let end = offence.as_ref().map_or(usize::MAX, |x| x.0);
        for p in mine.iter().filter(|p| p.out > s.ack.unwrap() && p.out < end && matches(&s.filter, &p.topic)) {
            if !seen(p) && (end < usize::MAX || v.processed(p).is_some()) && v.t(p.out) + 5 * SEC < v.end {
                o.fail("C15.before", format!("message {} of {}, sent before anything wrong, was not delivered", p.tag, v.name(p.actor)));
            }
        }
    }
}
