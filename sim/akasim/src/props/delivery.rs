//! C01, C02, C03: delivery to persistent sessions, QoS 2 exchanges, order.
use super::*;
use crate::view::*;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            budget: (12000, 45),
            plan: c01,
            judge: j01,
            rule: "for every publish the broker acknowledged: each session subscribed before it, alive to the end of the run and connected there received it at least once (QoS 1) or exactly once (QoS 2)",
            note: "publishers and persistent subscribers with resets, closes and silent losses at random times and bytes, takeovers of their own sessions, held acknowledgements, small windows, every scheduler",
        },
        Prop {
            id: "C02",
            budget: (12000, 45),
            plan: c02,
            judge: j02,
            rule: "a QoS 2 message reaches each steady QoS 2 subscriber exactly once if its exchange completed and at most once otherwise; on every undisturbed connection each PUBLISH gets its PUBREC and each PUBREL its PUBCOMP; the broker drops no publisher",
            note: "publishers that hold PUBREL back, retransmit PUBLISH and PUBREL on the same and on later connections of the session, lose connections before, between and after the packets of the exchange, and reuse packet identifiers soon",
        },
        Prop {
            id: "C03",
            budget: (12000, 45),
            plan: c03,
            judge: j03,
            rule: "per publisher, topic and QoS, first receptions of a session with one subscription are in sending order; redelivered messages of a connection are in their original order",
            note: "bursts larger than every queue, stalled and slow subscribers, small windows and in-flight limits, reconnects of either side, held acknowledgements",
        },
    ]
}

/// The last part of a client's life: connected over a quiet network, acknowledging everything.
pub fn calm(ops: &mut Vec<Op>, mut c: ConnP, wait: u64) {
    c.net = 0;
    c.cut = None;
    c.retries = 8;
    ops.push(Op::Ack(Ack::Auto));
    ops.push(Op::HoldRel(false));
    ops.push(Op::Connect(c));
    ops.push(Op::Sleep(wait));
}
/// Things that happen to a connection.
pub fn mishaps(g: &mut G, ops: &mut Vec<Op>, c: &ConnP, n: u64) {
    for _ in 0..n {
        match g.below(12) {
            0 | 1 => {
                let k = g.cut();
                ops.push(Op::Cut(k));
            }
            2 | 3 => {
                let (dir, bytes, kind) = (g.below(2) as usize, g.range(0, 200), g.cut());
                ops.push(Op::CutAfter { dir, bytes, kind });
            }
            4 => {
                let (dir, ms) = (g.below(2) as usize, g.range(10, 2000));
                ops.push(Op::Stall { dir, ms });
            }
            5 => {
                let a = g.pick(&[Ack::Auto, Ack::Hold, Ack::Delay(300), Ack::Some(50)]);
                ops.push(Op::Ack(a));
            }
            6 => ops.push(Op::Release),
            7 => {
                ops.push(Op::Read(false));
                let ms = g.range(10, 1500);
                ops.push(Op::Sleep(ms));
                ops.push(Op::Read(true));
            }
            8 => ops.push(Op::Disconnect { code: 0, expiry: None }),
            _ => {}
        }
        let ms = g.pick(&[0, 1, 5, 30, 200, 1500]);
        let ms = g.range(0, ms);
        ops.push(Op::Sleep(ms));
        if g.pc(70) {
            // over a connection that is still up this is a takeover
            let mut c = c.clone();
            c.net = g.any_net();
            c.listener = g.any_listener();
            if g.pc(25) {
                c.cut = Some((g.below(2) as usize, g.range(0, 400), g.cut()));
            }
            ops.push(Op::Connect(c));
        }
    }
}

const TOPICS: [&str; 6] = ["a", "a/b", "a/b/c", "b", "b/x", "/a"];
const FILTERS: [&str; 10] = ["#", "+", "a/#", "a/+", "+/b", "a", "b/x", "b", "/+", "+/+/c"];

fn c01(g: &mut G) {
    g.sched();
    g.listeners(25);
    g.nets(3);
    g.p.settle = 30;
    if g.pc(30) {
        let n = g.range(1, 5);
        g.cfg("max_inflight_client", json!(n));
    }
    if g.pc(30) {
        let n = g.range(1, 5);
        g.cfg("max_inflight_server", json!(n));
    }
    if g.pc(50) {
        let n = g.range(1, 20);
        g.cfg("inflight_timeout", json!(n));
    }
    let (ns, np) = (g.range(1, 3), g.range(1, 3));
    for s in 0..ns {
        let ver = g.ver();
        let c = g.conn(&format!("sub{s}"), ver);
        let mut first = c.clone();
        first.net = 0;
        let mut ops = vec![Op::Connect(first)];
        for _ in 0..g.range(1, 2) {
            let f = g.pick(&FILTERS);
            let q = g.range(1, 2) as u8;
            ops.push(Op::Sub { filters: vec![(f.into(), q)], sid: None, wait: 20_000 });
        }
        ops.push(Op::Sync(1));
        let n = g.range(0, 5);
        mishaps(g, &mut ops, &c, n);
        calm(&mut ops, c, 60_000);
        g.actor(&format!("sub{s}"), ops);
    }
    for s in 0..np {
        let ver = g.ver();
        let mut c = g.conn(&format!("pub{s}"), ver);
        c.clean = g.pc(25);
        let mut first = c.clone();
        first.net = 0;
        let mut ops = vec![Op::Connect(first), Op::Sync(1)];
        for _ in 0..g.range(1, 6) {
            let n = g.pick(&[1, 1, 2, 5, 12]);
            let p = PubP { topic: g.pick(&TOPICS).into(), qos: g.range(1, 2) as u8, tag: g.tags(n), pad: g.pick(&[0, 0, 10, 900]), ..Default::default() };
            ops.push(Op::Burst { p, n });
            let n = g.pick(&[0, 0, 1, 2]);
            mishaps(g, &mut ops, &c, n);
        }
        calm(&mut ops, c, 0);
        ops.push(Op::WaitAcks(30_000));
        g.actor(&format!("pub{s}"), ops);
    }
}
/// Receptions by (actor, tag).
pub fn received(v: &View) -> BTreeMap<(usize, u64), Vec<&AppR>> {
    let mut m: BTreeMap<(usize, u64), Vec<&AppR>> = BTreeMap::new();
    for a in &v.apps {
        m.entry((a.actor, a.tag)).or_default().push(a);
    }
    m
}
/// Acknowledged QoS>0 publishes against lasting subscriptions.
pub fn check_delivery(v: &View, o: &mut Outcome, prop: &str) {
    check_delivery_if(v, o, prop, &|_, _| true)
}
/// `due`: whether the actor must get the message.
pub fn check_delivery_if(v: &View, o: &mut Outcome, prop: &str, due: &dyn Fn(usize, &PubR) -> bool) {
    let got = received(v);
    let mut checked = 0;
    for a in 0..v.plan.actors.len() {
        let subs = v.lasting_subs(a);
        if subs.is_empty() || !v.responsive(a) {
            continue;
        }
        for p in v.pubs.values() {
            if p.qos == 0 || p.tag == 0 || !matches!(p.acked, Some((_, c)) if c < 0x80) {
                continue;
            }
            let mine: Vec<&&SubR> = subs
                .iter()
                .filter(|s| s.share().is_none() && s.ack.unwrap() < p.out && matches(&s.filter, &p.topic) && !(s.opt & 4 != 0 && p.actor == a))
                .collect();
            let Some(q) = mine.iter().map(|s| v.min_granted(a, &s.filter, s.out)).max() else { continue };
            if q.min(p.qos) == 0 || !due(a, p) {
                continue;
            }
            checked += 1;
            let n = got.get(&(a, p.tag)).map_or(0, |x| x.len());
            if n == 0 {
                o.fail(
                    format!("{prop}.lost"),
                    format!("message {} on {} (QoS {}) acknowledged at {:.3} s never reached {}", p.tag, p.topic, p.qos, v.t(p.acked.unwrap().0) as f64 / 1e9, v.name(a)),
                );
            }
            // every subscription that could match at any time, for the number of copies
            let all: Vec<&SubR> = v.subs.iter().filter(|s| s.actor == a && matches(&v.subtopic(s), &p.topic)).collect();
            let every2 = all.iter().all(|s| s.code == Some(2));
            let filters: std::collections::BTreeSet<&str> = all.iter().map(|s| s.filter.as_str()).collect();
            if p.qos == 2 && every2 && n > filters.len() {
                o.fail(format!("{prop}.duplicate"), format!("QoS 2 message {} reached {} {n} times", p.tag, v.name(a)));
            }
        }
    }
    o.stat("deliveries owed", checked);
}
fn j01(v: &View, o: &mut Outcome) {
    check_delivery(v, o, "C01");
}

// ------------------------------------------------------------------ C02

fn c02(g: &mut G) {
    g.sched();
    g.listeners(15);
    g.nets(3);
    g.p.settle = 20;
    if g.pc(40) {
        let n = g.range(1, 6);
        g.cfg("max_inflight_server", json!(n));
    }
    for s in 0..g.range(1, 2) {
        let ver = g.ver();
        let mut c = g.conn(&format!("sub{s}"), ver);
        c.net = 0;
        let mut ops = vec![Op::Connect(c)];
        let f = g.pick(&["#", "+/+", "q/#"]);
        ops.push(Op::Sub { filters: vec![(f.into(), 2)], sid: None, wait: 20_000 });
        ops.push(Op::Sync(1));
        g.actor(&format!("sub{s}"), ops);
    }
    for s in 0..g.range(1, 2) {
        let ver = g.ver();
        let c = g.conn(&format!("pub{s}"), ver);
        let mut first = c.clone();
        first.net = 0;
        let mut ops = vec![Op::Connect(first), Op::Sync(1)];
        for _ in 0..g.range(2, 10) {
            match g.below(14) {
                0..=4 => {
                    let n = g.pick(&[1, 1, 1, 2, 4]);
                    let qos = g.pick(&[2, 2, 2, 2, 1]);
                    let p = PubP { topic: g.pick(&["q/a", "q/b"]).into(), qos, tag: g.tags(n), pad: g.pick(&[0, 0, 300]), quota_wait: Some(3000), ..Default::default() };
                    ops.push(Op::Burst { p, n });
                }
                5 => ops.push(Op::HoldRel(true)),
                6 => ops.push(Op::HoldRel(false)),
                7 | 8 => {
                    let rel = g.pc(60);
                    ops.push(Op::Resend { rel });
                }
                9 => {
                    let k = g.cut();
                    ops.push(Op::Cut(k));
                }
                10 | 11 => {
                    let (dir, bytes, kind) = (g.below(2) as usize, g.range(0, 60), g.cut());
                    ops.push(Op::CutAfter { dir, bytes, kind });
                }
                12 => {
                    let (dir, ms) = (g.below(2) as usize, g.range(10, 2000));
                    ops.push(Op::Stall { dir, ms });
                }
                _ => ops.push(Op::Disconnect { code: 0, expiry: None }),
            }
            let ms = g.pick(&[0, 0, 1, 5, 30, 400]);
            let ms = g.range(0, ms);
            ops.push(Op::Sleep(ms));
            if g.pc(40) {
                let mut c = c.clone();
                c.net = g.any_net();
                c.listener = g.any_listener();
                if g.pc(30) {
                    c.cut = Some((g.below(2) as usize, g.range(0, 200), g.cut()));
                }
                ops.push(Op::Connect(c));
            }
        }
        calm(&mut ops, c, 0);
        ops.push(Op::WaitAcks(60_000));
        let a = g.actor(&format!("pub{s}"), ops);
        g.p.actors[a].pid_mod = g.pick(&[0, 0, 2, 3, 8]);
    }
}
fn j02(v: &View, o: &mut Outcome) {
    check_delivery(v, o, "C02");
    let got = received(v);
    let mut exchanges = 0;
    for a in 0..v.plan.actors.len() {
        if !v.steady(a) || !v.responsive(a) {
            continue;
        }
        let subs = v.lasting_subs(a);
        let [s] = subs[..] else { continue };
        if s.granted() != Some(2) {
            continue;
        }
        for p in v.pubs.values().filter(|p| p.tag > 0 && p.qos == 2 && s.ack.unwrap() < p.out && matches(&s.filter, &p.topic)) {
            let n = got.get(&(a, p.tag)).map_or(0, |x| x.len());
            let done = matches!(p.acked, Some((_, c)) if c < 0x80);
            exchanges += 1;
            if n > 1 {
                o.fail("C02.duplicate", format!("QoS 2 message {} of {} reached {} {n} times", p.tag, v.name(p.actor), v.name(a)));
            }
            if done && n == 0 {
                o.fail("C02.lost", format!("completed QoS 2 message {} of {} never reached {}", p.tag, v.name(p.actor), v.name(a)));
            }
            for x in got.get(&(a, p.tag)).into_iter().flatten() {
                if x.qos != 2 || x.topic != p.topic {
                    o.fail("C02.changed", format!("message {} arrived with QoS {} on {}", p.tag, x.qos, x.topic));
                }
            }
        }
    }
    o.stat("QoS 2 messages at steady subscribers", exchanges);
    answered(v, o, "C02");
}
/// On undisturbed connections every packet that needs an answer got it; and the broker ended none.
pub fn answered(v: &View, o: &mut Outcome, prop: &str) {
    answered_of(v, o, prop, &|_| true)
}
pub fn answered_of(v: &View, o: &mut Outcome, prop: &str, who: &dyn Fn(usize) -> bool) {
    use crate::client::Ev;
    use crate::wire::Pkt;
    for c in &v.conns[1..] {
        if c.raw || !c.ok() || !who(c.actor) {
            continue;
        }
        if let Some(why) = v.dropped(c) {
            o.fail(format!("{prop}.dropped"), format!("the broker ended connection {} of {} although nothing was wrong with it ({why})", c.id, v.name(c.actor)));
        }
        if !c.live() || c.hurt || c.p.cut.is_some() || !v.responsive(c.actor) || v.last_conn(c.actor).map(|l| l.id) != Some(c.id) {
            continue;
        }
        let mut want: BTreeMap<(u8, u16), i64> = BTreeMap::new();
        for i in &c.outs {
            match &v.recs[*i].ev {
                Ev::Out(Pkt::Publish(p)) if p.qos > 0 => *want.entry((if p.qos == 1 { 4 } else { 5 }, p.pid)).or_default() += 1,
                Ev::Out(Pkt::Ack { kind: 6, pid, .. }) => *want.entry((7, *pid)).or_default() += 1,
                _ => {}
            }
        }
        for i in &c.ins {
            if let Ev::In(Pkt::Ack { kind, pid, .. }) = &v.recs[*i].ev {
                if matches!(kind, 4 | 5 | 7) {
                    *want.entry((*kind, *pid)).or_default() -= 1;
                }
            }
        }
        for ((k, pid), n) in want {
            if n != 0 {
                let what = ["PUBACK", "PUBREC", "", "PUBCOMP"][k as usize - 4];
                o.fail(
                    format!("{prop}.answers"),
                    format!("{} got {} {what} than due for packet {pid}", v.name(c.actor), if n > 0 { "fewer" } else { "more" }),
                );
            }
        }
    }
}

// ------------------------------------------------------------------ C03

fn c03(g: &mut G) {
    g.sched();
    g.listeners(15);
    g.nets(4);
    g.p.settle = 60;
    // what is kept for a client that does not read is the subject of C24
    g.cfg("max_in_mem_pending_messages", json!(100_000));
    if g.pc(40) {
        let n = g.range(1, 8);
        g.cfg("max_inflight_client", json!(n));
    }
    if g.pc(40) {
        let n = g.range(1, 8);
        g.cfg("max_inflight_server", json!(n));
    }
    if g.pc(50) {
        let n = g.range(1, 10);
        g.cfg("inflight_timeout", json!(n));
    }
    let topics = ["t/a", "t/b"];
    for s in 0..g.range(1, 3) {
        let ver = g.ver();
        let mut c = g.conn(&format!("sub{s}"), ver);
        if ver == 5 && g.pc(40) {
            c.rx_max = Some(g.range(1, 5) as u16);
        }
        let mut first = c.clone();
        first.net = 0;
        let mut ops = vec![Op::Connect(first)];
        let f = g.pick(&["t/#", "t/a", "+/a", "#"]);
        let q = g.pick(&[0, 1, 1, 2, 2]);
        ops.push(Op::Sub { filters: vec![(f.into(), q)], sid: None, wait: 20_000 });
        ops.push(Op::Sync(1));
        let n = g.range(0, 5);
        mishaps(g, &mut ops, &c, n);
        calm(&mut ops, c, 40_000);
        g.actor(&format!("sub{s}"), ops);
    }
    for s in 0..g.range(1, 2) {
        let ver = g.ver();
        let c = g.conn(&format!("pub{s}"), ver);
        let mut first = c.clone();
        first.net = 0;
        let mut ops = vec![Op::Connect(first), Op::Sync(1)];
        for _ in 0..g.range(1, 5) {
            let n = g.pick(&[1, 5, 15, 30, 60]);
            let t = g.pick(&topics);
            let q = g.pick(&[0, 1, 1, 2]);
            let p = PubP { topic: t.into(), qos: q, tag: g.tags(n), pad: g.pick(&[0, 0, 10, 600]), ..Default::default() };
            ops.push(Op::Burst { p, n });
            if g.pc(30) {
                mishaps(g, &mut ops, &c, 1);
            }
        }
        calm(&mut ops, c, 0);
        ops.push(Op::WaitAcks(30_000));
        g.actor(&format!("pub{s}"), ops);
    }
}
pub fn check_order(v: &View, o: &mut Outcome, prop: &str) {
    use crate::client::Ev;
    let mut pairs = 0;
    for a in 0..v.plan.actors.len() {
        let subs: Vec<&SubR> = v.subs.iter().filter(|s| s.actor == a).collect();
        let filters: std::collections::BTreeSet<&str> = subs.iter().map(|s| s.filter.as_str()).collect();
        if filters.len() != 1 || subs.iter().any(|s| s.share().is_some() || s.opt & 3 != subs[0].opt & 3) {
            continue;
        }
        // (publisher, connection if QoS 0, topic, QoS) -> last first reception
        let mut last: BTreeMap<(usize, usize, &str, u8), &PubR> = BTreeMap::new();
        let mut seen = std::collections::BTreeSet::new();
        // a copy of a message is known by its packet identifier
        let mut first_seen: BTreeMap<(u64, u16), usize> = BTreeMap::new();
        let mut redelivered: BTreeMap<usize, Vec<(u64, u16)>> = BTreeMap::new();
        for x in v.apps.iter().filter(|x| x.actor == a) {
            if !seen.insert(x.tag) {
                continue;
            }
            let Some(p) = v.pubs.get(&x.tag) else { continue };
            // of what is delivered with QoS 0 a copy may be lost and a retransmission arrive
            if x.qos == 0 && p.out != p.last_out {
                continue;
            }
            // the publisher sends one QoS 0 message on one connection only
            let k = (p.actor, if p.qos == 0 { p.conn } else { 0 }, p.topic.as_str(), p.qos);
            pairs += 1;
            if let Some(q) = last.insert(k, p) {
                if q.out > p.out {
                    o.fail(
                        format!("{prop}.order"),
                        format!("{} received message {} after {}, {} sent them the other way round (topic {}, QoS {})", v.name(a), p.tag, q.tag, v.name(p.actor), p.topic, p.qos),
                    );
                }
            }
        }
        for (i, r) in v.recs.iter().enumerate().filter(|(_, r)| r.actor == a) {
            if let Ev::In(crate::wire::Pkt::Publish(p)) = &r.ev {
                let k = (crate::client::untag(&p.payload).0, p.pid);
                match first_seen.get(&k) {
                    Some(f) if p.dup && v.recs[*f].conn != r.conn => {
                        let l = redelivered.entry(r.conn).or_default();
                        if !l.contains(&k) {
                            l.push(k);
                        }
                    }
                    Some(_) => {}
                    None => {
                        first_seen.insert(k, i);
                    }
                }
            }
        }
        for (c, l) in redelivered {
            o.stat("redelivered", l.len() as u64);
            for w in l.windows(2) {
                if first_seen[&w[0]] > first_seen[&w[1]] {
                    o.fail(format!("{prop}.redelivery"), format!("on connection {c} {} got message {} again before {}, first it came after it", v.name(a), w[0].0, w[1].0));
                }
            }
        }
    }
    o.stat("ordered receptions", pairs);
}
fn j03(v: &View, o: &mut Outcome) {
    check_order(v, o, "C03");
    check_delivery(v, o, "C03");
}
