//! C09: shared subscriptions.
use super::routing::{maybe, threads};
use super::*;
use crate::client::{Ev, SEC};
use crate::view::{Conn, PubR, SubR, matches};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        budget: (16_000, 30),
        plan: c09,
        judge: j09,
        rule: "every message that matches a shared subscription reaches exactly one of the sessions that are members of the group, and none that is not",
        note: "groups of 1 to 24 members that join, leave, join again, reconnect, lose their session or let it expire, all selection modes",
    }]
}

const GROUPS: [(&str, &str); 8] = [("g", "t"), ("g", "t/#"), ("g", "t/a"), ("h", "t/a"), ("h", "t/+"), ("g", "#"), ("h", "u/#"), ("k", "t/a/x")];
const TOPICS: [&str; 6] = ["t", "t/a", "t/a/x", "u", "u/a", "t/b"];

fn c09(g: &mut G) {
    if g.pc(35) {
        g.p.sched = threads(g);
    } else {
        g.sched();
    }
    g.listeners(8);
    g.nets(3);
    g.p.settle = 25;
    let mode = g.pick(&["random", "random", "hash_client_id", "hash_topic_name"]);
    let mode = mode.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect::<String>();
    g.cfg("shared_subscription_mode", json!(mode));
    let groups: Vec<(&str, &str)> = (0..g.range(1, 3)).map(|_| g.pick(&GROUPS)).collect();
    let topics: Vec<&str> = TOPICS.iter().filter(|t| groups.iter().any(|f| matches(f.1, t))).cloned().collect();
    let topics: Vec<&str> = (0..g.range(1, 4)).map(|_| g.pick(&topics)).collect();
    let rounds = g.range(1, 6) as u32;
    let crowd = g.pc(8);
    let n = if crowd { g.range(16, 24) } else { g.pick(&[1, 2, 2, 3, 3, 4, 6]) };
    for k in 0..n {
        let mut c = g.conn(&format!("m{k}"), 5);
        if g.pc(60) || crowd {
            c.net = 0;
        }
        let mine = g.pick(&groups);
        let both = g.pc(15);
        // what happens to this member
        let fate = if crowd { g.pick(&[0u64, 1]) } else { g.below(6) };
        let mut first = c.clone();
        first.net = 0;
        let mut ops = vec![Op::Connect(first)];
        let join = |g: &mut G, ops: &mut Vec<Op>| {
            let f = if both && g.pc(50) { g.pick(&groups) } else { mine };
            let q = g.below(3) as u8 | g.pick(&[0, 8]);
            let sid = g.pc(30).then(|| g.range(1, 9) as u32);
            let wait = g.pick(&[3000, 3000, 0]);
            ops.push(Op::Sub { filters: vec![(format!("$share/{}/{}", f.0, f.1), q)], sid, wait });
        };
        let leave = |g: &mut G, ops: &mut Vec<Op>| {
            let f = if both && g.pc(50) { g.pick(&groups) } else { mine };
            let wait = g.pick(&[3000, 3000, 0]);
            ops.push(Op::Unsub { filters: vec![format!("$share/{}/{}", f.0, f.1)], wait });
        };
        if g.pc(70) {
            join(g, &mut ops);
        }
        for r in 1..=rounds {
            if g.pc(85) {
                ops.push(Op::Sync(2 * r));
            }
            if g.pc(30) {
                let ms = g.pick(&[2, 2, 50]);
                let ms = g.range(0, ms);
                ops.push(Op::Sleep(ms));
            }
            match g.below(10) {
                0..=2 => join(g, &mut ops),
                3 | 4 => leave(g, &mut ops),
                5 => {
                    leave(g, &mut ops);
                    join(g, &mut ops);
                }
                6..=8 if fate >= 2 => {
                    let expiry = g.pick(&[0u32, 0, 2, 100_000]);
                    let end = g.below(5);
                    match end {
                        0 | 1 => ops.push(Op::Disconnect { code: g.pick(&[0, 4]), expiry: Some(if fate >= 4 { 100_000 } else { expiry }) }),
                        2 | 3 => {
                            let k = g.cut();
                            ops.push(Op::Cut(k));
                        }
                        _ => {}
                    }
                    let ms = g.pick(&[0, 3, 300, 6000]);
                    let ms = g.range(0, ms);
                    ops.push(Op::Sleep(ms));
                    if r == rounds && g.pc(30) && fate < 4 {
                        // never comes back
                        break;
                    }
                    let mut c = c.clone();
                    c.net = if fate == 5 { 0 } else { g.any_net() };
                    c.clean = fate < 4 && g.pc(30);
                    if fate < 4 && g.pc(30) {
                        c.expiry = Some(g.pick(&[0, 1, 3]));
                    }
                    ops.push(Op::Connect(c));
                    if g.pc(60) {
                        join(g, &mut ops);
                    }
                }
                _ => {}
            }
            if g.pc(70) {
                ops.push(Op::Sync(2 * r + 1));
            }
            if g.pc(10) {
                let t = g.pick(&topics);
                let p = PubP { topic: t.into(), qos: g.below(3) as u8, tag: g.tag(), ..Default::default() };
                ops.push(Op::Pub(p));
            }
        }
        let stays = !matches!(ops.last(), Some(Op::Sleep(_)));
        if stays && fate >= 2 && g.pc(80) {
            super::delivery::calm(&mut ops, c, 0);
        }
        if g.pc(30) {
            join(g, &mut ops);
        }
        ops.push(Op::Ping(5000));
        ops.push(Op::Sync(100));
        ops.push(Op::Sleep(8000));
        g.actor(&format!("m{k}"), ops);
    }
    for k in 0..g.range(1, 2) {
        let ver = g.ver();
        let mut c = g.conn(&format!("p{k}"), ver);
        c.net = if g.pc(80) { 0 } else { c.net };
        let mut ops = vec![Op::Connect(c)];
        let put = |g: &mut G, ops: &mut Vec<Op>, n: u64| {
            for _ in 0..n {
                let t = g.pick(&topics);
                let p = PubP { topic: t.into(), qos: g.below(3) as u8, tag: g.tag(), ..Default::default() };
                ops.push(Op::Pub(p));
                if g.pc(15) {
                    let ms = g.range(0, 3);
                    ops.push(Op::Sleep(ms));
                }
            }
        };
        for r in 1..=rounds {
            ops.push(Op::Sync(2 * r));
            let m = g.pick(&[1, 4, 8]);
            let m = g.range(0, m);
            put(g, &mut ops, m);
            ops.push(Op::WaitAcks(3000));
            ops.push(Op::Sync(2 * r + 1));
            let m = g.pick(&[0, 4, 8]);
            let m = g.range(0, m);
            put(g, &mut ops, m);
            ops.push(Op::WaitAcks(3000));
            if g.pc(50) {
                ops.push(Op::Ping(3000));
            }
        }
        ops.push(Op::Sync(100));
        let m = g.pick(&[2, 6, 12]);
        put(g, &mut ops, m);
        ops.push(Op::WaitAcks(5000));
        ops.push(Op::Ping(3000));
        g.actor(&format!("p{k}"), ops);
    }
}
/// The session of connection `c` had certainly ended, without another one, by record `i`.
fn gone(v: &View, c: &Conn, i: usize) -> bool {
    let Some(l) = v.of(c.actor).filter(|d| d.open < i).last() else { return false };
    if !l.ok() || l.hurt || l.p.cut.is_some() {
        return false;
    }
    let Some((e, ev)) = &l.end else { return false };
    if *e > i || matches!(ev, Ev::Cut('s')) {
        return false;
    }
    // a will delays nothing here
    let x = v.expiry_of(l);
    x < u64::MAX && v.t(i) > v.t(*e) + (x + 3) * SEC
}
struct Member<'a> {
    s: &'a SubR,
    sure: bool,
}
/// Who may be a member of the group while `p` is processed.
fn members<'a>(v: &'a View, key: (&str, &str), p: &PubR, done: usize) -> Vec<Member<'a>> {
    v.subs
        .iter()
        .filter(|s| s.share() == Some(key) && maybe(v, s, p.out, done) && !gone(v, &v.conns[s.conn], p.out))
        .map(|s| {
            let left = v.unsubs.iter().any(|u| u.actor == s.actor && u.out > s.out && u.filter == s.filter && u.out < done);
            Member { s, sure: s.granted().is_some() && s.ack.unwrap() < p.out && !left && v.lasting(&v.conns[s.conn]) }
        })
        .collect()
}
fn j09(v: &View, o: &mut Outcome) {
    let got = super::delivery::received(v);
    let keys: BTreeSet<(&str, &str)> = v.subs.iter().filter_map(|s| s.share()).collect();
    let (mut exact, mut some, mut none) = (0u64, 0u64, 0u64);
    let mut chosen: BTreeSet<usize> = BTreeSet::new();
    for p in v.pubs.values().filter(|p| p.tag > 0) {
        let done = v.processed(p).unwrap_or(usize::MAX);
        let all: BTreeMap<(&str, &str), Vec<Member>> = keys.iter().filter(|k| matches(k.1, &p.topic)).map(|k| (*k, members(v, *k, p, done))).collect();
        let in_groups = |a: usize| all.values().filter(|m| m.iter().any(|m| m.s.actor == a)).count();
        let receivers: BTreeSet<usize> = got.keys().filter(|k| k.1 == p.tag).map(|k| k.0).collect();
        for a in &receivers {
            if in_groups(*a) == 0 {
                o.fail("C09.stranger", format!("message {} on {}, published at {:.6} s, reached {}, no member of a group it matches", p.tag, p.topic, v.t(p.out) as f64 / 1e9, v.name(*a)));
            }
            chosen.insert(*a);
        }
        let once = p.out == p.last_out || p.qos == 2;
        for (k, m) in &all {
            let who: BTreeSet<usize> = m.iter().map(|m| m.s.actor).filter(|a| receivers.contains(a)).collect();
            let only: Vec<String> = who.iter().filter(|a| in_groups(**a) == 1).map(|a| v.name(*a)).collect();
            if once && only.len() > 1 {
                o.fail("C09.several", format!("message {} on {} reached {} members of group {}: {}", p.tag, p.topic, only.len(), k.0, only.join(", ")));
            }
            for a in who.iter().filter(|a| once && v.steady(**a)) {
                let n = got[&(*a, p.tag)].len();
                if n > in_groups(*a) {
                    o.fail("C09.several", format!("message {} on {} reached {} {n} times", p.tag, p.topic, v.name(*a)));
                }
            }
            if m.is_empty() {
                none += 1;
                continue;
            }
            if done == usize::MAX || p.acked.is_some_and(|a| a.1 >= 0x80) || !m.iter().any(|m| m.sure) {
                continue;
            }
            // whoever was chosen still gets it
            let soon = v.t(done) + 4 * SEC;
            let stays = m.iter().all(|m| {
                let s = m.s;
                let a = s.actor;
                let q = v.min_granted(a, &s.filter, s.out).min(p.qos);
                let calm = v.steady(a) && v.conns[s.conn].p.net == 0;
                v.lasting(&v.conns[s.conn])
                    && v.responsive(a)
                    && (q > 0 || calm)
                    && !v.unsubs.iter().any(|u| u.actor == a && u.out > s.out && u.filter == s.filter && v.t(u.out) < soon)
            });
            if !stays {
                some += 1;
                continue;
            }
            exact += 1;
            if who.is_empty() {
                o.fail(
                    "C09.lost",
                    format!("message {} on {} (QoS {}), published at {:.6} s, reached none of the {} members of group {} on {}", p.tag, p.topic, p.qos, v.t(p.out) as f64 / 1e9, m.len(), k.0, k.1),
                );
            }
        }
    }
    super::delivery::answered(v, o, "C09");
    o.stat("messages due to exactly one member", exact);
    o.stat("messages due to at most one member", some);
    o.stat("messages for empty groups", none);
    o.stat("members chosen", chosen.len() as u64);
}
