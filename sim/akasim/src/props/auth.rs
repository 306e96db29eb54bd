//! C17: authentication.
use super::*;
use crate::client::{Ev, SEC};
use crate::scram::salted;
use crate::view::*;
use crate::wire::{Pkt, Val, prop_b};
use base64::{Engine, engine::general_purpose::STANDARD as B64};
use ring::{digest, hmac};
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        budget: (14_000, 45),
        plan: c17,
        judge: j17,
        rule: "CONNACK 0 exactly for connections that presented a user name and password of the table and, asking for SCRAM, completed an exchange that an independent verifier finds right, with a correct server signature and a fresh nonce; every other connection gets the matching refusal and has no effect at all: nothing of it is delivered, retained or answered, no other client is disturbed, no counter or task stays",
        note: "wrong, missing, swapped, extended and cut credentials, 25 ways to do a SCRAM exchange wrong, packets sent ahead of CONNACK, stalled and cut exchanges, many exchanges at a time, the client identifiers of connected clients",
    }]
}
const USERS: [(&str, &str); 5] = [("alice", "secret-a"), ("bob", "secret-b"), ("al", "x"), ("käthe, =1", "pässword"), ("empty", "")];
const EDITS: [&str; 37] = [
    "nonce-show", "nonce-show2", "gs2-show", "restart", "restart", "p-flag", "no-data", "empty-first", "bad-first", "no-nonce", "no-gs2", "bad-escape", "binary-first", "replay", "replay-final", "other-method", "wrong-code", "gs2-mismatch", "nonce-cut", "nonce-ext", "nonce-server",
    "proof-bit", "proof-cut", "proof-empty", "proof-zero", "junk", "no-proof", "extension", "cut", "flip", "stop", "first-again", "no-final-data", "publish", "subscribe", "binary-final", "disconnect",
];

fn good(g: &mut G, c: &mut ConnP) {
    let us = g.p.x["users"].as_array().cloned().unwrap_or_default();
    if !us.is_empty() {
        let u = g.pick(&us);
        (c.user, c.pass) = (u[0].as_str().map(String::from), u[1].as_str().map(String::from));
    }
}
fn bad(g: &mut G, c: &mut ConnP) {
    good(g, c);
    let other = g.pick(&USERS);
    let pass = c.pass.clone().unwrap_or_default();
    match g.below(11) {
        0 => (c.user, c.pass) = (None, None),
        1 => c.pass = None,
        2 => c.user = None,
        3 => c.pass = Some(format!("{pass}x")),
        4 => c.pass = Some(pass.chars().take(pass.chars().count().saturating_sub(1)).collect()),
        5 => c.pass = Some(String::new()),
        6 => c.pass = Some(other.1.into()),
        7 => c.user = Some(other.0.into()),
        8 => c.user = Some(format!("{}x", c.user.clone().unwrap_or_default())),
        9 => c.user = Some(String::new()),
        _ => c.pass = Some(pass.to_uppercase()),
    }
    if c.ver < 5 && c.user.is_none() {
        // not a well-formed packet
        c.pass = None;
    }
}
fn c17(g: &mut G) {
    g.sched();
    g.listeners(15);
    g.nets(3);
    g.p.settle = 40;
    let enable = g.pc(80);
    if enable {
        g.cfg("auth", json!({"enable": true, "password_file": "x"}));
    }
    let mut us = Vec::new();
    let mut sc = Vec::new();
    for (i, (n, p)) in USERS.iter().enumerate() {
        if i < 2 || g.pc(60) {
            us.push(json!([n, p, g.below(4)]));
        }
        if i < 2 || g.pc(60) {
            sc.push(json!([n, format!("{p}-scram"), g.pick(&[1, 5, 40, 256, 300])]));
        }
    }
    g.p.x["users"] = json!(us);
    g.p.x["scram"] = json!(sc);
    for name in ["victim", "admin"] {
        let ver = g.ver();
        let mut c = g.conn(name, ver);
        (c.net, c.listener) = (0, 0);
        good(g, &mut c);
        let mut ops = vec![Op::Connect(c)];
        if name == "victim" {
            ops.push(Op::Sub { filters: vec![("#".into(), 2)], sid: None, wait: 20_000 });
            ops.push(Op::Sync(1));
        } else {
            ops.push(Op::Sync(1));
            for _ in 0..g.range(1, 5) {
                let n = g.range(1, 3);
                let p = PubP { topic: "t/admin".into(), qos: g.below(3) as u8, tag: g.tags(n), ..Default::default() };
                ops.push(Op::Burst { p, n });
                let ms = g.range(0, 2000);
                ops.push(Op::Sleep(ms));
            }
            ops.push(Op::WaitAcks(20_000));
            ops.push(Op::Ping(10_000));
        }
        g.actor(name, ops);
    }
    let sames = g.pc(30);
    for k in 0..g.range(1, 4) {
        let name = format!("att{k}");
        let mut ops = vec![Op::Sync(1)];
        for _ in 0..g.range(1, 5) {
            let ver = g.pick(&[5, 5, 5, 4, 3]);
            let mut c = g.conn(&name, ver);
            (c.clean, c.expiry, c.retries) = (true, None, 0);
            let right = g.pc(45);
            let scram = ver == 5 && g.pc(65);
            let mut fine = true;
            if right || (scram && g.pc(50)) {
                good(g, &mut c);
            } else {
                bad(g, &mut c);
                fine = false;
            }
            if scram {
                let u = g.pick(&sc);
                let mut s = ScramP { user: u[0].as_str().unwrap().into(), pass: u[1].as_str().unwrap().into(), ..Default::default() };
                if right {
                    if g.pc(20) {
                        s.authzid = Some(s.user.clone());
                    }
                    if g.pc(20) {
                        s.edit = g.pick(&["y-flag", "final-twice"]).into();
                    }
                    s.delay = g.pick(&[0, 0, 0, 10, 1000, 3000]);
                } else {
                    fine = false;
                    match g.below(10) {
                        0 => s.pass = g.pick(&["", "x", "secret-a", "alice"]).into(),
                        1 => s.pass.push('x'),
                        2 => s.user = g.pick(&["", "nobody", "Alice", "alice ", "admin"]).into(),
                        3 => s.authzid = Some(g.pick(&["admin", "bob ", "", "victim"]).into()),
                        4 => s.method = g.pick(&["SCRAM-SHA-1", "PLAIN", "scram-sha-256", "SCRAM-SHA-256-PLUS", " "]).into(),
                        5 => s.delay = g.pick(&[5500, 7000, 12_000]),
                        _ => s.edit = g.pick(&EDITS).into(),
                    }
                }
                c.scram = Some(s);
            }
            c.wait = if g.pc(30) { 0 } else { 15_000 };
            if c.wait > 0 && !fine && enable && g.pc(50) {
                c.cid = g.pick(&["victim", "admin"]).into();
            } else if sames && c.wait > 0 {
                c.cid = "same".into();
            }
            if g.pc(40) {
                c.will = Some(WillP { topic: "w/x".into(), tag: g.tag(), qos: g.below(3) as u8, retain: g.pc(50), ..Default::default() });
            }
            if g.pc(12) {
                c.cut = Some((g.below(2) as usize, g.range(1, 300), g.cut()));
            }
            if g.pc(10) {
                c.piece = (g.range(5, 60) as usize, g.range(1, 400));
            }
            let ahead = c.wait == 0;
            ops.push(Op::Connect(c));
            for _ in 0..g.range(ahead as u64, 3) {
                if g.pc(30) {
                    ops.push(Op::Sub { filters: vec![("#".into(), 0)], sid: None, wait: 0 });
                } else {
                    let p = PubP { topic: format!("t/{name}"), qos: g.below(3) as u8, retain: g.pc(50), tag: g.tag(), quota_wait: Some(1000), ..Default::default() };
                    ops.push(Op::Pub(p));
                }
            }
            if ahead {
                let ms = g.range(4000, 9000);
                ops.push(Op::Sleep(ms));
            }
            match g.below(4) {
                0 => ops.push(Op::Disconnect { code: g.pick(&[0, 0, 4]), expiry: None }),
                1 => ops.push(Op::Close),
                2 => ops.push(Op::Cut('r')),
                _ => ops.push(Op::AwaitClose(6000)),
            }
            let ms = g.pick(&[0, 5, 500, 3000]);
            ops.push(Op::Sleep(ms));
        }
        ops.push(Op::Close);
        g.actor(&name, ops);
    }
    let ver = g.ver();
    let mut c = g.conn("late", ver);
    (c.net, c.listener) = (0, 0);
    good(g, &mut c);
    g.actor("late", vec![Op::Sync(1), Op::Sleep(70_000), Op::Connect(c), Op::Sub { filters: vec![("#".into(), 2)], sid: None, wait: 20_000 }]);
}

fn unescape(s: &str) -> Option<String> {
    let mut r = String::new();
    let mut it = s.split('=');
    r.push_str(it.next()?);
    for p in it {
        r.push_str(&p.strip_prefix("2C").map(|x| format!(",{x}")).or_else(|| p.strip_prefix("3D").map(|x| format!("={x}")))?);
    }
    Some(r)
}
fn mac(k: &[u8], d: &[u8]) -> Vec<u8> {
    hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, k), d).as_ref().to_vec()
}
#[derive(PartialEq, Clone, Debug)]
enum Auth {
    Wrong(&'static str),
    /// the client's last message is right; its record and the signature the server owes
    Right(usize, String),
}
use Auth::*;
fn text(p: &crate::wire::Props) -> Option<String> {
    String::from_utf8(prop_b(p, 0x16)?).ok()
}
fn method(p: &crate::wire::Props) -> Option<String> {
    p.iter().find_map(|x| if let (0x15, Val::Str(s)) = x { Some(s.clone()) } else { None })
}
/// SCRAM-SHA-256 as RFC 5802 and 7677 have it.
fn verify(v: &View, o: &mut Outcome, c: &Conn, nonces: &mut BTreeSet<String>) -> Auth {
    let Some(i) = c.sent else { return Wrong("nothing sent") };
    let Ev::Out(Pkt::Connect(con)) = &v.recs[i].ev else { return Wrong("no CONNECT") };
    if method(&con.props).as_deref() != Some("SCRAM-SHA-256") {
        return Wrong("method");
    }
    let Some(first) = text(&con.props) else { return Wrong("no data") };
    let f: Vec<&str> = first.split(',').collect();
    let [flag, az, user, nonce] = f[..] else { return Wrong("fields") };
    let (Some(user), Some(cnonce)) = (user.strip_prefix("n=").and_then(unescape), nonce.strip_prefix("r=")) else { return Wrong("fields") };
    if flag != "n" && flag != "y" {
        return Wrong("channel binding");
    }
    if !az.is_empty() && az.strip_prefix("a=").and_then(unescape).as_ref() != Some(&user) {
        return Wrong("authorization identity");
    }
    let us = v.plan.x["scram"].as_array().cloned().unwrap_or_default();
    let Some(u) = us.iter().find(|u| u[0].as_str() == Some(&user)) else { return Wrong("user") };
    let Some(j) = c.ins.iter().find(|j| matches!(&v.recs[**j].ev, Ev::In(Pkt::Auth { .. }))) else { return Wrong("no challenge") };
    let Ev::In(Pkt::Auth { code, props }) = &v.recs[*j].ev else { unreachable!() };
    let sf = text(props).unwrap_or_default();
    let salt = format!("salt of {user}");
    let iters = u[2].as_u64().unwrap_or(5) as u32;
    let g: Vec<&str> = sf.split(',').collect();
    let snonce = g.first().and_then(|x| x.strip_prefix("r=")).unwrap_or("").to_string();
    let want = [format!("r={snonce}"), format!("s={}", B64.encode(&salt)), format!("i={iters}")];
    if *code != 0x18 || method(props).as_deref() != Some("SCRAM-SHA-256") || g != want || !snonce.starts_with(cnonce) || snonce.len() < cnonce.len() + 16 {
        o.fail("C17.challenge", format!("the challenge for {user:?} is {sf:?} (AUTH {code:#x})"));
        return Wrong("challenge");
    }
    if !nonces.insert(snonce[cnonce.len()..].into()) {
        o.fail("C17.nonce", format!("the server's nonce {:?} was used before", &snonce[cnonce.len()..]));
    }
    // the very next packet after CONNECT
    let Some(k) = c.outs.iter().find(|k| **k > i && matches!(v.recs[**k].ev, Ev::Out(_))) else { return Wrong("stopped") };
    let Ev::Out(Pkt::Auth { code: 0x18, props }) = &v.recs[*k].ev else { return Wrong("another packet") };
    if method(props).as_deref() != Some("SCRAM-SHA-256") {
        return Wrong("other method");
    }
    let Some(fin) = text(props) else { return Wrong("no final data") };
    let h: Vec<&str> = fin.split(',').collect();
    let [cb, rn, proof] = h[..] else { return Wrong("fields of the final message") };
    let gs2 = &first[..flag.len() + az.len() + 2];
    if cb != format!("c={}", B64.encode(gs2)) || rn != format!("r={snonce}") {
        return Wrong("final message");
    }
    let pass = salted(u[1].as_str().unwrap_or("p"), salt.as_bytes(), iters);
    let ck = mac(&pass, b"Client Key");
    let msg = format!("{},{},{},{}", &first[gs2.len()..], sf, cb, rn);
    let sig = mac(digest::digest(&digest::SHA256, &ck).as_ref(), msg.as_bytes());
    let p: Vec<u8> = ck.iter().zip(&sig).map(|(a, b)| a ^ b).collect();
    if proof != format!("p={}", B64.encode(&p)) {
        return Wrong("proof");
    }
    Right(*k, format!("v={}", B64.encode(mac(&mac(&pass, b"Server Key"), msg.as_bytes()))))
}
fn j17(v: &View, o: &mut Outcome) {
    let enable = v.plan.cfg["auth"]["enable"].as_bool().unwrap_or(false);
    let us = v.plan.x["users"].as_array().cloned().unwrap_or_default();
    let mut nonces = BTreeSet::new();
    let mut silent = false;
    let mut rights = BTreeSet::new();
    for c in v.conns[1..].iter().filter(|c| c.sent.is_some() && !c.raw) {
        let name = format!("connection {} of {}", c.id, v.name(c.actor));
        let sent = c.sent.unwrap();
        silent |= matches!(c.end, Some((_, Ev::Cut('s')))) || c.p.cut.is_some_and(|x| x.2 == 's') || c.hurt;
        let pw = !enable || us.iter().any(|u| u[0].as_str() == c.p.user.as_deref() && u[1].as_str() == c.p.pass.as_deref());
        let scram = (c.p.ver == 5 && c.p.scram.is_some()).then(|| verify(v, o, c, &mut nonces));
        let right = pw && !matches!(scram, Some(Wrong(_)));
        if right {
            rights.insert(c.id);
        }
        let quiet = c.p.cut.is_none() && !c.hurt && c.p.net == 0;
        let code = c.ack.as_ref().map(|a| a.2);
        if !right {
            let why = match &scram {
                _ if !pw => "user name or password",
                Some(Wrong(w)) => w,
                _ => "",
            };
            if c.ok() {
                o.fail("C17.accepted", format!("{name} was accepted, wrong is: {why}"));
            }
            effects(v, o, c, &name, why);
            // the answer
            let stopped = scram.is_some() && pw && matches!(why, "stopped" | "another packet");
            let end = c.end.as_ref().map(|e| e.1.clone());
            let due = matches!(end, Some(Ev::Closed(_))) || v.end_t(c) > v.t(sent) + 3 * SEC;
            // what the client sends after the end of the exchange may reset the connection
            if quiet && due && !stopped {
                let want: &[u8] = if !pw {
                    if c.p.ver == 5 { &[0x86] } else { &[4] }
                } else if why == "method" {
                    &[0x8c]
                } else {
                    &[0x87, 0x82]
                };
                let delayed = c.p.scram.as_ref().is_some_and(|s| s.delay > 0);
                match code {
                    Some(x) if want.contains(&x) => o.stat("refusals with the right code", 1),
                    Some(x) if !c.ok() => o.fail("C17.code", format!("{name} was refused with {x:#x}, wrong is: {why}, so {want:02x?} is right")),
                    None if !delayed && c.in_disc.is_none() && c.outs.len() == 1 => o.fail("C17.answer", format!("{name} got no CONNACK, wrong is: {why}")),
                    _ => {}
                }
            }
            if v.end_t(c) > v.t(sent) + 10 * SEC && !c.hurt && c.p.cut.is_none() {
                o.fail("C17.open", format!("{name} stays open, wrong is: {why}"));
            }
            o.stat("refused connections", 1);
            if scram.is_some() && pw {
                o.stat("refused exchanges", 1);
            }
        } else {
            let last = if let Some(Right(k, _)) = scram { k } else { sent };
            let soon = v.t(last) < v.t(c.open) + 3 * SEC;
            if let Some(x) = code.filter(|x| *x != 0) {
                o.fail("C17.refused", format!("{name} with the right credentials was refused with {x:#x}"));
            } else if code.is_none() && quiet && soon && v.t(last) + 5 * SEC < v.end {
                let own = c.end.as_ref().is_some_and(|e| !matches!(e.1, Ev::Closed(_))) && v.end_t(c) < v.t(last) + 5 * SEC;
                let next = v.end_t(c) < v.t(last) + 2 * SEC && !matches!(c.end, Some((_, Ev::Closed(_))));
                if !own && !next && c.disc.is_none() && v.by_cid(&c.p.cid).all(|d| d.actor == c.actor) {
                    o.fail("C17.refused", format!("{name} with the right credentials was not accepted"));
                }
            }
            if let (Some(Right(_, sig)), Some((_, _, 0, props))) = (&scram, &c.ack) {
                if text(props).as_ref() != Some(sig) || method(props).as_deref() != Some("SCRAM-SHA-256") {
                    o.fail("C17.signature", format!("{name} got the server signature {:?}, right is {sig}", text(props)));
                }
                o.stat("exchanges completed", 1);
            }
            if !c.ok() {
                effects(v, o, c, &name, "not accepted");
            }
        }
    }
    // nobody is disturbed
    let base = |a: usize| matches!(v.name(a).as_str(), "victim" | "admin" | "late");
    let mut calm = true;
    for a in (0..v.plan.actors.len()).filter(|a| base(*a)) {
        for c in v.of(a) {
            let rivals = v.by_cid(&c.p.cid).any(|d| d.actor != a && (d.ok() || rights.contains(&d.id)));
            calm &= !rivals;
            if let (Some((_, Ev::Closed(_))), true, false) = (&c.end, c.ok(), rivals) {
                o.fail("C17.disturbed", format!("the connection of {} was closed", v.name(a)));
            }
            if c.sent.is_some() && !c.ok() && v.t(c.open) + 5 * SEC < v.end && !rivals {
                o.fail("C17.refused", format!("{} was not accepted", v.name(a)));
            }
        }
    }
    if let (Some(s), true) = (v.subs.iter().find(|s| v.name(s.actor) == "victim" && s.granted().is_some()), calm) {
        for p in v.pubs.values().filter(|p| p.tag > 0 && p.out > s.ack.unwrap() && matches(&s.filter, &p.topic)) {
            if v.processed(p).is_some() && p.acked.is_none_or(|a| a.1 < 0x80) {
                o.stat("deliveries owed", 1);
                if !v.apps.iter().any(|x| x.actor == s.actor && x.tag == p.tag) {
                    o.fail("C17.lost", format!("message {} of {} was accepted and not delivered", p.tag, v.name(p.actor)));
                }
            }
        }
    }
    // nothing is left behind
    let alive = v.conns[1..].iter().filter(|c| c.ok() && c.end.is_none() && c.disc.is_none()).count();
    let young = v.conns[1..].iter().any(|c| c.end.is_none() && v.t(c.open) + 20 * SEC > v.end && !base(c.actor));
    let kept = v.conns[1..].iter().filter(|c| base(c.actor)).count();
    if let (Some((_, online, clients, tasks)), false, false) = (v.counters().last(), silent, young) {
        if *online as usize > alive || *clients > alive.max(kept) {
            o.fail("C17.left", format!("{online} clients are online and {clients} registered, {alive} are connected"));
        }
        if *tasks > 2 + 2 * alive + v.plan.fix_listen.len() {
            o.fail("C17.left", format!("{tasks} tasks of the broker are left with {alive} clients connected"));
        }
    }
}
/// A connection that was not accepted gets nothing done.
fn effects(v: &View, o: &mut Outcome, c: &Conn, name: &str, why: &str) {
    if c.ok() || (why == "not accepted" && c.ack.is_none()) {
        return;
    }
    for p in v.pubs.values().filter(|p| p.tag > 0 && p.conn == c.id && c.outs.contains(&p.last_out)) {
        if let Some(x) = v.apps.iter().find(|x| x.tag == p.tag) {
            o.fail("C17.effect", format!("message {} of {name} reached {}, wrong is: {why}", p.tag, v.name(x.actor)));
        }
    }
    if let Some(w) = &c.p.will {
        if let Some(x) = v.apps.iter().find(|x| x.tag == w.tag) {
            o.fail("C17.effect", format!("the will of {name} reached {}, wrong is: {why}", v.name(x.actor)));
        }
    }
    if v.apps.iter().any(|x| x.tag == 666) {
        o.fail("C17.effect", "a message sent within a SCRAM exchange was delivered");
    }
    for i in &c.ins {
        match &v.recs[*i].ev {
            Ev::In(Pkt::Connack { .. } | Pkt::Auth { .. } | Pkt::Disconnect { .. }) => {}
            Ev::In(p) => o.fail("C17.effect", format!("{name} got {p:?}, wrong is: {why}")),
            _ => {}
        }
    }
}
