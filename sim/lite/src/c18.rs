//! SCRAM exchanges over an adversarial channel.
use crate::protocols::scram::{AuthenticationStatus, client::ScramClient, hash_password, server::ScramServer};
use base64::{Engine, engine::general_purpose::STANDARD};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::Rng;
use simdrv::{Outcome, finish};
use std::num::NonZeroU32;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Exch {
    user: String,
    authzid: Option<String>,
    /// what the client knows
    pass: String,
    /// what the server's record was derived from
    secret: String,
    salt: usize,
    iters: u16,
    faults: Vec<Fault>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    /// 0: client-first, 1: server-first, 2: client-final, 3: server-final
    msg: usize,
    kind: Kind,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Drop,
    /// delivered twice in a row
    Dup,
    /// a stale copy of an earlier message of the same direction comes first
    Stale,
    /// the message of another exchange (earlier in the plan) comes instead
    Replay(usize),
    /// byte at (permille of the length) xored
    Flip(u32, u8),
    Cut(u32),
    Insert(u32, String),
    Append(String),
    /// field (by position) replaced
    Field(usize, FieldEdit),
    Swap(usize, usize),
    Whole(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum FieldEdit {
    Empty,
    Remove,
    Twice,
    Value(String),
    /// base64 values: the first n bytes
    Prefix(usize),
    /// base64 values: one bit of the decoded bytes flipped
    Bit(usize),
    /// base64 values: bytes added
    Extend(usize),
    /// text values: first n characters
    Chars(usize),
    Upper,
    Rotate,
}

const NAMES: &[&str] = &[
    "user", "a", "", "bob@example.com", "a,b", "x=y", "=2C", "=3D", ",", "=", "==", "a=2Cb", "n=user", "r=x", ",,",
    "été", "€uro", "名前", "sp ace", "per%cent", "a=3D,b", "q\"uote", "=2c", "trail,", "=lead", "🦀,🦀", "a,r=abc", "\u{1}",
];
const PASSES: &[&str] = &["secret", "secreT", "secre", "secret1", "", "p,w", "p=w", "пароль", " secret", "0123456789012345678901234567890123456789012345678901234567890123456789"];
const JUNK: &[&str] = &[",", ",x=1", "=", "a", "é", "€", "\u{7f}", ",p=AAAA", ",m=ext", "m=x,", "\n", " ", "\0", ",r=zz", ",a=admin"];
const WHOLE: &[&str] = &[
    "", "n", "é", "€", "€€", "v", "v=", "e=", "e=x", "x€", "r", "r=", "r=,s=,i=1", "r=,s=AAAA,i=0", "n,,", "n,,n=", "n,,n=user",
    "n,,n=user,r=", "y,,n=user,r=abc", "p=tls-unique,,n=user,r=abc", "c=,r=,p=", "c=biws,r=,p=", "c=biws", "🦀", "v=AAAA",
    "v=AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", "ve=", "n,a=,n=,r=", "n,a=x", ",,,", "m=1,r=x,s=,i=1", "r=x,s=!,i=1", "r=x,s=AAAA,i=-1",
    "r=x,s=AAAA,i=70000000000",
];

fn edit(r: &mut Rng, msg: usize, i: usize) -> Kind {
    let junk = |r: &mut Rng| r.pick(JUNK).to_string();
    match r.below(20) {
        0 => Kind::Drop,
        1 => Kind::Dup,
        2 => Kind::Stale,
        3 | 4 if i > 0 => Kind::Replay(r.below(i as u64) as usize),
        5 | 6 => Kind::Flip(r.below(1000) as u32, 1 << r.below(7)),
        7 => Kind::Cut(r.below(1000) as u32),
        8 => Kind::Insert(r.below(1001) as u32, junk(r)),
        9 => Kind::Append(junk(r)),
        10 => Kind::Swap(r.below(4) as usize, r.below(4) as usize),
        11 => Kind::Whole(r.pick(WHOLE).to_string()),
        _ => {
            let nf = [4, 3, 3, 1][msg];
            let f = r.below(nf) as usize;
            let e = match r.below(12) {
                0 => FieldEdit::Empty,
                1 => FieldEdit::Remove,
                2 => FieldEdit::Twice,
                3 => FieldEdit::Value(
                    r.pick(&["", "a=admin", "y", "p", "n=user", "r=abc", "i=1", "i=2", "s=AAAA", "c=biws", "c=eSws", "p=", "v=", "e=other-error"])
                        .to_string(),
                ),
                4 | 5 => FieldEdit::Prefix(r.below(33) as usize),
                6 | 7 => FieldEdit::Bit(r.below(256) as usize),
                8 => FieldEdit::Extend(1 + r.below(4) as usize),
                9 => FieldEdit::Chars(r.below(60) as usize),
                10 => FieldEdit::Upper,
                _ => FieldEdit::Rotate,
            };
            Kind::Field(f, e)
        }
    }
}

pub fn plan(seed: u64, i: u64) -> Value {
    let mut r = Rng::stream(seed, 0x1800_0000 + i);
    let n = 1 + r.below(24) as usize;
    let mut v: Vec<Exch> = Vec::new();
    for k in 0..n {
        let user = r.pick(NAMES).to_string();
        let authzid = match r.below(6) {
            0 => Some(user.clone()),
            1 => Some(r.pick(NAMES).to_string()),
            _ => None,
        };
        let secret = r.pick(PASSES).to_string();
        let pass = if r.chance(1, 5) { r.pick(PASSES).to_string() } else { secret.clone() };
        let mut faults = Vec::new();
        if r.chance(2, 3) {
            for _ in 0..1 + r.below(2) * r.below(2) {
                let msg = r.below(4) as usize;
                let f = edit(&mut r, msg, k);
                let whole = matches!(f, Kind::Replay(_));
                if whole && r.chance(2, 3) {
                    // a replay of everything the other client sent
                    let Kind::Replay(x) = f else { unreachable!() };
                    faults.push(Fault { msg: 0, kind: Kind::Replay(x) });
                    faults.push(Fault { msg: 2, kind: Kind::Replay(x) });
                } else {
                    faults.push(Fault { msg, kind: f });
                }
            }
        }
        let iters = if r.chance(1, 60) { 4096 } else { 1 + r.below(4) as u16 };
        v.push(Exch { user, authzid, pass, secret, salt: 1 + r.below(40) as usize, iters, faults });
    }
    serde_json::json!({"kind": "exchanges", "seed": r.next() >> 1, "exch": v})
}

fn edit_field(f: &str, e: &FieldEdit) -> Option<String> {
    let (name, val) = if f.len() >= 2 && f.is_char_boundary(2) && f.as_bytes()[1] == b'=' { f.split_at(2) } else { ("", f) };
    let b64 = STANDARD.decode(val).ok();
    Some(match e {
        FieldEdit::Empty => name.to_string(),
        FieldEdit::Remove => return None,
        FieldEdit::Twice => format!("{f},{f}"),
        FieldEdit::Value(v) => v.clone(),
        FieldEdit::Prefix(n) => {
            let mut b = b64?;
            b.truncate(*n);
            format!("{name}{}", STANDARD.encode(b))
        }
        FieldEdit::Bit(n) => {
            let mut b = b64?;
            if b.is_empty() {
                return Some(f.to_string());
            }
            let k = n / 8 % b.len();
            b[k] ^= 1 << (n % 8);
            format!("{name}{}", STANDARD.encode(b))
        }
        FieldEdit::Extend(n) => {
            let mut b = b64?;
            b.resize(b.len() + n, 0);
            format!("{name}{}", STANDARD.encode(b))
        }
        FieldEdit::Chars(n) => format!("{name}{}", val.chars().take(*n).collect::<String>()),
        FieldEdit::Upper => format!("{name}{}", val.to_uppercase()),
        FieldEdit::Rotate => {
            let mut c: Vec<char> = val.chars().collect();
            if c.len() > 1 {
                c.rotate_left(1);
            }
            format!("{name}{}", c.into_iter().collect::<String>())
        }
    })
}
fn at(s: &str, permille: u32) -> usize {
    let mut k = s.len() * permille as usize / 1000;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    k
}
/// The messages that arrive in place of `m`.
fn deliver(faults: &[Fault], idx: usize, m: &str, earlier: &[String], sent: &[Vec<Option<String>>]) -> Vec<String> {
    let mut out = vec![m.to_string()];
    for f in faults.iter().filter(|f| f.msg == idx) {
        let Some(cur) = out.last().cloned() else { continue };
        let new = match &f.kind {
            Kind::Drop => {
                out.pop();
                continue;
            }
            Kind::Dup => {
                out.push(cur);
                continue;
            }
            Kind::Stale => {
                if let Some(e) = earlier.last() {
                    out.insert(0, e.clone());
                }
                continue;
            }
            Kind::Replay(x) => match sent.get(*x).and_then(|s| s[idx].clone()) {
                Some(s) => s,
                None => cur,
            },
            Kind::Flip(p, x) => {
                let k = at(&cur, *p);
                let mut b = cur.clone().into_bytes();
                if k < b.len() {
                    b[k] ^= x;
                }
                String::from_utf8(b).unwrap_or(cur)
            }
            Kind::Cut(p) => cur[..at(&cur, *p)].to_string(),
            Kind::Insert(p, s) => {
                let k = at(&cur, *p);
                format!("{}{}{}", &cur[..k], s, &cur[k..])
            }
            Kind::Append(s) => format!("{cur}{s}"),
            Kind::Whole(s) => s.clone(),
            Kind::Swap(a, b) => {
                let mut p: Vec<&str> = cur.split(',').collect();
                if *a < p.len() && *b < p.len() {
                    p.swap(*a, *b);
                }
                p.join(",")
            }
            Kind::Field(n, e) => {
                let p: Vec<&str> = cur.split(',').collect();
                let q: Vec<String> = p
                    .iter()
                    .enumerate()
                    .filter_map(|(i, f)| if i == *n { edit_field(f, e) } else { Some(f.to_string()) })
                    .collect();
                q.join(",")
            }
        };
        *out.last_mut().unwrap() = new;
    }
    // a huge iteration count only burns time
    out.retain(|m| {
        !m.split(',').any(|f| f.strip_prefix("i=").and_then(|x| x.parse::<u32>().ok()).is_some_and(|n| n > 100_000))
    });
    out
}

struct Party<'a> {
    client: ScramClient<'a>,
    server: ScramServer,
    e: &'a Exch,
    salt: Vec<u8>,
    record: Vec<u8>,
    step: usize,
    /// as sent
    sent: Vec<Option<String>>,
    /// as received, in order, by server and client
    to_server: Vec<String>,
    to_client: Vec<String>,
    server_ok: bool,
    client_ok: bool,
    server_dead: bool,
    client_dead: bool,
    finals: usize,
    log: Vec<String>,
}

pub fn exec(plan: &Value, trace: bool) -> ! {
    let exch: Vec<Exch> = serde_json::from_value(plan["exch"].clone()).expect("exchanges");
    let seed = plan["seed"].as_u64().unwrap_or(1);
    let cfg = simcore::SchedConfig { seed, ..Default::default() };
    simcore::init(cfg, Box::new(|f| {
        let mut o = Outcome::default();
        o.inconclusive = Some(format!("{f:?}"));
        finish(&o)
    }));
    let o = simcore::block_on(async move { run(&exch, seed, trace) });
    finish(&o)
}

fn run(exch: &[Exch], seed: u64, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut r = Rng::stream(seed, 18);
    let mut ps: Vec<Party> = exch
        .iter()
        .map(|e| {
            let salt: Vec<u8> = (0..e.salt).map(|_| r.next() as u8).collect();
            let record = hash_password(&e.secret, NonZeroU32::new(e.iters as u32).unwrap(), &salt).to_vec();
            Party {
                client: ScramClient::new(&e.user, &e.pass, e.authzid.as_deref()),
                server: ScramServer::new(),
                e,
                salt,
                record,
                step: 0,
                sent: vec![None; 4],
                to_server: vec![],
                to_client: vec![],
                server_ok: false,
                client_ok: false,
                server_dead: false,
                client_dead: false,
                finals: 0,
                log: vec![],
            }
        })
        .collect();
    // every step of every exchange, interleaved by the seed
    loop {
        let open: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].step < 5).collect();
        if open.is_empty() {
            break;
        }
        let k = *r.pick(&open);
        let all: Vec<Vec<Option<String>>> = ps.iter().map(|p| p.sent.clone()).collect();
        let p = &mut ps[k];
        simcore::fold(k as u64 | (p.step as u64) << 32);
        let res = catch_unwind(AssertUnwindSafe(|| step(p, &all)));
        if res.is_err() {
            o.fail("C18.panic", format!("exchange {k} ({:?}): a party panicked at step {}: {:?} {:?}", p.e, p.step, p.to_server, p.to_client));
            p.step = 5;
        }
        p.step += 1;
    }
    let mut shape = 0xcbf29ce484222325u64;
    for (k, p) in ps.iter().enumerate() {
        judge(k, p, &mut o);
        if trace {
            o.trace.push(format!("exchange {k}: {:?}", p.e));
            o.trace.extend(p.log.iter().cloned());
        }
        for b in format!("{:?}{}{}{}{}", p.e.faults, p.server_ok, p.client_ok, p.to_server.len(), p.to_client.len()).bytes() {
            shape = (shape ^ b as u64).wrapping_mul(0x100000001b3);
        }
        for m in p.sent.iter().flatten() {
            for b in m.bytes() {
                simcore::fold(b as u64);
            }
        }
        o.stat("exchanges", 1);
        o.stat("completed on both sides", (p.server_ok && p.client_ok) as u64);
        o.stat("wrong secret", (p.e.pass != p.e.secret) as u64);
        for f in &p.e.faults {
            let n = format!("{:?}", f.kind);
            o.stat(&format!("fault {}", n.split(['(', ' ']).next().unwrap()), 1);
        }
        o.nontrivial |= !p.e.faults.is_empty() || p.e.pass != p.e.secret;
    }
    o.shape = shape;
    o.fp = simcore::fingerprint();
    o.sim_ns = simcore::now();
    o
}

fn step(p: &mut Party, all: &[Vec<Option<String>>]) {
    let fs = p.e.faults.clone();
    match p.step {
        0 => {
            let m = match p.client.encode_client_first() {
                Ok(m) => m,
                Err(e) => {
                    p.log.push(format!("  client cannot start: {e}"));
                    p.client_dead = true;
                    return;
                }
            };
            p.sent[0] = Some(m.clone());
            for m in deliver(&fs, 0, &m, &[], all) {
                server_gets(p, &m);
            }
        }
        1 => {
            if let Some(m) = p.sent[1].clone() {
                for m in deliver(&fs, 1, &m, &[], all) {
                    client_gets(p, &m);
                }
            }
        }
        2 => {
            if let Some(m) = p.sent[2].clone() {
                let earlier: Vec<String> = p.sent[0].iter().cloned().collect();
                for m in deliver(&fs, 2, &m, &earlier, all) {
                    server_gets(p, &m);
                }
            } else if fs.iter().any(|f| matches!(f.kind, Kind::Replay(_)) && f.msg == 2) {
                // the attacker goes on without the client
                for m in deliver(&fs, 2, "", &[], all) {
                    server_gets(p, &m);
                }
            }
        }
        3 => {
            if let Some(m) = p.sent[3].clone() {
                let earlier: Vec<String> = p.sent[1].iter().cloned().collect();
                for m in deliver(&fs, 3, &m, &earlier, all) {
                    client_gets(p, &m);
                }
            } else if fs.iter().any(|f| f.msg == 3) {
                for m in deliver(&fs, 3, "v=", &[], all) {
                    client_gets(p, &m);
                }
            }
        }
        _ => {
            // whatever happened, the true last messages again: nothing may complete now that had not
            let before = (p.server_ok, p.client_ok);
            if let (Some(m), true) = (p.sent[2].clone(), p.finals > 0) {
                if let Ok((AuthenticationStatus::Authenticated, _)) = p.server.decode_client_final(&m) {
                    p.log.push("  server accepted a repeated client-final".into());
                    if !before.0 {
                        p.server_ok = true;
                        p.to_server.push("repeated".into());
                    }
                }
            }
        }
    }
}
fn server_gets(p: &mut Party, m: &str) {
    p.log.push(format!("  server gets {m:?}"));
    p.to_server.push(m.to_string());
    if p.server_dead {
        return;
    }
    if p.to_server.len() == 1 {
        if let Err(e) = p.server.decode_client_first(m) {
            p.log.push(format!("  server: {e}"));
            p.server_dead = true;
            return;
        }
        if p.sent[0].as_deref() == Some(m) && (p.server.authcid() != Some(&p.e.user) || p.server.authzid() != Some(p.e.authzid.as_deref())) {
            p.log.push(format!("  NAMES {:?} {:?}", p.server.authcid(), p.server.authzid()));
        }
        let salt = p.salt.clone();
        match p.server.encode_server_first(p.record.clone(), &salt, p.e.iters, &mut rand::rng()) {
            Ok(s) => p.sent[1] = Some(s),
            Err(e) => {
                p.log.push(format!("  server: {e}"));
                p.server_dead = true;
            }
        }
    } else {
        p.finals += 1;
        match p.server.decode_client_final(m) {
            Ok((AuthenticationStatus::Authenticated, s)) => {
                p.log.push("  server: authenticated".into());
                p.server_ok = true;
                p.server_dead = true;
                p.sent[3] = Some(s);
            }
            Ok((st, s)) => {
                p.log.push(format!("  server: {st:?}"));
                p.server_dead = true;
                p.sent[3] = Some(s);
            }
            Err(e) => {
                p.log.push(format!("  server: {e}"));
                p.server_dead = true;
            }
        }
    }
}
fn client_gets(p: &mut Party, m: &str) {
    p.log.push(format!("  client gets {m:?}"));
    p.to_client.push(m.to_string());
    if p.client_dead {
        return;
    }
    if p.to_client.len() == 1 {
        match p.client.decode_server_first(m) {
            Ok(s) => p.sent[2] = Some(s),
            Err(e) => {
                p.log.push(format!("  client: {e}"));
                p.client_dead = true;
            }
        }
    } else {
        match p.client.decode_server_final(m) {
            Ok(()) => {
                p.log.push("  client: server verified".into());
                p.client_ok = true;
                p.client_dead = true;
            }
            Err(e) => {
                p.log.push(format!("  client: {e}"));
                p.client_dead = true;
            }
        }
    }
}

fn judge(k: usize, p: &Party, o: &mut Outcome) {
    let e = p.e;
    let got = |v: &Vec<String>, i: usize, s: usize| p.sent[s].is_some() && v.get(i) == p.sent[s].as_ref();
    let c1 = got(&p.to_server, 0, 0);
    let s1 = got(&p.to_client, 0, 1);
    let c2 = got(&p.to_server, 1, 2);
    let s2 = got(&p.to_client, 1, 3);
    let right = e.pass == e.secret;
    let authz = e.authzid.as_ref().is_none_or(|a| *a == e.user);
    if p.log.iter().any(|l| l.starts_with("  NAMES")) {
        o.fail("C18.names", format!("exchange {k}: user {:?} authzid {:?} arrived as {:?}", e.user, e.authzid, p.log));
    }
    if p.server_ok && !(right && authz && c1 && s1 && c2) {
        o.fail(
            "C18.server-accepts",
            format!("exchange {k}: the server authenticated although right password {right}, may act as {authz}, client-first as sent {c1}, server-first {s1}, client-final {c2}: {:?}", p.log),
        );
    }
    if p.client_ok && !(right && authz && c1 && s1 && c2 && s2) {
        o.fail(
            "C18.client-accepts",
            format!("exchange {k}: the client accepted although right password {right}, client-first as sent {c1}, server-first {s1}, client-final {c2}, server-final {s2}: {:?}", p.log),
        );
    }
    if right && authz && c1 && s1 && c2 && !p.server_ok {
        o.fail("C18.server-refuses", format!("exchange {k} ({e:?}): the server refused an untampered exchange: {:?}", p.log));
    }
    if right && authz && c1 && s1 && c2 && s2 && !p.client_ok {
        o.fail("C18.client-refuses", format!("exchange {k} ({e:?}): the client refused an untampered exchange: {:?}", p.log));
    }
    // untampered, undropped messages must keep the exchange going
    if e.faults.is_empty() && right && authz && !(p.server_ok && p.client_ok) {
        o.fail("C18.incomplete", format!("exchange {k} ({e:?}) did not complete: {:?}", p.log));
    }
    // the server's part of the nonce must be long enough to be fresh
    if let (Some(m), Some(b)) = (p.to_server.first(), &p.sent[1]) {
        let cn = m.split(',').nth(3).and_then(|f| f.strip_prefix("r=")).unwrap_or("");
        let sn = b.split(',').next().and_then(|f| f.strip_prefix("r=")).unwrap_or("");
        if !sn.starts_with(cn) || sn.len() < cn.len() + 8 {
            o.fail("C18.nonce", format!("exchange {k}: the server answered nonce {cn:?} with {sn:?}"));
        }
    }
}
