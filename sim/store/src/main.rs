//! The password store on a simulated file: short and interrupted I/O, errors, full disks, crashes
//! in the middle of a rewrite, damaged lines. The code under test is /repo's auth.rs.
#![allow(dead_code)]

/// The types of akasa-core's state.rs that auth.rs uses.
pub mod state {
    use std::num::NonZeroU32;
    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub enum HashAlgorithm {
        Sha256,
        Sha512,
        Sha256Pkbdf2 { iterations: NonZeroU32 },
        Sha512Pkbdf2 { iterations: NonZeroU32 },
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct AuthPassword {
        pub hash_algorithm: HashAlgorithm,
        pub hashed_password: Vec<u8>,
        pub salt: Vec<u8>,
    }
}
#[path = "/repo/akasa-core/src/protocols/mqtt/auth.rs"]
mod auth;

use dashmap::DashMap;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::Rng;
use simdrv::{Budget, Info, Outcome, Suite, finish};
use state::{AuthPassword, HashAlgorithm};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Write};
use std::num::NonZeroU32;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct User {
    name: String,
    /// 0, 1: SHA-256, SHA-512; 2, 3: PBKDF2 with them
    alg: u8,
    iters: u32,
    pass: String,
    salt: Vec<u8>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Medium {
    /// chances per million
    short: u64,
    intr: u64,
    /// error when this many bytes have passed: (bytes, kind)
    fail: Option<(usize, String)>,
    /// the flush at the end fails
    flush: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    /// the end of the file is lost: bytes kept, in parts per million of the length
    Tail(u64),
    /// a crash right before the last bytes
    Last(usize),
    /// what happens to one line: (line, how, where)
    Line(usize, String, usize),
    /// a further line
    Add(usize, String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    put: Vec<User>,
    del: Vec<String>,
    write: Medium,
    damage: Vec<Damage>,
    read: Medium,
}

const ERRS: [&str; 7] = ["full", "other", "reset", "perm", "timeout", "pipe", "zero"];
fn kind(s: &str) -> ErrorKind {
    match s {
        "full" => ErrorKind::StorageFull,
        "reset" => ErrorKind::ConnectionReset,
        "perm" => ErrorKind::PermissionDenied,
        "timeout" => ErrorKind::TimedOut,
        "pipe" => ErrorKind::BrokenPipe,
        "block" => ErrorKind::WouldBlock,
        "eof" => ErrorKind::UnexpectedEof,
        _ => ErrorKind::Other,
    }
}

struct File<'a> {
    data: &'a mut Vec<u8>,
    pos: usize,
    m: &'a Medium,
    rng: &'a mut Rng,
    stats: &'a mut BTreeMap<String, u64>,
    /// the medium reported an error the caller must report
    failed: bool,
}
impl File<'_> {
    fn note(&mut self, k: &str) {
        *self.stats.entry(k.into()).or_default() += 1;
    }
    fn common(&mut self, want: usize) -> io::Result<usize> {
        if want > 0 && self.rng.chance(self.m.intr, 1_000_000) {
            self.note("fault interrupted call");
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = want;
        if want > 1 && self.rng.chance(self.m.short, 1_000_000) {
            self.note("fault short transfer");
            n = 1 + self.rng.below(want as u64 - 1) as usize;
        }
        if let Some((at, k)) = &self.m.fail {
            if self.pos >= *at {
                let k = k.clone();
                self.failed = true;
                self.note(&format!("fault I/O error {k}"));
                return if k == "zero" { Ok(0) } else { Err(kind(&k).into()) };
            }
            n = n.min(at - self.pos);
        }
        Ok(n)
    }
}
impl Write for File<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.common(b.len())?;
        self.data.extend_from_slice(&b[..n]);
        self.pos += n;
        simcore::fold(n as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(k) = &self.m.flush {
            let k = k.clone();
            self.failed = true;
            self.note("fault failed flush");
            return Err(kind(&k).into());
        }
        Ok(())
    }
}
impl Read for File<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        // an error past the end of the file is still an error
        let n = self.common(b.len())?;
        let n = n.min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        simcore::fold(n as u64 ^ 0x77);
        Ok(n)
    }
}

fn alg(u: &User) -> HashAlgorithm {
    let iterations = NonZeroU32::new(u.iters.max(1)).unwrap();
    match u.alg {
        0 => HashAlgorithm::Sha256,
        1 => HashAlgorithm::Sha512,
        2 => HashAlgorithm::Sha256Pkbdf2 { iterations },
        _ => HashAlgorithm::Sha512Pkbdf2 { iterations },
    }
}
fn cheap(a: HashAlgorithm) -> bool {
    match a {
        HashAlgorithm::Sha256Pkbdf2 { iterations } | HashAlgorithm::Sha512Pkbdf2 { iterations } => iterations.get() <= 1000,
        _ => true,
    }
}
/// Names a line of the file cannot carry: they must be refused, not altered.
fn representable(n: &str) -> bool {
    !n.contains('\n') && n.trim_start() == n
}

fn name(r: &mut Rng) -> String {
    let fixed = ["alice", "bob", "", ":", "a:b", "x,y", "sha256", "u:sha256,c2FsdA,eA", "\u{fc}ml\u{e4}ut", "tr ailing ", "#c", "=", "m\u{0}id", "\u{1f600}", "a\rb", "q\"uote"];
    let bad = [" lead", "\ttab", "\u{a0}nbsp", "new\nline", "end\n", "\rcr", "\u{2003}em"];
    match r.below(10) {
        0..=3 => r.pick(&fixed).to_string(),
        4 if r.chance(1, 3) => r.pick(&bad).to_string(),
        5 => "n".repeat(r.below(5000) as usize),
        _ => (0..1 + r.below(12)).map(|_| char::from_u32(0x21 + r.below(0x5e) as u32).unwrap()).collect(),
    }
}
fn user(r: &mut Rng, name: String) -> User {
    let mut salt = vec![0; auth::MIN_SALT_LEN + if r.chance(1, 2) { 0 } else { r.below(40) as usize }];
    salt.iter_mut().for_each(|b| *b = r.next() as u8);
    let a = r.below(4) as u8;
    User {
        name,
        alg: a,
        iters: if r.chance(1, 12) { *r.pick(&[u32::MAX, 100_000, 65536]) } else { 1 + r.below(40) as u32 },
        pass: (0..r.below(24)).map(|_| char::from(0x20 + r.below(0x5f) as u8)).collect(),
        salt,
    }
}
fn medium(r: &mut Rng, read: bool, size: usize) -> Medium {
    let err = |r: &mut Rng| {
        let k = r.pick(&ERRS).to_string();
        if read && k == "zero" { "eof".into() } else { k }
    };
    Medium {
        short: *r.pick(&[0, 0, 300_000, 900_000, 1_000_000]),
        intr: *r.pick(&[0, 0, 100_000, 500_000]),
        fail: r.chance(1, 4).then(|| (r.below(size as u64 * 5 / 4 + 10) as usize, err(r))),
        flush: (!read && r.chance(1, 10)).then(|| err(r)),
    }
}

fn plan(seed: u64, i: u64) -> Value {
    let s = Rng::stream(seed, i * 2 + 22).next();
    let mut r = Rng::new(s);
    let mut rounds = Vec::new();
    let mut names: Vec<String> = Vec::new();
    for _ in 0..1 + r.below(6) {
        let n = if r.chance(1, 6) { 30 + r.below(60) } else { r.below(6) };
        let mut put = Vec::new();
        for _ in 0..n {
            let nm = if !names.is_empty() && r.chance(1, 4) { r.pick(&names).clone() } else { name(&mut r) };
            names.push(nm.clone());
            put.push(user(&mut r, nm));
        }
        let mut del = Vec::new();
        while !names.is_empty() && r.chance(1, 4) {
            del.push(r.pick(&names).clone());
        }
        let size = 40 + put.len() * 110;
        let mut damage = Vec::new();
        if r.chance(1, 2) {
            damage.push(match r.below(8) {
                0 | 1 => Damage::Tail(r.below(1_000_000)),
                2 | 3 => Damage::Last(r.below(130) as usize),
                4 => {
                    let l = ["x", "user:", ":", "u:sha256", "u:sha256,", "u:md5,AAAAAAAAAAAAAAAAAAAAAAAA,AAAA", "u:sha256,short,AAAA", "u:sha256-pkbdf2,0,AAAAAAAAAAAAAAAAAAAAAAAA,AAAA", "u:sha256-pkbdf2,-1,AAAAAAAAAAAAAAAAAAAAAAAA,AAAA", "u:sha512,AAAAAAAAAAAAAAAAAAAAAAAA,AA,AA", "u:sha256-pkbdf2,99999999999,AAAAAAAAAAAAAAAAAAAAAAAA,AAAA", "u:sha256,AAAAAAAAAAAAAAAAAAAAAAAA,", "u:sha256-pkbdf2,5,AAAAAAAAAAAAAAAAAAAAAAAA,"];
                    Damage::Add(r.below(50) as usize, r.pick(&l).to_string())
                }
                _ => Damage::Line(r.below(50) as usize, r.pick(&["comma", "alg", "base64", "utf8", "dup-comma", "cut-hash", "long-hash", "cut-salt", "iter", "colon"]).to_string(), r.next() as usize % 1000),
            });
        }
        let (write, read) = (medium(&mut r, false, size), medium(&mut r, true, size));
        rounds.push(Round { put, del, write, damage, read });
    }
    serde_json::json!({"seed": s, "rounds": rounds})
}

fn entry_eq(a: &AuthPassword, b: &AuthPassword) -> bool {
    a.hash_algorithm == b.hash_algorithm && a.hashed_password == b.hashed_password && a.salt == b.salt
}
/// Damages one line so that a reader can tell; false if it was left as it is.
fn damage_line(line: &mut Vec<u8>, how: &str, at: usize) -> bool {
    let Some(colon) = line.iter().rposition(|b| *b == b':') else { return false };
    let commas: Vec<usize> = (colon..line.len()).filter(|i| line[*i] == b',').collect();
    if commas.len() < 2 {
        return false;
    }
    let last = *commas.last().unwrap();
    match how {
        "comma" => {
            line.remove(commas[at % commas.len()]);
        }
        "dup-comma" => line.insert(commas[at % commas.len()], b','),
        "alg" => {
            let p = colon + 1 + at % (commas[0] - colon - 1);
            line[p] = b'@';
        }
        "base64" => {
            let from = commas[commas.len() - 2] + 1;
            let p = from + at % (line.len() - from);
            if line[p] == b',' {
                return false;
            }
            line[p] = b'*';
        }
        "utf8" => {
            let p = at % line.len();
            line.insert(p, 0xff);
        }
        "cut-hash" => {
            // whole groups of three bytes are missing
            let n = (line.len() - last - 1) / 4;
            if n < 1 {
                return false;
            }
            line.truncate(last + 1 + 4 * (at % n));
        }
        "long-hash" => {
            // as if the rest of another line followed
            if (line.len() - last - 1) % 4 != 0 {
                line.truncate(last + 1 + (line.len() - last - 1) / 4 * 4);
            }
            line.extend(b"AAAABBBBCCCCDDDDEEEEFFFF");
        }
        "cut-salt" => {
            let from = commas[commas.len() - 2] + 1;
            line.drain(from + 4..last);
        }
        "iter" => {
            if commas.len() != 3 {
                return false;
            }
            line.splice(commas[0] + 1..commas[1], *b"0x5");
        }
        "colon" => {
            if line[..colon].contains(&b':') {
                return false;
            }
            line.remove(colon);
        }
        _ => return false,
    }
    true
}

fn exec(plan: &Value, trace: bool) -> ! {
    let seed = plan["seed"].as_u64().unwrap_or(1);
    let rounds: Vec<Round> = serde_json::from_value(plan["rounds"].clone()).unwrap_or_default();
    simcore::init(
        simcore::SchedConfig { seed, ..Default::default() },
        Box::new(|f| finish(&Outcome { inconclusive: Some(format!("{f:?}")), ..Default::default() })),
    );
    let o = simcore::block_on(async move {
        match catch_unwind(AssertUnwindSafe(|| run(rounds, seed, trace))) {
            Ok(o) => o,
            Err(_) => {
                let mut o = Outcome::default();
                o.fail("C22.panic", "reading or writing the store panicked");
                o
            }
        }
    });
    finish(&o)
}

fn run(rounds: Vec<Round>, seed: u64, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut r = Rng::stream(seed, 5);
    let mut disk: Vec<u8> = Vec::new();
    // users whose password is known, by name
    let mut known: BTreeMap<String, User> = BTreeMap::new();
    let mut shape = 0xcbf29ce484222325u64;
    let mut mix = |v: u64| shape = (shape ^ v).wrapping_mul(0x100000001b3);
    for (k, rd) in rounds.iter().enumerate() {
        o.stat("rounds", 1);
        // the tool reads the file, changes the store and rewrites the file
        let none = Medium::default();
        let mut st = BTreeMap::new();
        let loaded = {
            let f = File { data: &mut disk, pos: 0, m: &none, rng: &mut r, stats: &mut st, failed: false };
            auth::load_passwords(f)
        };
        let store: DashMap<String, AuthPassword> = match loaded {
            Ok(s) => s,
            Err(_) => {
                known.clear();
                DashMap::new()
            }
        };
        known.retain(|n, _| store.contains_key(n));
        for u in &rd.put {
            let a = alg(u);
            let h = if cheap(a) {
                auth::hash_password(a, &u.salt, u.pass.as_bytes())
            } else {
                // too slow to compute, and never asked for
                vec![7; if matches!(a, HashAlgorithm::Sha512Pkbdf2 { .. }) { 64 } else { 32 }]
            };
            store.insert(u.name.clone(), AuthPassword { hash_algorithm: a, hashed_password: h, salt: u.salt.clone() });
            known.insert(u.name.clone(), u.clone());
        }
        for n in &rd.del {
            store.remove(n);
            known.remove(n);
        }
        let model: BTreeMap<String, AuthPassword> = store.iter().map(|e| (e.key().clone(), e.value().clone())).collect();
        let fits = model.keys().all(|n| representable(n));
        disk.clear();
        let (res, failed) = {
            let mut f = File { data: &mut disk, pos: 0, m: &rd.write, rng: &mut r, stats: &mut o.stats, failed: false };
            let res = auth::dump_passwords(&mut f, &store);
            (res, f.failed)
        };
        mix(res.is_ok() as u64 | (failed as u64) << 1 | (model.len() as u64) << 2);
        if trace {
            o.trace.push(format!("round {k}: {} users {:?}, dump {res:?}, medium failed {failed}, file {:?}", model.len(), model.keys().collect::<Vec<_>>(), String::from_utf8_lossy(&disk)));
        }
        if failed && res.is_ok() {
            o.fail("C22.write-error-hidden", format!("round {k}: the medium failed ({:?}) but dump_passwords reported success", rd.write));
        }
        if !failed && fits && res.is_err() {
            o.fail("C22.dump-refused", format!("round {k}: dumping {} users failed without an error of the medium: {res:?}", model.len()));
        }
        let whole = res.is_ok() && !failed;
        o.nontrivial |= failed || !rd.damage.is_empty() || rd.write.short > 0 || rd.read.short > 0 || rd.read.fail.is_some();
        // what happens to the file afterwards
        let mut damaged = !whole;
        let mut line_damage = false;
        for d in &rd.damage {
            match d {
                Damage::Tail(ppm) => {
                    let n = (disk.len() as u64 * ppm / 1_000_000) as usize;
                    disk.truncate(n);
                    damaged = true;
                    o.stat("fault lost tail", 1);
                }
                Damage::Last(n) => {
                    let n = disk.len().saturating_sub(*n);
                    disk.truncate(n);
                    damaged = true;
                    o.stat("fault lost tail", 1);
                }
                Damage::Line(l, how, at) => {
                    let mut lines: Vec<Vec<u8>> = disk.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                    let n = lines.len();
                    // only what an entry of the store wrote as a whole line
                    if n > 1 && whole && fits && model.keys().all(|n| !n.contains(',')) {
                        if damage_line(&mut lines[l % (n - 1)], how, *at) {
                            line_damage = true;
                            damaged = true;
                            o.stat("fault malformed line", 1);
                            disk = lines.join(&b'\n');
                        }
                    }
                }
                Damage::Add(l, s) => {
                    let mut lines: Vec<Vec<u8>> = disk.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                    let at = l % lines.len();
                    lines.insert(at, s.as_bytes().to_vec());
                    disk = lines.join(&b'\n');
                    damaged = true;
                    line_damage = true;
                    o.stat("fault malformed line", 1);
                }
            }
        }
        let _ = line_damage;
        let (back, failed) = {
            let mut f = File { data: &mut disk, pos: 0, m: &rd.read, rng: &mut r, stats: &mut o.stats, failed: false };
            let res = auth::load_passwords(&mut f);
            (res, f.failed)
        };
        mix(back.is_ok() as u64 | (failed as u64) << 1);
        if trace {
            o.trace.push(format!("round {k}: after {:?} the file is {:?}; load {:?}, medium failed {failed}", rd.damage, String::from_utf8_lossy(&disk), back.as_ref().map(|m| m.iter().map(|e| e.key().clone()).collect::<Vec<_>>())));
        }
        let file = || String::from_utf8_lossy(&disk).chars().take(600).collect::<String>();
        match &back {
            Err(e) => {
                if !failed && !damaged {
                    o.fail("C22.load-refused", format!("round {k}: an undamaged file cannot be read: {e}; {:?}", file()));
                }
            }
            Ok(m) => {
                if failed {
                    o.fail("C22.read-error-hidden", format!("round {k}: the medium failed ({:?}) but load_passwords reported success", rd.read));
                }
                for e in m.iter() {
                    match model.get(e.key()) {
                        Some(x) if entry_eq(x, e.value()) => {}
                        x => o.fail("C22.foreign-entry", format!("round {k}: user {:?} was read as {:?}, dumped was {x:?}; damage {:?}; file {:?}", e.key(), e.value(), rd.damage, file())),
                    }
                }
                if !damaged && !failed {
                    for n in model.keys() {
                        if !m.contains_key(n) {
                            o.fail("C22.lost-entry", format!("round {k}: user {n:?} was dumped but not read; file {:?}", file()));
                        }
                    }
                }
                // who is let in
                let mut asked = 0;
                for (n, u) in &known {
                    if asked > 12 || !cheap(alg(u)) || m.get(n).is_some_and(|e| !cheap(e.hash_algorithm)) {
                        continue;
                    }
                    asked += 1;
                    let here = m.get(n).is_some_and(|e| model.get(n).is_some_and(|x| entry_eq(x, &e)));
                    let ok = auth::check_password(m, n, u.pass.as_bytes());
                    if here && !ok {
                        o.fail("C22.right-refused", format!("round {k}: the password of {n:?} ({u:?}) is refused"));
                    }
                    if !here && ok && !m.contains_key(n) {
                        o.fail("C22.missing-accepted", format!("round {k}: {n:?} is let in without an entry"));
                    }
                    let mut wrong = vec![String::new(), format!("{}x", u.pass), format!("{} ", u.pass), u.pass.to_uppercase(), "wrong".into()];
                    for j in 0..if asked < 4 { 300 } else { 3 } {
                        wrong.push(format!("guess{j}"));
                    }
                    if !u.pass.is_empty() {
                        wrong.push(u.pass[..u.pass.len() - 1].into());
                    }
                    let quick = match m.get(n).map(|e| e.hash_algorithm) {
                        Some(HashAlgorithm::Sha256Pkbdf2 { iterations } | HashAlgorithm::Sha512Pkbdf2 { iterations }) => iterations.get() < 3,
                        _ => true,
                    };
                    if !quick {
                        wrong.truncate(7);
                    }
                    for w in &wrong {
                        if *w != u.pass && auth::check_password(m, n, w.as_bytes()) {
                            o.fail("C22.wrong-accepted", format!("round {k}: {n:?} is let in with {w:?} instead of {:?}; entry {:?}", u.pass, m.get(n).map(|e| e.value().clone())));
                            break;
                        }
                    }
                    o.stat("passwords checked", 1);
                }
                for n in ["nobody", "", "ALICE", "alice "] {
                    if !m.contains_key(n) && auth::check_password(m, n, b"") {
                        o.fail("C22.missing-accepted", format!("round {k}: {n:?} is let in without an entry"));
                    }
                }
            }
        }
    }
    o.shape = shape;
    o.fp = simcore::fingerprint();
    o.sim_ns = simcore::now();
    o
}

struct Store;
impl Suite for Store {
    fn props(&self) -> Vec<&'static str> {
        vec!["C22"]
    }
    fn budget(&self, _: &str, thorough: bool) -> Budget {
        if thorough { Budget { runs: 400_000, secs: 600 } } else { Budget { runs: 12_000, secs: 60 } }
    }
    fn plan(&self, prop: &str, seed: u64, i: u64) -> Value {
        let mut p = plan(seed, i);
        p["prop"] = prop.into();
        p["suite"] = "store".into();
        p["index"] = i.into();
        p
    }
    fn exec(&self, plan: &Value, trace: bool) -> ! {
        exec(plan, trace)
    }
    fn info(&self, _: &str) -> Info {
        let v = |v: &[&str]| v.iter().map(|x| x.to_string()).collect();
        Info {
            rule: "A case is a history of rewrites of a password file (insert, update, remove, dump) on a simulated medium with seeded short and interrupted transfers, errors at a byte, failed flushes, lost tails and malformed lines, each followed by a load through another faulty medium and log-in attempts; distinct non-trivial cases are counted by the sequence of verdicts and store sizes, and need at least one fault.".into(),
            level_note: String::new(),
            assumptions: v(&["ring's hash functions are correct", "the record types of state.rs are repeated in the harness"]),
            real: v(&["protocols/mqtt/auth.rs (load_passwords, dump_passwords, check_password, hash_password)"]),
            stub: v(&["file (simulated medium)", "entropy (seeded)"]),
        }
    }
}
fn main() {
    std::process::exit(simdrv::main(&Store))
}
