//! The simulated client's own SCRAM-SHA-256 (RFC 5802/7677), with faults.
use crate::plan::ScramP;
use crate::wire::{Pkt, Props, Val, prop_b};
use base64::{Engine, engine::general_purpose::STANDARD as B64};
use ring::{digest, hmac, pbkdf2};
use std::num::NonZeroU32;
use std::sync::Mutex;

/// Client messages of earlier exchanges, for replays.
static SEEN: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub struct Client {
    p: ScramP,
    nonce: String,
    first: String,
    fin: String,
    server_sig: Vec<u8>,
    step: usize,
    /// the server proved that it knows the record
    pub verified: Option<bool>,
}
fn esc(s: &str) -> String {
    s.replace('=', "=3D").replace(',', "=2C")
}
fn mac(k: &[u8], d: &[u8]) -> Vec<u8> {
    hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, k), d).as_ref().to_vec()
}
/// SaltedPassword of RFC 5802.
pub fn salted(pass: &str, salt: &[u8], iters: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    pbkdf2::derive(pbkdf2::PBKDF2_HMAC_SHA256, NonZeroU32::new(iters).expect("iterations"), salt, pass.as_bytes(), &mut out);
    out
}
impl Client {
    pub fn new(p: &ScramP) -> Client {
        let nonce = format!("{:016x}{:08x}", simcore::entropy(), simcore::entropy() as u32);
        Client { p: p.clone(), nonce, first: String::new(), fin: String::new(), server_sig: vec![], step: 0, verified: None }
    }
    fn method(&self) -> String {
        if self.p.method.is_empty() { "SCRAM-SHA-256".into() } else { self.p.method.clone() }
    }
    fn gs2(&self) -> String {
        let f = match self.p.edit.as_str() {
            "y-flag" => "y",
            "p-flag" => "p=tls-unique",
            _ => "n",
        };
        match &self.p.authzid {
            Some(a) => format!("{f},a={},", esc(a)),
            None => format!("{f},,"),
        }
    }
    fn bare(&self) -> String {
        format!("n={},r={}", esc(&self.p.user), self.nonce)
    }
    pub fn connect_props(&mut self) -> Props {
        let mut first = format!("{}{}", self.gs2(), self.bare());
        match self.p.edit.as_str() {
            "no-data" => return vec![(0x15, Val::Str(self.method()))],
            "empty-first" => first.clear(),
            "bad-first" => first = "x".into(),
            "no-gs2" => first = self.bare(),
            "bad-escape" => first = format!("{}n=a=2cb,r={}", self.gs2(), self.nonce),
            "no-nonce" => first = format!("{}n={}", self.gs2(), esc(&self.p.user)),
            "binary-first" => return vec![(0x15, Val::Str(self.method())), (0x16, Val::Bin(vec![0xff, 0xfe, 0x00]))],
            "replay" => {
                if let Some((f, _)) = SEEN.lock().unwrap().last() {
                    first = f.clone();
                }
            }
            _ => {}
        }
        self.first = first.clone();
        vec![(0x15, Val::Str(self.method())), (0x16, Val::Bin(first.into_bytes()))]
    }
    fn auth(&self, data: Vec<u8>) -> Pkt {
        let m = if self.p.edit == "other-method" { "SCRAM-SHA-1".into() } else { self.method() };
        Pkt::Auth { code: if self.p.edit == "wrong-code" { 0x19 } else { 0x18 }, props: vec![(0x15, Val::Str(m)), (0x16, Val::Bin(data))] }
    }
    /// The client's reaction to an AUTH packet of the broker.
    pub fn answer(&mut self, code: u8, props: &Props) -> Option<Vec<Pkt>> {
        self.step += 1;
        if code != 0x18 || self.step > if self.p.edit == "restart" { 2 } else { 1 } {
            return None;
        }
        if self.p.edit == "restart" && self.step == 1 {
            let m = self.method();
            return Some(vec![Pkt::Auth { code: 0x19, props: vec![(0x15, Val::Str(m)), (0x16, Val::Bin(self.first.clone().into_bytes()))] }]);
        }
        let sf = String::from_utf8(prop_b(props, 0x16)?).ok()?;
        let f = |n: usize, k: &str| sf.split(',').nth(n).and_then(|x| x.strip_prefix(k)).map(String::from);
        let (nonce, salt, iters) = (f(0, "r=")?, f(1, "s=")?, f(2, "i=")?);
        let salt = B64.decode(salt).ok()?;
        let iters: u32 = iters.parse().ok()?;
        NonZeroU32::new(iters)?;
        let salted = salted(&self.p.pass, &salt, iters);
        let ck = mac(&salted, b"Client Key");
        let sk = mac(&salted, b"Server Key");
        let stored = digest::digest(&digest::SHA256, &ck);
        let gs2 = match self.p.edit.as_str() {
            "gs2-mismatch" => "y,,".to_string(),
            _ => self.gs2(),
        };
        let mut n2 = nonce.clone();
        match self.p.edit.as_str() {
            "nonce-cut" => n2 = self.nonce.clone(),
            "nonce-ext" => n2.push('x'),
            "nonce-server" => n2 = nonce[self.nonce.len().min(nonce.len())..].to_string(),
            _ => {}
        }
        let without = format!("c={},r={}", B64.encode(&gs2), n2);
        let msg = format!("{},{},{}", self.bare(), sf, without);
        let sig = mac(stored.as_ref(), msg.as_bytes());
        self.server_sig = mac(&sk, msg.as_bytes());
        let mut proof: Vec<u8> = ck.iter().zip(&sig).map(|(a, b)| a ^ b).collect();
        match self.p.edit.as_str() {
            "proof-bit" => {
                let k = (simcore::entropy() % 256) as usize;
                proof[k / 8] ^= 1 << (k % 8);
            }
            "proof-cut" => proof.truncate((simcore::entropy() % 32) as usize),
            "proof-empty" => proof.clear(),
            "proof-zero" => proof = vec![0; 32],
            _ => {}
        }
        let mut fin = format!("{without},p={}", B64.encode(&proof));
        match self.p.edit.as_str() {
            "junk" => fin.push_str(",x=1"),
            // the proof is right, what is sent with it is not
            "nonce-show" => fin = fin.replacen(&format!("r={nonce}"), &format!("r={}", self.nonce), 1),
            "nonce-show2" => fin = fin.replacen(&format!("r={nonce}"), &format!("r={nonce}0"), 1),
            "gs2-show" => fin = fin.replacen(&format!("c={}", B64.encode(self.gs2())), &format!("c={}", B64.encode("y,,")), 1),
            "no-proof" => fin = without.clone(),
            "extension" => fin = format!("{without},x=1,p={}", B64.encode(&proof)),
            "cut" => {
                let k = (simcore::entropy() % fin.len() as u64) as usize;
                fin.truncate(k);
            }
            "flip" => {
                // the characters stay ASCII
                let mut b = fin.into_bytes();
                let k = (simcore::entropy() % b.len() as u64) as usize;
                b[k] ^= 1 << (simcore::entropy() % 3);
                fin = String::from_utf8(b).unwrap_or_default();
            }
            "replay" | "replay-final" => {
                if let Some((_, f)) = SEEN.lock().unwrap().last() {
                    fin = f.clone();
                }
            }
            _ => {}
        }
        self.fin = fin.clone();
        match self.p.edit.as_str() {
            "stop" => None,
            "final-twice" => Some(vec![self.auth(fin.clone().into_bytes()), self.auth(fin.into_bytes())]),
            "first-again" => Some(vec![self.auth(self.first.clone().into_bytes())]),
            "no-final-data" => Some(vec![Pkt::Auth { code: 0x18, props: vec![(0x15, Val::Str(self.method()))] }]),
            "publish" => Some(vec![Pkt::Publish(crate::wire::Pub {
                topic: "t/intruder".into(),
                retain: true,
                payload: crate::client::payload(666, 0),
                ..Default::default()
            })]),
            "final-only-later" => Some(vec![self.auth(vec![]), self.auth(fin.into_bytes())]),
            "disconnect" => Some(vec![Pkt::Disconnect { code: 0, props: vec![] }, self.auth(fin.into_bytes())]),
            "subscribe" => Some(vec![Pkt::Subscribe { pid: 1, filters: vec![("#".into(), 1)], props: vec![] }, self.auth(fin.into_bytes())]),
            "ping" => Some(vec![Pkt::Pingreq]),
            "binary-final" => Some(vec![self.auth(vec![0xff, 0xc0, 0x80])]),
            _ => Some(vec![self.auth(fin.into_bytes())]),
        }
    }
    pub fn connack(&mut self, props: &Props) {
        let v = prop_b(props, 0x16).and_then(|b| String::from_utf8(b).ok());
        let ok = v.as_deref().and_then(|v| v.strip_prefix("v=")).and_then(|v| B64.decode(v).ok()).is_some_and(|v| v == self.server_sig);
        self.verified = Some(ok);
        if self.p.edit.is_empty() {
            SEEN.lock().unwrap().push((self.first.clone(), self.fin.clone()));
        }
        crate::client::rec(usize::MAX, 0, crate::client::Ev::Mark(format!("server signature {}", if ok { "valid" } else { "missing or wrong" })));
    }
}
