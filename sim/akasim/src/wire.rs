//! The simulated clients' own MQTT codec (3.1, 3.1.1 and 5), independent of the
//! stand-in the broker is built with. Decoding is strict: a packet that leaves
//! bytes over or lacks some is an error of the broker.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    U8(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Bin(Vec<u8>),
    Str(String),
    Pair(String, String),
}
pub type Props = Vec<(u8, Val)>;

pub fn prop(p: &[(u8, Val)], id: u8) -> Option<&Val> {
    p.iter().find(|x| x.0 == id).map(|x| &x.1)
}
pub fn prop_u(p: &[(u8, Val)], id: u8) -> Option<u64> {
    match prop(p, id)? {
        Val::U8(v) => Some(*v as u64),
        Val::U16(v) => Some(*v as u64),
        Val::U32(v) | Val::Var(v) => Some(*v as u64),
        _ => None,
    }
}
pub fn prop_s(p: &Props, id: u8) -> Option<String> {
    match prop(p, id)? {
        Val::Str(s) => Some(s.clone()),
        _ => None,
    }
}
pub fn prop_b(p: &Props, id: u8) -> Option<Vec<u8>> {
    match prop(p, id)? {
        Val::Bin(s) => Some(s.clone()),
        _ => None,
    }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Pub {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub topic: String,
    pub pid: u16,
    pub payload: Vec<u8>,
    pub props: Props,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Will {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Con {
    /// 3, 4 or 5
    pub ver: u8,
    pub cid: String,
    pub clean: bool,
    pub keep_alive: u16,
    pub will: Option<Will>,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
    pub props: Props,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pkt {
    Connect(Con),
    Connack { sp: bool, code: u8, props: Props },
    Publish(Pub),
    /// 4: PUBACK, 5: PUBREC, 6: PUBREL, 7: PUBCOMP
    Ack { kind: u8, pid: u16, code: u8 },
    Subscribe { pid: u16, filters: Vec<(String, u8)>, props: Props },
    Suback { pid: u16, codes: Vec<u8> },
    Unsubscribe { pid: u16, filters: Vec<String> },
    Unsuback { pid: u16, codes: Vec<u8> },
    Pingreq,
    Pingresp,
    Disconnect { code: u8, props: Props },
    Auth { code: u8, props: Props },
    Raw(usize),
}

fn p16(w: &mut Vec<u8>, v: u16) {
    w.extend_from_slice(&v.to_be_bytes());
}
fn pstr(w: &mut Vec<u8>, s: &[u8]) {
    p16(w, s.len() as u16);
    w.extend_from_slice(s);
}
pub fn pvar(w: &mut Vec<u8>, mut v: usize) {
    loop {
        let b = (v % 128) as u8;
        v /= 128;
        if v > 0 {
            w.push(b | 128);
        } else {
            w.push(b);
            return;
        }
    }
}
fn pprops(w: &mut Vec<u8>, p: &Props) {
    let mut b = Vec::new();
    for (id, v) in p {
        b.push(*id);
        match v {
            Val::U8(x) => b.push(*x),
            Val::U16(x) => p16(&mut b, *x),
            Val::U32(x) => b.extend_from_slice(&x.to_be_bytes()),
            Val::Var(x) => pvar(&mut b, *x as usize),
            Val::Bin(x) => pstr(&mut b, x),
            Val::Str(x) => pstr(&mut b, x.as_bytes()),
            Val::Pair(x, y) => {
                pstr(&mut b, x.as_bytes());
                pstr(&mut b, y.as_bytes());
            }
        }
    }
    pvar(w, b.len());
    w.extend(b);
}
pub fn frame(control: u8, body: &[u8]) -> Vec<u8> {
    let mut w = vec![control];
    pvar(&mut w, body.len());
    w.extend_from_slice(body);
    w
}
pub fn encode(p: &Pkt, ver: u8) -> Vec<u8> {
    let v5 = ver == 5;
    let mut b = Vec::new();
    let control = match p {
        Pkt::Connect(c) => {
            pstr(&mut b, if c.ver == 3 { b"MQIsdp" } else { b"MQTT" });
            b.push(c.ver);
            let mut f = (c.clean as u8) << 1;
            if let Some(w) = &c.will {
                f |= 4 | (w.qos << 3) | ((w.retain as u8) << 5);
            }
            f |= (c.pass.is_some() as u8) << 6 | (c.user.is_some() as u8) << 7;
            b.push(f);
            p16(&mut b, c.keep_alive);
            if c.ver == 5 {
                pprops(&mut b, &c.props);
            }
            pstr(&mut b, c.cid.as_bytes());
            if let Some(w) = &c.will {
                if c.ver == 5 {
                    pprops(&mut b, &w.props);
                }
                pstr(&mut b, w.topic.as_bytes());
                pstr(&mut b, &w.payload);
            }
            if let Some(u) = &c.user {
                pstr(&mut b, u.as_bytes());
            }
            if let Some(u) = &c.pass {
                pstr(&mut b, u);
            }
            0x10
        }
        Pkt::Publish(p) => {
            pstr(&mut b, p.topic.as_bytes());
            if p.qos > 0 {
                p16(&mut b, p.pid);
            }
            if v5 {
                pprops(&mut b, &p.props);
            }
            b.extend_from_slice(&p.payload);
            0x30 | (p.dup as u8) << 3 | p.qos << 1 | p.retain as u8
        }
        Pkt::Ack { kind, pid, code } => {
            p16(&mut b, *pid);
            if v5 && *code != 0 {
                b.push(*code);
            }
            kind << 4 | if *kind == 6 { 2 } else { 0 }
        }
        Pkt::Subscribe { pid, filters, props } => {
            p16(&mut b, *pid);
            if v5 {
                pprops(&mut b, props);
            }
            for (f, o) in filters {
                pstr(&mut b, f.as_bytes());
                b.push(*o);
            }
            0x82
        }
        Pkt::Unsubscribe { pid, filters } => {
            p16(&mut b, *pid);
            if v5 {
                b.push(0);
            }
            for f in filters {
                pstr(&mut b, f.as_bytes());
            }
            0xa2
        }
        Pkt::Pingreq => 0xc0,
        Pkt::Disconnect { code, props } => {
            if v5 && (*code != 0 || !props.is_empty()) {
                b.push(*code);
                if !props.is_empty() {
                    pprops(&mut b, props);
                }
            }
            0xe0
        }
        Pkt::Auth { code, props } => {
            b.push(*code);
            pprops(&mut b, props);
            0xf0
        }
        other => panic!("client cannot send {other:?}"),
    };
    frame(control, &b)
}

struct C<'a>(&'a [u8]);
type R<T> = Result<T, String>;
impl<'a> C<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return Err("packet body too short".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn var(&mut self) -> R<u32> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 127) as u32) << (7 * i);
            if b & 128 == 0 {
                return Ok(v);
            }
        }
        Err("bad variable byte integer".into())
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()?;
        Ok(self.take(n as usize)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        String::from_utf8(self.bin()?).map_err(|_| "string is not UTF-8".into())
    }
    fn props(&mut self, allowed: &[u8]) -> R<Props> {
        let n = self.var()? as usize;
        let mut c = C(self.take(n)?);
        let mut r = Props::new();
        while !c.0.is_empty() {
            let id = c.u8()?;
            if !allowed.contains(&id) {
                return Err(format!("property {id:#x} not allowed here"));
            }
            if id != 0x26 && id != 0x0b && r.iter().any(|x| x.0 == id) {
                return Err(format!("property {id:#x} twice"));
            }
            let v = match id {
                0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => Val::U8(c.u8()?),
                0x13 | 0x21 | 0x22 | 0x23 => Val::U16(c.u16()?),
                0x02 | 0x11 | 0x18 | 0x27 => Val::U32(c.u32()?),
                0x0b => Val::Var(c.var()?),
                0x09 | 0x16 => Val::Bin(c.bin()?),
                0x26 => Val::Pair(c.str()?, c.str()?),
                _ => Val::Str(c.str()?),
            };
            r.push((id, v));
        }
        Ok(r)
    }
}

/// Splits one frame off `b`: (control byte, body, total length).
pub fn split(b: &[u8]) -> R<Option<(u8, usize, usize)>> {
    if b.len() < 2 {
        return Ok(None);
    }
    let mut v = 0usize;
    for i in 0..4 {
        let Some(x) = b.get(1 + i) else { return Ok(None) };
        v |= ((x & 127) as usize) << (7 * i);
        if x & 128 == 0 {
            let h = 2 + i;
            return Ok((b.len() >= h + v).then_some((b[0], h, h + v)));
        }
    }
    Err("bad remaining length".into())
}

/// Decodes a packet sent by the broker.
pub fn decode(control: u8, body: &[u8], ver: u8) -> R<Pkt> {
    let v5 = ver == 5;
    let mut c = C(body);
    let typ = control >> 4;
    let fl = control & 15;
    if typ != 3 && fl != if typ == 6 { 2 } else { 0 } {
        return Err(format!("bad flags in control byte {control:#x}"));
    }
    let p = match typ {
        2 => {
            let f = c.u8()?;
            if f > 1 {
                return Err("bad CONNACK flags".into());
            }
            let code = c.u8()?;
            let props = if v5 {
                c.props(&[
                    0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1f, 0x26, 0x28, 0x29, 0x2a, 0x13, 0x1a, 0x1c, 0x15,
                    0x16,
                ])?
            } else {
                Props::new()
            };
            if code != 0 && f == 1 {
                return Err("session present in a refusing CONNACK".into());
            }
            Pkt::Connack { sp: f == 1, code, props }
        }
        3 => {
            let qos = (fl >> 1) & 3;
            if qos == 3 {
                return Err("QoS 3".into());
            }
            let topic = c.str()?;
            let pid = if qos > 0 { c.u16()? } else { 0 };
            if qos > 0 && pid == 0 {
                return Err("packet identifier 0".into());
            }
            if qos == 0 && fl & 8 != 0 {
                return Err("DUP on QoS 0".into());
            }
            let props = if v5 { c.props(&[0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0b, 0x03])? } else { Props::new() };
            if topic.contains(['#', '+']) || (topic.is_empty() && !(v5 && prop(&props, 0x23).is_some())) {
                return Err(format!("bad topic name {topic:?}"));
            }
            let payload = c.take(c.0.len())?.to_vec();
            Pkt::Publish(Pub { dup: fl & 8 != 0, qos, retain: fl & 1 != 0, topic, pid, payload, props })
        }
        4..=7 => {
            let pid = c.u16()?;
            let mut code = 0;
            if v5 && !c.0.is_empty() {
                code = c.u8()?;
                if !c.0.is_empty() {
                    c.props(&[0x1f, 0x26])?;
                }
            }
            let ok = match typ {
                4 | 5 => matches!(code, 0 | 0x10 | 0x80 | 0x83 | 0x87 | 0x90 | 0x91 | 0x97 | 0x99),
                _ => matches!(code, 0 | 0x92),
            };
            if !ok {
                return Err(format!("reason code {code:#x} in packet type {typ}"));
            }
            Pkt::Ack { kind: typ, pid, code }
        }
        9 | 11 => {
            let pid = c.u16()?;
            if v5 {
                c.props(&[0x1f, 0x26])?;
            }
            let codes = c.take(c.0.len())?.to_vec();
            if typ == 9 {
                if codes.iter().any(|x| !matches!(x, 0..=2 | 0x80 | 0x83 | 0x87 | 0x8f | 0x91 | 0x97 | 0x9e | 0xa1 | 0xa2))
                    || (!v5 && codes.iter().any(|x| !matches!(x, 0..=2 | 0x80)))
                {
                    return Err("bad SUBACK code".into());
                }
                Pkt::Suback { pid, codes }
            } else {
                if !v5 && !codes.is_empty() {
                    return Err("UNSUBACK with payload".into());
                }
                if codes.iter().any(|x| !matches!(x, 0 | 0x11 | 0x80 | 0x83 | 0x87 | 0x8f | 0x91)) {
                    return Err("bad UNSUBACK code".into());
                }
                Pkt::Unsuback { pid, codes }
            }
        }
        13 => Pkt::Pingresp,
        14 if v5 => {
            let mut code = 0;
            let mut props = Props::new();
            if !c.0.is_empty() {
                code = c.u8()?;
                if !c.0.is_empty() {
                    props = c.props(&[0x1f, 0x26, 0x1c])?;
                }
            }
            Pkt::Disconnect { code, props }
        }
        15 if v5 => {
            let mut code = 0;
            let mut props = Props::new();
            if !c.0.is_empty() {
                code = c.u8()?;
                if !c.0.is_empty() {
                    props = c.props(&[0x15, 0x16, 0x1f, 0x26])?;
                }
            }
            Pkt::Auth { code, props }
        }
        t => return Err(format!("broker sent packet type {t}")),
    };
    if !c.0.is_empty() {
        return Err(format!("{} bytes left over in packet type {typ}", c.0.len()));
    }
    Ok(p)
}
