//! MQTT 3.1 / 3.1.1.
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt};

use crate::common::*;
use crate::{
    Error, GenericPollPacket, GenericPollPacketState, Pid, PollHeader, Protocol, QoS, QosPid,
    TopicFilter, TopicName, VarBytes,
};

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}
impl Header {
    pub fn new(typ: PacketType, dup: bool, qos: QoS, retain: bool, remaining_len: u32) -> Self {
        let total_len = total_len(remaining_len as usize).unwrap_or(0) as u32;
        Header { typ, dup, qos, retain, remaining_len, total_len }
    }
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, Error> {
        use PacketType::*;
        let typ = match hd >> 4 {
            1 => Connect,
            2 => Connack,
            3 => Publish,
            4 => Puback,
            5 => Pubrec,
            6 => Pubrel,
            7 => Pubcomp,
            8 => Subscribe,
            9 => Suback,
            10 => Unsubscribe,
            11 => Unsuback,
            12 => Pingreq,
            13 => Pingresp,
            14 => Disconnect,
            _ => return Err(Error::InvalidHeader),
        };
        let (mut dup, mut qos, mut retain) = (false, QoS::Level0, false);
        match typ {
            Publish => {
                dup = hd & 8 != 0;
                qos = QoS::from_u8((hd >> 1) & 3)?;
                retain = hd & 1 != 0;
            }
            Pubrel | Subscribe | Unsubscribe if hd & 15 == 2 => {}
            Pubrel | Subscribe | Unsubscribe => return Err(Error::InvalidHeader),
            _ if hd & 15 == 0 => {}
            _ => return Err(Error::InvalidHeader),
        }
        Ok(Header { typ, dup, qos, retain, remaining_len, total_len })
    }
}
impl PollHeader for Header {
    type Error = Error;
    type Packet = Packet;
    fn new_with(control: u8, remaining_len: u32, total_len: u32) -> Result<Self, Error> {
        Header::new_with(control, remaining_len, total_len)
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn total_len(&self) -> usize {
        self.total_len as usize
    }
    fn decode_body(self, body: &[u8]) -> Result<Packet, Error> {
        use PacketType as T;
        let mut c = Cur { b: body };
        let c = &mut c;
        let p = match self.typ {
            T::Connect => {
                let name = c.string()?;
                let protocol = Protocol::new(&name, c.u8()?)?;
                if protocol == Protocol::V500 {
                    return Err(Error::UnexpectedProtocol(protocol));
                }
                Connect::decode_cur(c, protocol)?.into()
            }
            T::Connack => {
                let f = c.u8()?;
                if f > 1 {
                    return Err(Error::InvalidConnackFlags(f));
                }
                Connack { session_present: f == 1, code: ConnectReturnCode::from_u8(c.u8()?)? }.into()
            }
            T::Publish => {
                let topic_name = TopicName::try_from(c.string()?)?;
                let qos_pid = match self.qos {
                    QoS::Level0 => QosPid::Level0,
                    QoS::Level1 => QosPid::Level1(c.pid()?),
                    QoS::Level2 => QosPid::Level2(c.pid()?),
                };
                let payload = Bytes::copy_from_slice(c.take(c.b.len())?);
                Publish { dup: self.dup, qos_pid, retain: self.retain, topic_name, payload }.into()
            }
            T::Puback => Packet::Puback(c.pid()?),
            T::Pubrec => Packet::Pubrec(c.pid()?),
            T::Pubrel => Packet::Pubrel(c.pid()?),
            T::Pubcomp => Packet::Pubcomp(c.pid()?),
            T::Subscribe => {
                let pid = c.pid()?;
                let mut topics = Vec::new();
                while !c.b.is_empty() {
                    let f = TopicFilter::try_from(&*c.string()?)?;
                    topics.push((f, QoS::from_u8(c.u8()?)?));
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription);
                }
                Subscribe { pid, topics }.into()
            }
            T::Suback => {
                let pid = c.pid()?;
                let topics = c
                    .take(c.b.len())?
                    .iter()
                    .map(|b| SubscribeReturnCode::from_u8(*b))
                    .collect::<Result<Vec<_>, _>>()?;
                Suback { pid, topics }.into()
            }
            T::Unsubscribe => {
                let pid = c.pid()?;
                let mut topics = Vec::new();
                while !c.b.is_empty() {
                    topics.push(TopicFilter::try_from(&*c.string()?)?);
                }
                if topics.is_empty() {
                    return Err(Error::EmptySubscription);
                }
                Unsubscribe { pid, topics }.into()
            }
            T::Unsuback => Packet::Unsuback(c.pid()?),
            T::Pingreq => Packet::Pingreq,
            T::Pingresp => Packet::Pingresp,
            T::Disconnect => Packet::Disconnect,
        };
        c.end()?;
        Ok(p)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub message: Bytes,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, message: Bytes) -> Self {
        LastWill { qos, retain: false, topic_name, message }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_session: bool,
    pub keep_alive: u16,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
pub(crate) struct ConnectFlags {
    pub clean: bool,
    pub will: Option<(QoS, bool)>,
    pub username: bool,
    pub password: bool,
}
impl ConnectFlags {
    pub fn parse(f: u8) -> Result<Self, Error> {
        if f & 1 != 0 {
            return Err(Error::InvalidConnectFlags(f));
        }
        let will = if f & 4 != 0 {
            Some((QoS::from_u8((f >> 3) & 3)?, f & 0x20 != 0))
        } else if f & 0x38 != 0 {
            return Err(Error::InvalidConnectFlags(f));
        } else {
            None
        };
        Ok(ConnectFlags { clean: f & 2 != 0, will, username: f & 0x80 != 0, password: f & 0x40 != 0 })
    }
    pub fn byte(&self) -> u8 {
        let mut f = 0;
        if self.clean {
            f |= 2;
        }
        if let Some((q, r)) = self.will {
            f |= 4 | ((q as u8) << 3);
            if r {
                f |= 0x20;
            }
        }
        if self.username {
            f |= 0x80;
        }
        if self.password {
            f |= 0x40;
        }
        f
    }
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V311,
            clean_session: true,
            keep_alive,
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    fn decode_cur(c: &mut Cur<'_>, protocol: Protocol) -> Result<Self, Error> {
        let flags = ConnectFlags::parse(c.u8()?)?;
        let keep_alive = c.u16()?;
        let client_id = c.string()?;
        let last_will = match flags.will {
            Some((qos, retain)) => Some(LastWill {
                qos,
                retain,
                topic_name: TopicName::try_from(c.string()?)?,
                message: c.bytes()?,
            }),
            None => None,
        };
        let username = if flags.username { Some(c.string()?) } else { None };
        let password = if flags.password { Some(c.bytes()?) } else { None };
        Ok(Connect { protocol, clean_session: flags.clean, keep_alive, client_id, last_will, username, password })
    }
    /// Reads the packet after the protocol name and level.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(r: &mut T, protocol: Protocol) -> Result<Self, Error> {
        if protocol == Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol));
        }
        let flags = ConnectFlags::parse(read_u8_async(r).await?)?;
        let keep_alive = read_u16_async(r).await?;
        let client_id = read_string_async(r).await?;
        let last_will = match flags.will {
            Some((qos, retain)) => Some(LastWill {
                qos,
                retain,
                topic_name: TopicName::try_from(read_string_async(r).await?)?,
                message: Bytes::from(read_bytes_async(r).await?),
            }),
            None => None,
        };
        let username = if flags.username { Some(read_string_async(r).await?) } else { None };
        let password = if flags.password { Some(Bytes::from(read_bytes_async(r).await?)) } else { None };
        Ok(Connect { protocol, clean_session: flags.clean, keep_alive, client_id, last_will, username, password })
    }
}
impl Encodable for Connect {
    fn encode(&self, w: &mut Vec<u8>) {
        let (name, level) = self.protocol.to_pair();
        put_bytes(w, name.as_bytes());
        w.push(level);
        w.push(
            ConnectFlags {
                clean: self.clean_session,
                will: self.last_will.as_ref().map(|l| (l.qos, l.retain)),
                username: self.username.is_some(),
                password: self.password.is_some(),
            }
            .byte(),
        );
        put_u16(w, self.keep_alive);
        put_bytes(w, self.client_id.as_bytes());
        if let Some(l) = &self.last_will {
            put_bytes(w, l.topic_name.as_bytes());
            put_bytes(w, &l.message);
        }
        if let Some(u) = &self.username {
            put_bytes(w, u.as_bytes());
        }
        if let Some(p) = &self.password {
            put_bytes(w, p);
        }
    }
    fn encode_len(&self) -> usize {
        let mut w = Vec::new();
        self.encode(&mut w);
        w.len()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum ConnectReturnCode {
    Accepted,
    UnacceptableProtocolVersion,
    IdentifierRejected,
    ServerUnavailable,
    BadUserNameOrPassword,
    NotAuthorized,
}
impl ConnectReturnCode {
    pub fn from_u8(b: u8) -> Result<Self, Error> {
        use ConnectReturnCode::*;
        Ok(match b {
            0 => Accepted,
            1 => UnacceptableProtocolVersion,
            2 => IdentifierRejected,
            3 => ServerUnavailable,
            4 => BadUserNameOrPassword,
            5 => NotAuthorized,
            _ => return Err(Error::InvalidConnectReturnCode(b)),
        })
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub code: ConnectReturnCode,
}
impl Connack {
    pub fn new(session_present: bool, code: ConnectReturnCode) -> Self {
        Connack { session_present, code }
    }
}

#[derive(Debug, Clone, Eq)]
pub struct Publish {
    pub dup: bool,
    pub qos_pid: QosPid,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
}
impl PartialEq for Publish {
    fn eq(&self, o: &Self) -> bool {
        self.dup == o.dup
            && self.qos_pid == o.qos_pid
            && self.retain == o.retain
            && self.topic_name == o.topic_name
            && self.payload == o.payload
    }
}
impl Hash for Publish {
    // the DUP flag is not part of a message's identity
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.qos_pid.hash(h);
        self.retain.hash(h);
        self.topic_name.hash(h);
        self.payload.hash(h);
    }
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Self {
        Publish { dup: false, qos_pid, retain: false, topic_name, payload }
    }
}
impl Encodable for Publish {
    fn encode(&self, w: &mut Vec<u8>) {
        put_bytes(w, self.topic_name.as_bytes());
        if let Some(p) = self.qos_pid.pid() {
            put_u16(w, p.value());
        }
        w.extend_from_slice(&self.payload);
    }
    fn encode_len(&self) -> usize {
        2 + self.topic_name.len() + if self.qos_pid.pid().is_some() { 2 } else { 0 } + self.payload.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub topics: Vec<(TopicFilter, QoS)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, QoS)>) -> Self {
        Subscribe { pid, topics }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SubscribeReturnCode {
    MaxLevel0,
    MaxLevel1,
    MaxLevel2,
    Failure,
}
impl SubscribeReturnCode {
    pub fn from_u8(b: u8) -> Result<Self, Error> {
        Ok(match b {
            0 => Self::MaxLevel0,
            1 => Self::MaxLevel1,
            2 => Self::MaxLevel2,
            0x80 => Self::Failure,
            _ => return Err(Error::InvalidQos(b)),
        })
    }
    fn byte(self) -> u8 {
        match self {
            Self::MaxLevel0 => 0,
            Self::MaxLevel1 => 1,
            Self::MaxLevel2 => 2,
            Self::Failure => 0x80,
        }
    }
}
impl From<QoS> for SubscribeReturnCode {
    fn from(q: QoS) -> Self {
        match q {
            QoS::Level0 => Self::MaxLevel0,
            QoS::Level1 => Self::MaxLevel1,
            QoS::Level2 => Self::MaxLevel2,
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub topics: Vec<SubscribeReturnCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReturnCode>) -> Self {
        Suback { pid, topics }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe { pid, topics }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Pid),
    Pubrec(Pid),
    Pubrel(Pid),
    Pubcomp(Pid),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Pid),
    Pingreq,
    Pingresp,
    Disconnect,
}
macro_rules! from_inner {
    ($($t:ident),*) => { $(impl From<$t> for Packet { fn from(p: $t) -> Packet { Packet::$t(p) } })* };
}
from_inner!(Connect, Connack, Publish, Subscribe, Suback, Unsubscribe);

impl Packet {
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect => PacketType::Disconnect,
        }
    }
    fn raw(&self) -> (u8, Vec<u8>) {
        let mut w = Vec::new();
        let pid = |c: u8, p: &Pid| (c, p.value().to_be_bytes().to_vec());
        match self {
            Packet::Connect(c) => {
                c.encode(&mut w);
                (0x10, w)
            }
            Packet::Connack(c) => (0x20, vec![c.session_present as u8, c.code as u8]),
            Packet::Publish(p) => {
                p.encode(&mut w);
                (0x30 | (p.dup as u8) << 3 | (p.qos_pid.qos() as u8) << 1 | p.retain as u8, w)
            }
            Packet::Puback(p) => pid(0x40, p),
            Packet::Pubrec(p) => pid(0x50, p),
            Packet::Pubrel(p) => pid(0x62, p),
            Packet::Pubcomp(p) => pid(0x70, p),
            Packet::Subscribe(s) => {
                put_u16(&mut w, s.pid.value());
                for (f, q) in &s.topics {
                    put_bytes(&mut w, f.as_bytes());
                    w.push(*q as u8);
                }
                (0x82, w)
            }
            Packet::Suback(s) => {
                put_u16(&mut w, s.pid.value());
                w.extend(s.topics.iter().map(|t| t.byte()));
                (0x90, w)
            }
            Packet::Unsubscribe(s) => {
                put_u16(&mut w, s.pid.value());
                for f in &s.topics {
                    put_bytes(&mut w, f.as_bytes());
                }
                (0xa2, w)
            }
            Packet::Unsuback(p) => pid(0xb0, p),
            Packet::Pingreq => (0xc0, w),
            Packet::Pingresp => (0xd0, w),
            Packet::Disconnect => (0xe0, w),
        }
    }
    pub fn encode(&self) -> Result<VarBytes, Error> {
        let (c, b) = self.raw();
        let v = frame(c, &b)?;
        Ok(match v.len() {
            2 => VarBytes::Fixed2([v[0], v[1]]),
            4 => VarBytes::Fixed4([v[0], v[1], v[2], v[3]]),
            _ => VarBytes::Dynamic(v),
        })
    }
    pub fn encode_len(&self) -> Result<usize, Error> {
        total_len(self.raw().1.len())
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, w: &mut T) -> Result<(), Error> {
        let data = self.encode()?;
        w.write_all(data.as_ref()).await?;
        Ok(())
    }
    /// `Ok(None)`: more bytes are needed.
    pub fn decode(bytes: &[u8]) -> Result<Option<Packet>, Error> {
        match crate::common::split_frame(bytes)? {
            None => Ok(None),
            Some((c, body, total)) => Header::new_with(c, body.len() as u32, total as u32)?.decode_body(body).map(Some),
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<Packet, Error> {
        let (c, rem, total) = decode_raw_header_async(r).await?;
        let h = Header::new_with(c, rem, total as u32)?;
        let mut body = vec![0u8; rem as usize];
        read_exact_async(r, &mut body).await?;
        h.decode_body(&body)
    }
}
