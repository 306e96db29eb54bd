use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::{Add, AddAssign, Deref, Sub, SubAssign};
use std::sync::Arc;

use crate::common::read_string_async;
use crate::Error;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Protocol {
    V310 = 3,
    V311 = 4,
    V500 = 5,
}
impl Protocol {
    pub fn new(name: &str, level: u8) -> Result<Self, Error> {
        match (name, level) {
            ("MQIsdp", 3) => Ok(Protocol::V310),
            ("MQTT", 4) => Ok(Protocol::V311),
            ("MQTT", 5) => Ok(Protocol::V500),
            _ => Err(Error::InvalidProtocol(name.to_owned(), level)),
        }
    }
    pub fn to_pair(self) -> (&'static str, u8) {
        match self {
            Protocol::V310 => ("MQIsdp", 3),
            Protocol::V311 => ("MQTT", 4),
            Protocol::V500 => ("MQTT", 5),
        }
    }
    #[cfg(feature = "tokio")]
    pub async fn decode_async<T: tokio::io::AsyncRead + Unpin>(r: &mut T) -> Result<Self, Error> {
        let name = read_string_async(r).await?;
        let level = crate::common::read_u8_async(r).await?;
        Protocol::new(&name, level)
    }
}
impl fmt::Display for Protocol {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Protocol::V310 => "v3.1",
            Protocol::V311 => "v3.1.1",
            Protocol::V500 => "v5.0",
        })
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum QoS {
    Level0 = 0,
    Level1 = 1,
    Level2 = 2,
}
impl QoS {
    pub fn from_u8(v: u8) -> Result<Self, Error> {
        match v {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            2 => Ok(QoS::Level2),
            _ => Err(Error::InvalidQos(v)),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum QosPid {
    Level0,
    Level1(Pid),
    Level2(Pid),
}
impl QosPid {
    pub fn pid(self) -> Option<Pid> {
        match self {
            QosPid::Level0 => None,
            QosPid::Level1(p) | QosPid::Level2(p) => Some(p),
        }
    }
    pub fn qos(self) -> QoS {
        match self {
            QosPid::Level0 => QoS::Level0,
            QosPid::Level1(_) => QoS::Level1,
            QosPid::Level2(_) => QoS::Level2,
        }
    }
}

/// Packet identifier, never 0; arithmetic wraps around and skips 0.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pid(u16);
impl Pid {
    pub fn value(self) -> u16 {
        self.0
    }
}
impl Default for Pid {
    fn default() -> Self {
        Pid(1)
    }
}
impl TryFrom<u16> for Pid {
    type Error = Error;
    fn try_from(v: u16) -> Result<Self, Error> {
        if v == 0 {
            Err(Error::ZeroPid)
        } else {
            Ok(Pid(v))
        }
    }
}
impl Add<u16> for Pid {
    type Output = Pid;
    fn add(self, u: u16) -> Pid {
        let n = match self.0.overflowing_add(u) {
            (n, false) => n,
            (n, true) => n.wrapping_add(1),
        };
        Pid(if n == 0 { 1 } else { n })
    }
}
impl AddAssign<u16> for Pid {
    fn add_assign(&mut self, u: u16) {
        *self = *self + u;
    }
}
impl Sub<u16> for Pid {
    type Output = Pid;
    fn sub(self, u: u16) -> Pid {
        let n = match self.0.overflowing_sub(u) {
            (0, _) => u16::MAX,
            (n, false) => n,
            (n, true) => n.wrapping_sub(1),
        };
        Pid(if n == 0 { u16::MAX } else { n })
    }
}
impl SubAssign<u16> for Pid {
    fn sub_assign(&mut self, u: u16) {
        *self = *self - u;
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TopicName(Arc<str>);
impl TopicName {
    pub fn is_invalid(v: &str) -> bool {
        v.len() > u16::MAX as usize || v.contains(['+', '#', '\0'])
    }
    pub fn is_shared(&self) -> bool {
        self.0.starts_with(crate::SHARED_PREFIX)
    }
    pub fn is_sys(&self) -> bool {
        self.0.starts_with(crate::SYS_PREFIX)
    }
}
impl Deref for TopicName {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for TopicName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl TryFrom<&str> for TopicName {
    type Error = Error;
    fn try_from(v: &str) -> Result<Self, Error> {
        if TopicName::is_invalid(v) {
            Err(Error::InvalidTopicName(v.to_owned()))
        } else {
            Ok(TopicName(Arc::from(v)))
        }
    }
}
impl TryFrom<String> for TopicName {
    type Error = Error;
    fn try_from(v: String) -> Result<Self, Error> {
        TopicName::try_from(v.as_str())
    }
}
impl TryFrom<Arc<str>> for TopicName {
    type Error = Error;
    fn try_from(v: Arc<str>) -> Result<Self, Error> {
        TopicName::try_from(&*v)
    }
}

#[derive(Debug, Clone)]
pub struct TopicFilter {
    inner: Arc<str>,
    // byte index of the separator after the group name (0: not shared)
    shared_filter_sep: u16,
}
impl PartialEq for TopicFilter {
    fn eq(&self, o: &Self) -> bool {
        self.inner == o.inner
    }
}
impl Eq for TopicFilter {}
impl PartialOrd for TopicFilter {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TopicFilter {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.inner.cmp(&o.inner)
    }
}
impl Hash for TopicFilter {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.inner.hash(h)
    }
}
impl TopicFilter {
    fn check_plain(v: &str) -> bool {
        if v.is_empty() || v.contains('\0') {
            return false;
        }
        let levels: Vec<&str> = v.split('/').collect();
        let last = levels.len() - 1;
        levels.iter().enumerate().all(|(i, l)| match *l {
            "+" => true,
            "#" => i == last,
            l => !l.contains(['+', '#']),
        })
    }
    pub fn is_shared(&self) -> bool {
        self.shared_filter_sep > 0
    }
    pub fn is_sys(&self) -> bool {
        self.inner.starts_with(crate::SYS_PREFIX)
    }
    pub fn shared_group_name(&self) -> Option<&str> {
        self.shared_info().map(|i| i.0)
    }
    pub fn shared_filter(&self) -> Option<&str> {
        self.shared_info().map(|i| i.1)
    }
    pub fn shared_info(&self) -> Option<(&str, &str)> {
        if self.shared_filter_sep == 0 {
            None
        } else {
            let sep = self.shared_filter_sep as usize;
            Some((&self.inner[7..sep], &self.inner[sep + 1..]))
        }
    }
}
impl Deref for TopicFilter {
    type Target = str;
    fn deref(&self) -> &str {
        &self.inner
    }
}
impl fmt::Display for TopicFilter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.inner)
    }
}
impl TryFrom<&str> for TopicFilter {
    type Error = Error;
    fn try_from(v: &str) -> Result<Self, Error> {
        let bad = || Err(Error::InvalidTopicFilter(v.to_owned()));
        if v.len() > u16::MAX as usize {
            return bad();
        }
        let mut sep = 0;
        if let Some(rest) = v.strip_prefix(crate::SHARED_PREFIX) {
            let Some((group, filter)) = rest.split_once('/') else { return bad() };
            if group.is_empty() || group.contains(['+', '#']) || !TopicFilter::check_plain(filter) {
                return bad();
            }
            sep = 7 + group.len();
        } else if !TopicFilter::check_plain(v) {
            return bad();
        }
        Ok(TopicFilter { inner: Arc::from(v), shared_filter_sep: sep as u16 })
    }
}
impl TryFrom<String> for TopicFilter {
    type Error = Error;
    fn try_from(v: String) -> Result<Self, Error> {
        TopicFilter::try_from(v.as_str())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum VarBytes {
    Dynamic(Vec<u8>),
    Fixed2([u8; 2]),
    Fixed4([u8; 4]),
}
impl AsRef<[u8]> for VarBytes {
    fn as_ref(&self) -> &[u8] {
        match self {
            VarBytes::Dynamic(v) => v,
            VarBytes::Fixed2(v) => v,
            VarBytes::Fixed4(v) => v,
        }
    }
}
impl VarBytes {
    pub fn as_slice(&self) -> &[u8] {
        self.as_ref()
    }
}
