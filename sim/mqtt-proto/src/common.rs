use std::sync::Arc;

use bytes::Bytes;

use crate::{Error, IoErrorKind};

pub const MAX_VAR_INT: usize = 268_435_455;

/// Encodes the *body* (everything after the fixed header) of a packet.
pub trait Encodable {
    fn encode(&self, w: &mut Vec<u8>);
    fn encode_len(&self) -> usize;
}

pub fn header_len(remaining: usize) -> Result<usize, Error> {
    Ok(1 + match remaining {
        0..=127 => 1,
        128..=16383 => 2,
        16384..=2097151 => 3,
        2097152..=MAX_VAR_INT => 4,
        _ => return Err(Error::InvalidVarByteInt),
    })
}
pub fn total_len(remaining: usize) -> Result<usize, Error> {
    Ok(header_len(remaining)? + remaining)
}
pub(crate) fn var_int_len(v: usize) -> usize {
    header_len(v).map(|l| l - 1).unwrap_or(4)
}
pub(crate) fn put_var_int(w: &mut Vec<u8>, mut v: usize) {
    loop {
        let mut b = (v % 128) as u8;
        v /= 128;
        if v > 0 {
            b |= 0x80;
        }
        w.push(b);
        if v == 0 {
            break;
        }
    }
}
pub(crate) fn put_u16(w: &mut Vec<u8>, v: u16) {
    w.extend_from_slice(&v.to_be_bytes());
}
pub(crate) fn put_u32(w: &mut Vec<u8>, v: u32) {
    w.extend_from_slice(&v.to_be_bytes());
}
pub(crate) fn put_bytes(w: &mut Vec<u8>, v: &[u8]) {
    put_u16(w, v.len() as u16);
    w.extend_from_slice(v);
}
pub(crate) fn frame(control: u8, body: &[u8]) -> Result<Vec<u8>, Error> {
    let mut w = Vec::with_capacity(total_len(body.len())?);
    w.push(control);
    put_var_int(&mut w, body.len());
    w.extend_from_slice(body);
    Ok(w)
}

/// A cursor over a packet body.
pub(crate) struct Cur<'a> {
    pub b: &'a [u8],
}
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Error> {
        if self.b.len() < n {
            return Err(Error::InvalidRemainingLength);
        }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, Error> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, Error> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn u32(&mut self) -> Result<u32, Error> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn var_int(&mut self) -> Result<u32, Error> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(Error::InvalidVarByteInt)
    }
    pub fn bytes(&mut self) -> Result<Bytes, Error> {
        let n = self.u16()? as usize;
        Ok(Bytes::copy_from_slice(self.take(n)?))
    }
    pub fn string(&mut self) -> Result<Arc<str>, Error> {
        let n = self.u16()? as usize;
        utf8(self.take(n)?)
    }
    pub fn pid(&mut self) -> Result<crate::Pid, Error> {
        crate::Pid::try_from(self.u16()?)
    }
    pub fn end(&self) -> Result<(), Error> {
        if self.b.is_empty() {
            Ok(())
        } else {
            Err(Error::InvalidRemainingLength)
        }
    }
}
pub(crate) fn utf8(b: &[u8]) -> Result<Arc<str>, Error> {
    match std::str::from_utf8(b) {
        Ok(s) if !s.contains('\0') => Ok(Arc::from(s)),
        _ => Err(Error::InvalidString),
    }
}

/// Splits the first whole packet off: (control byte, body, total length).
pub fn split_frame(b: &[u8]) -> Result<Option<(u8, &[u8], usize)>, Error> {
    let mut v = 0usize;
    for i in 0..4 {
        let Some(x) = b.get(1 + i) else { return Ok(None) };
        v |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            let start = 2 + i;
            return Ok(match b.get(start..start + v) {
                Some(body) => Some((b[0], body, start + v)),
                None => None,
            });
        }
    }
    Err(Error::InvalidVarByteInt)
}

pub(crate) use stream::*;
pub use stream::decode_raw_header_async;

mod stream {
    use super::*;
    use tokio::io::{AsyncRead, AsyncReadExt};

    pub(crate) async fn read_u8_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<u8, Error> {
        let mut b = [0u8; 1];
        read_exact_async(r, &mut b).await?;
        Ok(b[0])
    }
    pub(crate) async fn read_u16_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<u16, Error> {
        let mut b = [0u8; 2];
        read_exact_async(r, &mut b).await?;
        Ok(u16::from_be_bytes(b))
    }
    pub(crate) async fn read_exact_async<T: AsyncRead + Unpin>(r: &mut T, b: &mut [u8]) -> Result<(), Error> {
        r.read_exact(b).await.map_err(|e| Error::IoError(IoErrorKind::from(e.kind())))?;
        Ok(())
    }
    pub(crate) async fn read_bytes_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<Vec<u8>, Error> {
        let n = read_u16_async(r).await? as usize;
        let mut v = vec![0u8; n];
        read_exact_async(r, &mut v).await?;
        Ok(v)
    }
    pub(crate) async fn read_string_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<Arc<str>, Error> {
        utf8(&read_bytes_async(r).await?)
    }
    pub(crate) async fn read_var_int_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<(u32, usize), Error> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = read_u8_async(r).await?;
            v |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                return Ok((v, i + 1));
            }
        }
        Err(Error::InvalidVarByteInt)
    }
    /// (control byte, remaining length, total length)
    pub async fn decode_raw_header_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<(u8, u32, usize), Error> {
        let typ = read_u8_async(r).await?;
        let (rem, n) = read_var_int_async(r).await?;
        Ok((typ, rem, 1 + n + rem as usize))
    }
}
