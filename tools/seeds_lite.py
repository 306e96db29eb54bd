SRV="akasa-core/src/protocols/scram/server.rs"; CLI="akasa-core/src/protocols/scram/client.rs"; PX="akasa-core/src/server/proxy.rs"
HELP='''
fn server(first: &str, pw: &str, s: &mut ScramServer) -> Result<String, String> {
    s.decode_client_first(first).map_err(|e| format!("{e:?}"))?;
    let salt = b"0123456789abcdef";
    let h = hash_password(pw, NonZeroU32::new(4096).unwrap(), salt);
    s.encode_server_first(h.to_vec(), salt, 4096, &mut rand::rng()).map_err(|e| format!("{e:?}"))
}
'''
PXH='''
use server::proxy::*;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncReadExt, ReadBuf};
/// Gives the bytes out in the given pieces, then end of file.
struct Pieces { v: std::collections::VecDeque<Vec<u8>>, taken: usize }
impl Pieces {
    fn new(b: &[u8], n: usize) -> Pieces { Pieces { v: b.chunks(n).map(|c| c.to_vec()).collect(), taken: 0 } }
}
impl AsyncRead for Pieces {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if let Some(mut c) = self.v.pop_front() {
            let n = c.len().min(buf.remaining());
            buf.put_slice(&c[..n]);
            self.taken += n;
            let rest = c.split_off(n);
            if !rest.is_empty() { self.v.push_front(rest); }
        }
        Poll::Ready(Ok(()))
    }
}
fn header(fam: u8, addr: &[u8], tlvs: &[u8]) -> Vec<u8> {
    let mut b = b"\\r\\n\\r\\n\\0\\r\\nQUIT\\n".to_vec();
    b.extend([0x21, fam]);
    b.extend(((addr.len() + tlvs.len()) as u16).to_be_bytes());
    b.extend(addr); b.extend(tlvs);
    b
}
fn run(p: &mut Pieces, tls: bool) -> io::Result<Option<Header>> {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(parse_header(p, tls))
}
'''
SEEDS=[
 dict(id="scram-nonce-prefix", property="C18", edits=[(SRV,"        if recv_nonce != nonce {","        if !nonce.starts_with(recv_nonce) {")],
  needs="a client-final whose nonce is cut short (a proper prefix of the combined nonce) while its proof is untouched",
  breaks="the server accepts a client-final message that was altered on the way",
  main=HELP+'''
fn main() {
    let mut c = ScramClient::new("user", "pw", None);
    let first = c.encode_client_first().unwrap();
    let mut s = ScramServer::new();
    let sf = server(&first, "pw", &mut s).unwrap();
    let fin = c.decode_server_first(&sf).unwrap();
    let (a, rest) = fin.split_once(",r=").unwrap();
    let (nonce, proof) = rest.split_once(",p=").unwrap();
    let cut = format!("{a},r={},p={proof}", &nonce[..nonce.len() - 5]);
    let r = s.decode_client_final(&cut);
    assert!(!matches!(r, Ok((AuthenticationStatus::Authenticated, _))), "accepted {cut}");
    println!("ok");
}
'''),
 dict(id="scram-proof-zip", property="C18", edits=[(SRV,"        if proof_bytes != client_proof {","        // compare without stopping at the first difference\n        let differs = proof_bytes\n            .iter()\n            .zip(client_proof.iter())\n            .fold(0u8, |acc, (a, b)| acc | (a ^ b));\n        if differs != 0 {")],
  needs="a client-final with an empty or shortened proof",
  breaks="a client that sends a short or empty proof is authenticated without the password",
  main=HELP+'''
fn main() {
    let first = "n,,n=user,r=abcdefgh";
    let mut s = ScramServer::new();
    let sf = server(first, "pw", &mut s).unwrap();
    let nonce = sf.split(',').next().unwrap()[2..].to_owned();
    let r = s.decode_client_final(&format!("c={},r={nonce},p=", B64.encode("n,,")));
    assert!(!matches!(r, Ok((AuthenticationStatus::Authenticated, _))), "empty proof accepted");
    println!("ok");
}
'''),
 dict(id="scram-client-sig-prefix", property="C18", edits=[(CLI,"if server_signature.as_ref() == received.as_slice() {","if server_signature.as_ref().starts_with(&received) {")],
  needs="a server-final whose signature is truncated to whole bytes (or empty)",
  breaks="the client accepts a server that does not know the password record",
  main=HELP+'''
fn main() {
    let mut c = ScramClient::new("user", "pw", None);
    let first = c.encode_client_first().unwrap();
    let mut s = ScramServer::new();
    let sf = server(&first, "pw", &mut s).unwrap();
    let fin = c.decode_server_first(&sf).unwrap();
    let (_, v) = s.decode_client_final(&fin).unwrap();
    let sig = B64.decode(&v[2..]).unwrap();
    assert!(c.decode_server_final(&format!("v={}", B64.encode(&sig[..12]))).is_err(), "truncated signature accepted");
    println!("ok");
}
'''),
 dict(id="scram-retry-after-failure", property="C18", edits=[(SRV,'''        let (gs2header_enc, recv_nonce, proof) = parse_client_final(client_final)?;
        if STANDARD''','''        let parsed = parse_client_final(client_final);
        if parsed.is_err() {
            *self = ScramServer::WaitingForClientFinal {
                hashed_password: hashed_password.clone(),
                nonce: nonce.clone(),
                gs2header: gs2header.clone(),
                client_first_bare: client_first_bare.clone(),
                server_first: server_first.clone(),
                authcid: authcid.clone(),
                authzid: authzid.clone(),
            };
        }
        let (gs2header_enc, recv_nonce, proof) = parsed?;
        if STANDARD''')],
  needs="a malformed client-final followed by the genuine one in the same exchange",
  breaks="an exchange in which an extra, corrupted message arrived still completes",
  main=HELP+'''
fn main() {
    let mut c = ScramClient::new("user", "pw", None);
    let first = c.encode_client_first().unwrap();
    let mut s = ScramServer::new();
    let sf = server(&first, "pw", &mut s).unwrap();
    let fin = c.decode_server_first(&sf).unwrap();
    assert!(s.decode_client_final(&fin[..fin.len() / 3]).is_err());
    let r = s.decode_client_final(&fin);
    assert!(!matches!(r, Ok((AuthenticationStatus::Authenticated, _))), "accepted after a failed attempt");
    println!("ok");
}
'''),
 dict(id="proxy-short-read", property="C19", edits=[(PX,'''    reader
        .read_exact(&mut buffer[16..16 + address_length])
        .await?;''','''    if reader.read(&mut buffer[16..16 + address_length]).await? == 0 {
        return Err(io::ErrorKind::UnexpectedEof.into());
    }''')],
  needs="the address block arriving in more than one segment",
  breaks="a header split inside the addresses is read as different addresses, or its rest as TLVs or MQTT data",
  main=PXH+'''
fn main() {
    let h = header(0x11, &[127, 0, 0, 1, 10, 0, 0, 2, 1, 2, 3, 4], &[]);
    let mut b = h.clone();
    b.extend([0u8; 64]);
    let mut whole = Pieces::new(&b, 1000);
    let want = run(&mut whole, false).unwrap();
    for n in [1, 3, 7, 20] {
        let mut p = Pieces::new(&b, n);
        assert_eq!(run(&mut p, false).unwrap(), want, "pieces of {n}");
        assert_eq!(p.taken, h.len(), "pieces of {n}");
    }
    println!("ok");
}
'''),
 dict(id="proxy-tlv-bound", property="C19", edits=[(PX,"        if rest_len < 3 + length {","        if rest_len < length {")],
  needs="a TLV that claims one to three bytes more than the header has left",
  breaks="the parser panics (slice out of range) instead of refusing the header",
  main=PXH+'''
fn main() {
    let a = [127, 0, 0, 1, 10, 0, 0, 2, 1, 2, 3, 4];
    for extra in 1..=3u8 {
        let mut t = vec![0x02, 0, 10 + extra];
        t.extend([b'x'; 10]);
        let h = header(0x11, &a, &t);
        assert!(run(&mut Pieces::new(&h, 1000), false).is_err());
    }
    println!("ok");
}
'''),
 dict(id="proxy-read-past", property="C19", edits=[(PX,'''    let tlv_bytes = &mut tlv_bytes_buf[0..remaining_len];
    reader.read_exact(tlv_bytes).await?;''','''    let mut filled = 0;
    while filled < remaining_len {
        let n = reader.read(&mut tlv_bytes_buf[filled..]).await?;
        if n == 0 {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        filled += n;
    }
    let tlv_bytes = &mut tlv_bytes_buf[0..remaining_len];''')],
  needs="TLVs followed by payload bytes that are already there when the header is read",
  breaks="the first bytes of the client's data are swallowed together with the header",
  main=PXH+'''
fn main() {
    let h = header(0x11, &[127, 0, 0, 1, 10, 0, 0, 2, 1, 2, 3, 4], &[0x30, 0, 1, 7]);
    let mut b = h.clone();
    b.extend(b"hello world");
    let mut p = Pieces::new(&b, 1000);
    run(&mut p, false).unwrap();
    assert_eq!(p.taken, h.len(), "read past the header");
    println!("ok");
}
'''),
]
