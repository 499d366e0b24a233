//! Reads the recorded traffic of a connection.

use crate::net::{KeySetup, T};
use tokio::sim::net as sn;

/// Plain text of both directions, or None when it cannot be told.
pub fn plaintext(conn: usize, t: T, keys: &KeySetup, client: usize) -> Option<[Vec<u8>; 2]> {
    let raw = [sn::tap(conn, 0), sn::tap(conn, 1)];
    match t {
        t if !t.encrypted() => Some(raw),
        #[cfg(feature = "full")]
        _ => {
            let d = decrypt(&raw, keys, client)?;
            Some(d.plain)
        }
        #[cfg(not(feature = "full"))]
        _ => {
            let _ = (keys, client);
            None
        }
    }
}

#[cfg(feature = "full")]
pub struct Decrypted {
    pub plain: [Vec<u8>; 2],
    pub session_key: [u8; 32],
    pub packages: [Vec<Vec<u8>>; 2],
}

#[cfg(feature = "full")]
pub fn nonce(n: u64) -> [u8; 12] {
    let b = n.to_be_bytes();
    let mut o = [0u8; 12];
    o[..8].copy_from_slice(&b);
    o[8..].copy_from_slice(&b[..4]);
    o
}

#[cfg(feature = "full")]
pub fn packages(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut p = 0;
    while b.len() - p >= 4 {
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        if b.len() - p - 4 < n {
            break;
        }
        out.push(b[p + 4..p + 4 + n].to_vec());
        p += 4 + n;
    }
    out
}

/// Decrypts with the secrets of both ends, which the harness knows.
#[cfg(feature = "full")]
pub fn decrypt(raw: &[Vec<u8>; 2], keys: &KeySetup, client: usize) -> Option<Decrypted> {
    use chacha20poly1305::{aead::Aead, ChaCha20Poly1305, KeyInit, Nonce};
    if raw[0].len() < 32 || raw[1].len() < 32 {
        return None;
    }
    let shared = keys.secret(0).diffie_hellman(&keys.public(client));
    let hs = ChaCha20Poly1305::new(shared.as_bytes().into());
    let p1 = packages(&raw[1][32..]);
    let p0 = packages(&raw[0][32..]);
    let key = hs.decrypt(Nonce::from_slice(&nonce(0)), &p1.first()?[..]).ok()?;
    let session_key: [u8; 32] = key.clone().try_into().ok()?;
    let c = ChaCha20Poly1305::new(key[..].into());
    let mut plain = [vec![], vec![]];
    for (dir, list) in [(0, &p0[..]), (1, &p1[1..])] {
        for (i, p) in list.iter().enumerate() {
            plain[dir].extend(c.decrypt(Nonce::from_slice(&nonce(i as u64)), &p[..]).ok()?);
        }
    }
    let packages = [p0, p1[1..].to_vec()];
    Some(Decrypted { plain, session_key, packages })
}
