//! The specified binary layout, implemented independently of the code under test.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub id: u64,
    pub ty: u8,
    pub ref_id: Option<u64>,
    pub ns: Option<String>,
    pub name: String,
    pub data: Vec<u8>,
    /// version bytes
    pub ver: [u8; 3],
    /// bytes after the known header fields
    pub ext: Vec<u8>,
}

pub const INIT: u8 = 0;
pub const RESP: u8 = 1;
pub const END: u8 = 2;
pub const ERR: u8 = 3;

impl Frame {
    pub fn new(id: u64, ty: u8, ref_id: Option<u64>, ns: Option<&str>, name: &str, data: Vec<u8>) -> Frame {
        Frame {
            id,
            ty,
            ref_id,
            ns: ns.map(|s| s.to_string()),
            name: name.to_string(),
            data,
            ver: [0, 9, 0],
            ext: vec![],
        }
    }

    pub fn header(&self) -> Vec<u8> {
        let mut h = vec![];
        h.extend_from_slice(&self.ver);
        h.extend_from_slice(&self.id.to_be_bytes());
        h.push(self.ty);
        match self.ref_id {
            Some(r) => {
                h.push(0xff);
                h.extend_from_slice(&r.to_be_bytes());
            }
            None => h.push(0),
        }
        let ns = self.ns.as_deref().unwrap_or("");
        h.extend_from_slice(&(ns.len() as u16).to_be_bytes());
        h.extend_from_slice(ns.as_bytes());
        h.extend_from_slice(&(self.name.len() as u16).to_be_bytes());
        h.extend_from_slice(self.name.as_bytes());
        h.extend_from_slice(&self.ext);
        h
    }

    pub fn encode(&self) -> Vec<u8> {
        let h = self.header();
        let mut out = vec![];
        out.extend_from_slice(&((h.len() + self.data.len()) as u64).to_be_bytes());
        out.extend_from_slice(&(h.len() as u16).to_be_bytes());
        out.extend_from_slice(&h);
        out.extend_from_slice(&self.data);
        out
    }
}

fn u16be(b: &[u8]) -> usize {
    u16::from_be_bytes([b[0], b[1]]) as usize
}
fn u64be(b: &[u8]) -> u64 {
    u64::from_be_bytes(b[..8].try_into().unwrap())
}

pub fn parse_header(h: &[u8]) -> Result<Frame, String> {
    let mut p = 0usize;
    let mut take = |n: usize| -> Result<&[u8], String> {
        if p + n > h.len() {
            return Err(format!("header too short ({} bytes)", h.len()));
        }
        p += n;
        Ok(&h[p - n..p])
    };
    let v = take(3)?;
    let ver = [v[0], v[1], v[2]];
    let id = u64be(take(8)?);
    let ty = take(1)?[0];
    if ty > 3 {
        return Err(format!("event type {}", ty));
    }
    let ref_id = match take(1)?[0] {
        0 => None,
        0xff => Some(u64be(take(8)?)),
        x => return Err(format!("reference flag {}", x)),
    };
    let n = u16be(take(2)?);
    let ns = std::str::from_utf8(take(n)?).map_err(|_| "namespace not UTF-8")?.to_string();
    let n = u16be(take(2)?);
    let name = std::str::from_utf8(take(n)?).map_err(|_| "name not UTF-8")?.to_string();
    let ext = h[p..].to_vec();
    Ok(Frame {
        id,
        ty,
        ref_id,
        ns: if ns.is_empty() { None } else { Some(ns) },
        name,
        data: vec![],
        ver,
        ext,
    })
}

/// Decodes all complete frames; returns them, the number of bytes consumed, and what is wrong.
pub fn decode_all(b: &[u8]) -> (Vec<Frame>, usize, Option<String>) {
    let mut out = vec![];
    let mut p = 0;
    loop {
        match decode_one(&b[p..]) {
            Ok(Some((f, n))) => {
                out.push(f);
                p += n;
            }
            Ok(None) => return (out, p, None),
            Err(e) => return (out, p, Some(e)),
        }
    }
}

pub fn decode_one(b: &[u8]) -> Result<Option<(Frame, usize)>, String> {
    if b.len() < 10 {
        return Ok(None);
    }
    let total = u64be(b);
    let hl = u16be(&b[8..]);
    if (total as u128) < hl as u128 {
        return Err(format!("total length {} below header length {}", total, hl));
    }
    if total > (1 << 31) {
        return Err(format!("total length {}", total));
    }
    let total = total as usize;
    if b.len() < 10 + hl {
        return Ok(None);
    }
    let mut f = parse_header(&b[10..10 + hl])?;
    if b.len() < 10 + total {
        return Ok(None);
    }
    f.data = b[10 + hl..10 + total].to_vec();
    Ok(Some((f, 10 + total)))
}

/// bromine's error payload
pub fn parse_error(d: &[u8]) -> Option<(u16, String)> {
    if d.len() < 6 {
        return None;
    }
    let code = u16be(d) as u16;
    let n = u32::from_be_bytes(d[2..6].try_into().unwrap()) as usize;
    if d.len() != 6 + n {
        return None;
    }
    Some((code, String::from_utf8(d[6..].to_vec()).ok()?))
}

pub fn error_payload(code: u16, msg: &str) -> Vec<u8> {
    let mut v = code.to_be_bytes().to_vec();
    v.extend_from_slice(&(msg.len() as u32).to_be_bytes());
    v.extend_from_slice(msg.as_bytes());
    v
}
