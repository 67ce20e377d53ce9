//! TLS 1.2 messages as bytes, from RFC 5246 and 8446; independent of tls-core.

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(mut self, x: u8) -> Self {
        self.0.push(x);
        self
    }
    pub fn u16(mut self, x: u16) -> Self {
        self.0.extend(x.to_be_bytes());
        self
    }
    pub fn raw(mut self, b: &[u8]) -> Self {
        self.0.extend(b);
        self
    }
    /// Vector with a length of `n` bytes.
    pub fn vec(mut self, n: usize, b: &[u8]) -> Self {
        self.0.extend(&(b.len() as u64).to_be_bytes()[8 - n..]);
        self.0.extend(b);
        self
    }
}
pub fn w() -> W {
    W::default()
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn vec(&mut self, n: usize) -> Option<&'a [u8]> {
        let l = self.take(n)?.iter().fold(0usize, |a, b| a << 8 | *b as usize);
        self.take(l)
    }
    pub fn u16s(b: &[u8]) -> Option<Vec<u16>> {
        (b.len() % 2 == 0).then(|| b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect())
    }
}

pub fn hs(typ: u8, body: &[u8]) -> Vec<u8> {
    w().u8(typ).vec(3, body).0
}

/// A record: type, version, payload.
#[derive(Debug, Clone, PartialEq)]
pub struct Rec(pub u8, pub u16, pub Vec<u8>);

impl Rec {
    pub fn bytes(&self) -> Vec<u8> {
        w().u8(self.0).u16(self.1).vec(2, &self.2).0
    }
}

/// Takes the complete records off the front.
pub fn records(buf: &mut Vec<u8>) -> Vec<Rec> {
    let mut out = vec![];
    let mut at = 0;
    while buf.len() - at >= 5 {
        let n = u16::from_be_bytes([buf[at + 3], buf[at + 4]]) as usize;
        if buf.len() - at < 5 + n {
            break;
        }
        out.push(Rec(buf[at], u16::from_be_bytes([buf[at + 1], buf[at + 2]]), buf[at + 5..at + 5 + n].to_vec()));
        at += 5 + n;
    }
    buf.drain(..at);
    out
}

#[derive(Debug, Clone)]
pub struct Hello {
    pub version: u16,
    pub random: Vec<u8>,
    pub session: Vec<u8>,
    pub suites: Vec<u16>,
    pub comps: Vec<u8>,
    pub exts: Vec<(u16, Vec<u8>)>,
}

impl Hello {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut r = Rd(b);
        let version = r.u16()?;
        let random = r.take(32)?.to_vec();
        let session = r.vec(1)?.to_vec();
        let suites = Rd::u16s(r.vec(2)?)?;
        let comps = r.vec(1)?.to_vec();
        let mut exts = vec![];
        let mut e = Rd(r.vec(2)?);
        while !e.0.is_empty() {
            exts.push((e.u16()?, e.vec(2)?.to_vec()));
        }
        r.0.is_empty().then_some(Self { version, random, session, suites, comps, exts })
    }
    pub fn ext(&self, t: u16) -> Option<&[u8]> {
        self.exts.iter().find(|e| e.0 == t).map(|e| &e.1[..])
    }
}
