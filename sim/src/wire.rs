//! Reference DNS codec, written from RFC 1035/2782/3596/6762 and independent of the code under test.
//! Oracles and scripted peers use only this.

use std::fmt::Write;

pub type Name = Vec<Vec<u8>>;

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const SOA: u16 = 6;
pub const PTR: u16 = 12;
pub const MX: u16 = 15;
pub const TXT: u16 = 16;
pub const AAAA: u16 = 28;
pub const SRV: u16 = 33;
pub const ANY: u16 = 255;

pub const F_QR: u16 = 0x8000;
pub const F_AA: u16 = 0x0400;
pub const F_TC: u16 = 0x0200;
pub const F_RD: u16 = 0x0100;
pub const F_RA: u16 = 0x0080;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Data {
    A([u8; 4]),
    Aaaa([u8; 16]),
    Cname(Name),
    Ns(Name),
    Ptr(Name),
    Mx(u16, Name),
    Txt(Vec<Vec<u8>>),
    Srv(u16, u16, u16, Name),
    Soa(Name, Name, [u32; 5]),
    /// A type this library does not interpret.
    Other(Vec<u8>),
    /// A known type whose data does not decode.
    Bad,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Q {
    pub name: Name,
    pub qtype: u16,
    /// As on the wire, including the top bit.
    pub qclass: u16,
    pub soft: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rr {
    pub name: Name,
    pub ty: u16,
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub raw: Vec<u8>,
    pub data: Data,
    /// Data decoded but did not fill its length, or uses an encoding readers may disagree on.
    pub inexact: bool,
    pub soft: bool,
    pub end: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub id: u16,
    pub flags: u16,
    pub counts: [u16; 4],
    pub qs: Vec<Q>,
    pub secs: [Vec<Rr>; 3],
    /// Section (0 = questions .. 3 = additional) in which decoding failed.
    pub err: Option<usize>,
    pub end: usize,
    pub len: usize,
}

impl Msg {
    pub fn qr(&self) -> bool {
        self.flags & F_QR != 0
    }
    pub fn opcode(&self) -> u16 {
        self.flags >> 11 & 15
    }
    pub fn rcode(&self) -> u16 {
        self.flags & 15
    }
    pub fn tc(&self) -> bool {
        self.flags & F_TC != 0
    }
    /// Decodes to its end, nothing doubtful in it, nothing after it.
    pub fn clean(&self) -> bool {
        self.err.is_none()
            && self.end == self.len
            && !self.qs.iter().any(|q| q.soft)
            && !self.secs.iter().flatten().any(|r| r.soft || r.inexact || r.data == Data::Bad)
    }
}

struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}

type R<T> = Result<T, ()>;

impl<'a> Rd<'a> {
    fn u8(&mut self) -> R<u8> {
        let v = *self.b.get(self.p).ok_or(())?;
        self.p += 1;
        Ok(v)
    }
    fn u16(&mut self) -> R<u16> {
        Ok((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn u32(&mut self) -> R<u32> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        let s = self.b.get(self.p..self.p + n).ok_or(())?;
        self.p += n;
        Ok(s)
    }
    /// Reads a name; pointers must lead to before everything of this name read so far.
    fn name(&mut self, soft: &mut bool) -> R<Name> {
        let mut out = Name::new();
        let mut total = 1;
        let mut limit = self.p;
        let mut p = self.p;
        let mut end = None;
        loop {
            let l = *self.b.get(p).ok_or(())? as usize;
            match l >> 6 {
                0 => {
                    p += 1;
                    if l == 0 {
                        break;
                    }
                    out.push(self.b.get(p..p + l).ok_or(())?.to_vec());
                    p += l;
                    total += l + 1;
                }
                3 => {
                    let lo = *self.b.get(p + 1).ok_or(())? as usize;
                    let ptr = (l & 0x3f) << 8 | lo;
                    if ptr >= limit {
                        return Err(());
                    }
                    if ptr < 12 {
                        *soft = true;
                    }
                    end.get_or_insert(p + 2);
                    limit = ptr;
                    p = ptr;
                }
                _ => return Err(()),
            }
        }
        if total > 255 {
            *soft = true;
        }
        self.p = end.unwrap_or(p);
        Ok(out)
    }
    fn rr(&mut self) -> R<Rr> {
        let mut soft = false;
        let name = self.name(&mut soft)?;
        let ty = self.u16()?;
        let class = self.u16()?;
        let ttl = self.u32()?;
        let len = self.u16()? as usize;
        let start = self.p;
        let raw = self.take(len)?.to_vec();
        let end = self.p;
        // Names inside the data may point anywhere before them but must end inside it.
        let mut d = Rd { b: &self.b[..end], p: start };
        let mut inexact = false;
        let data = (|| -> R<Data> {
            Ok(match ty {
                A => Data::A(d.take(4)?.try_into().unwrap()),
                AAAA => Data::Aaaa(d.take(16)?.try_into().unwrap()),
                CNAME => Data::Cname(d.name(&mut inexact)?),
                NS => Data::Ns(d.name(&mut inexact)?),
                PTR => Data::Ptr(d.name(&mut inexact)?),
                MX => Data::Mx(d.u16()?, d.name(&mut inexact)?),
                SRV => Data::Srv(d.u16()?, d.u16()?, d.u16()?, d.name(&mut inexact)?),
                SOA => {
                    let m = d.name(&mut inexact)?;
                    let r = d.name(&mut inexact)?;
                    Data::Soa(m, r, [d.u32()?, d.u32()?, d.u32()?, d.u32()?, d.u32()?])
                }
                TXT => {
                    let mut v = Vec::new();
                    while d.p < end {
                        let n = d.u8()? as usize;
                        v.push(d.take(n)?.to_vec());
                    }
                    if v.is_empty() {
                        inexact = true;
                    }
                    Data::Txt(v)
                }
                _ => {
                    let v = d.take(len)?.to_vec();
                    Data::Other(v)
                }
            })
        })();
        let data = match data {
            Ok(x) => {
                if d.p != end {
                    inexact = true;
                }
                x
            }
            Err(()) => Data::Bad,
        };
        Ok(Rr { name, ty, class: class & 0x7fff, flush: class & 0x8000 != 0, ttl, raw, data, inexact, soft, end })
    }
}

pub fn parse(b: &[u8]) -> Option<Msg> {
    let mut r = Rd { b, p: 0 };
    let mut m = Msg { len: b.len(), ..Default::default() };
    if b.len() < 12 {
        return None;
    }
    m.id = r.u16().ok()?;
    m.flags = r.u16().ok()?;
    for c in &mut m.counts {
        *c = r.u16().ok()?;
    }
    m.end = 12;
    for _ in 0..m.counts[0] {
        let mut soft = false;
        let q = (|| -> R<Q> { Ok(Q { name: r.name(&mut soft)?, qtype: r.u16()?, qclass: r.u16()?, soft: false }) })();
        match q {
            Ok(mut q) => {
                q.soft = soft;
                m.qs.push(q);
                m.end = r.p;
            }
            Err(()) => {
                m.err = Some(0);
                return Some(m);
            }
        }
    }
    for s in 0..3 {
        for _ in 0..m.counts[s + 1] {
            match r.rr() {
                Ok(x) => {
                    m.end = x.end;
                    m.secs[s].push(x);
                }
                Err(()) => {
                    m.err = Some(s + 1);
                    return Some(m);
                }
            }
        }
    }
    Some(m)
}

pub fn eq_ci(a: &Name, b: &Name) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq_ignore_ascii_case(y))
}

pub fn name_len(n: &Name) -> usize {
    1 + n.iter().map(|l| l.len() + 1).sum::<usize>()
}

pub fn nm(s: &str) -> Name {
    s.split('.').filter(|l| !l.is_empty()).map(|l| l.as_bytes().to_vec()).collect()
}

/// The library's documented text form: escaped labels, each followed by a dot.
pub fn show(n: &Name) -> String {
    if n.is_empty() {
        return ".".into();
    }
    n.iter().map(|l| format!("{}.", l.escape_ascii())).collect()
}

// ---- encoding ---------------------------------------------------------------------------------------

pub struct Enc {
    pub b: Vec<u8>,
    /// Names written so far, where, and how many pointers they lead through.
    dict: Vec<(Name, usize, u32)>,
    pub compress: bool,
    /// Points to the latest occurrence of a name, which may be a pointer itself.
    pub recent: bool,
}

impl Enc {
    pub fn new(compress: bool) -> Enc {
        Enc { b: Vec::new(), dict: Vec::new(), compress, recent: false }
    }
    pub fn u16(&mut self, v: u16) {
        self.b.extend(v.to_be_bytes());
    }
    pub fn u32(&mut self, v: u32) {
        self.b.extend(v.to_be_bytes());
    }
    pub fn name(&mut self, n: &Name) {
        let mut rest = n.clone();
        let mut new = Vec::new();
        let mut hops = 0;
        loop {
            if rest.is_empty() {
                self.b.push(0);
                break;
            }
            if self.compress {
                let usable = |x: &&(Name, usize, u32)| x.0 == rest && x.2 < 10;
                let hit = if self.recent { self.dict.iter().rev().find(usable) } else { self.dict.iter().find(usable) };
                let here = self.b.len();
                if self.recent || hit.is_none() {
                    new.push((rest.clone(), here));
                }
                if let Some(&(_, off, h)) = hit {
                    hops = h + 1;
                    self.u16(0xc000 | off as u16);
                    break;
                }
            }
            let l = rest.remove(0);
            self.b.push(l.len() as u8);
            self.b.extend(l);
        }
        self.dict.extend(new.into_iter().filter(|x| x.1 <= 0x3fff).map(|(n, at)| (n, at, hops)));
    }
    pub fn q(&mut self, q: &Q) {
        self.name(&q.name);
        self.u16(q.qtype);
        self.u16(q.qclass);
    }
    pub fn rr(&mut self, r: &NewRr) {
        self.name(&r.name);
        self.u16(r.ty);
        self.u16(r.class);
        self.u32(r.ttl);
        let at = self.b.len();
        self.u16(0);
        self.data(&r.data);
        let n = (self.b.len() - at - 2) as u16;
        self.b[at..at + 2].copy_from_slice(&n.to_be_bytes());
    }
    fn data(&mut self, d: &Data) {
        match d {
            Data::A(a) => self.b.extend(a),
            Data::Aaaa(a) => self.b.extend(a),
            Data::Cname(n) | Data::Ns(n) | Data::Ptr(n) => self.name(n),
            Data::Mx(p, n) => {
                self.u16(*p);
                self.name(n)
            }
            Data::Srv(a, b, c, n) => {
                self.u16(*a);
                self.u16(*b);
                self.u16(*c);
                self.name(n)
            }
            Data::Soa(m, r, v) => {
                self.name(m);
                self.name(r);
                for x in v {
                    self.u32(*x);
                }
            }
            Data::Txt(v) => {
                for s in v {
                    self.b.push(s.len() as u8);
                    self.b.extend(s);
                }
            }
            Data::Other(v) => self.b.extend(v),
            Data::Bad => {}
        }
    }
}

#[derive(Clone, Debug)]
pub struct NewRr {
    pub name: Name,
    pub ty: u16,
    /// Including the cache-flush bit.
    pub class: u16,
    pub ttl: u32,
    pub data: Data,
}

impl NewRr {
    pub fn new(name: &Name, data: Data) -> NewRr {
        NewRr { name: name.clone(), ty: type_of(&data), class: 1, ttl: 120, data }
    }
}

pub fn type_of(d: &Data) -> u16 {
    match d {
        Data::A(_) => A,
        Data::Aaaa(_) => AAAA,
        Data::Cname(_) => CNAME,
        Data::Ns(_) => NS,
        Data::Ptr(_) => PTR,
        Data::Mx(..) => MX,
        Data::Txt(_) => TXT,
        Data::Srv(..) => SRV,
        Data::Soa(..) => SOA,
        Data::Other(_) => 99,
        Data::Bad => 0,
    }
}

/// Size of a record written without name compression.
pub fn plain_size(name: &Name, d: &Data) -> usize {
    let len = |n: &Name| n.iter().map(|l| l.len() + 1).sum::<usize>() + 1;
    10 + len(name)
        + match d {
            Data::A(_) => 4,
            Data::Aaaa(_) => 16,
            Data::Cname(n) | Data::Ns(n) | Data::Ptr(n) => len(n),
            Data::Mx(_, n) => 2 + len(n),
            Data::Srv(_, _, _, n) => 6 + len(n),
            Data::Soa(m, r, _) => 20 + len(m) + len(r),
            Data::Txt(v) => v.iter().map(|s| s.len() + 1).sum(),
            Data::Other(v) => v.len(),
            Data::Bad => 0,
        }
}

#[derive(Clone, Debug, Default)]
pub struct NewMsg {
    pub id: u16,
    pub flags: u16,
    pub qs: Vec<(Name, u16, u16)>,
    pub secs: [Vec<NewRr>; 3],
    /// Compressed with pointers to the latest occurrence of each name.
    pub recent: bool,
}

impl NewMsg {
    pub fn encode(&self, compress: bool) -> Vec<u8> {
        let mut e = Enc::new(compress);
        e.recent = self.recent;
        e.u16(self.id);
        e.u16(self.flags);
        e.u16(self.qs.len() as u16);
        for s in &self.secs {
            e.u16(s.len() as u16);
        }
        for (n, t, c) in &self.qs {
            e.q(&Q { name: n.clone(), qtype: *t, qclass: *c, soft: false });
        }
        for s in &self.secs {
            for r in s {
                e.rr(r);
            }
        }
        e.b
    }
}

pub fn tname(t: u16) -> String {
    match t {
        A => "A".into(),
        NS => "NS".into(),
        CNAME => "CNAME".into(),
        SOA => "SOA".into(),
        PTR => "PTR".into(),
        MX => "MX".into(),
        TXT => "TXT".into(),
        AAAA => "AAAA".into(),
        SRV => "SRV".into(),
        ANY => "ALL".into(),
        _ => format!("type{t}"),
    }
}

/// One-line description for traces.
pub fn summary(b: &[u8]) -> String {
    let Some(m) = parse(b) else {
        return format!("<no header> {}", hex(b));
    };
    let mut s = String::new();
    let _ = write!(s, "{} id={} flags={:04x} counts={:?}", if m.qr() { "response" } else { "query" }, m.id, m.flags, m.counts);
    for q in m.qs.iter().take(4) {
        let _ = write!(s, " Q[{} {} c{:#x}]", show(&q.name), tname(q.qtype), q.qclass);
    }
    for (i, sec) in m.secs.iter().enumerate() {
        for r in sec.iter().take(6) {
            let _ = write!(s, " {}[{} {} {:?}]", ["AN", "NS", "AR"][i], show(&r.name), tname(r.ty), r.data);
        }
    }
    if let Some(e) = m.err {
        let _ = write!(s, " <malformed in section {e}>");
    } else if m.end != m.len {
        let _ = write!(s, " <{} bytes after the end>", m.len - m.end);
    }
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    b.iter().take(64).map(|x| format!("{x:02x}")).collect()
}
