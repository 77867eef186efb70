//! Generators for names, configurations and messages. Every choice comes from the current tape.

use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

use crate::kernel::k;
use crate::nodes::{AdvCfg, InstCfg, Late};
use crate::tape::S;
use crate::wire::*;

/// Draws from one stream of the current run's tape.
#[derive(Clone, Copy)]
pub struct G(pub S);

pub const C: G = G(S::Cfg);
pub const P: G = G(S::Peer);
pub const F: G = G(S::Fault);

impl G {
    pub fn n(self, n: usize) -> usize {
        k().tape.choose(self.0, n as u64) as usize
    }
    pub fn r(self, lo: u64, hi: u64) -> u64 {
        k().tape.range(self.0, lo, hi)
    }
    pub fn p(self, pm: u32) -> bool {
        k().tape.chance(self.0, pm)
    }
    pub fn pick<T: Clone>(self, xs: &[T]) -> T {
        k().tape.pick(self.0, xs).clone()
    }
    /// Picks by weight.
    pub fn w<T: Clone>(self, xs: &[(u32, T)]) -> T {
        let sum: u32 = xs.iter().map(|x| x.0).sum();
        let mut v = self.n(sum as usize) as u32;
        for (w, x) in xs {
            if v < *w {
                return x.clone();
            }
            v -= w;
        }
        unreachable!()
    }
}

const HOSTS: &[&[u8]] = &[b"host", b"alpha", b"HOST", b"hosta", b"hos", b"a", b"h\xc3\xb6st", b"x.y", b"beta-2", b"local"];
const SVCS: &[&[u8]] = &[b"_http", b"_ipp", b"_http2", b"_htt", b"_HTTP", b"_s", b"_services", b"_a.b"];
const INSTS: &[&[u8]] = &[b"inst", b"My Printer", b"INST", b"inst2", b"ins", b"a.b", b"caf\xc3\xa9", b"\x00\xff", b"_http", b"=x"];
const KEYS: &[&[u8]] = &[b"path", b"v", b"Path", b"txtvers", b"note", b"a", b"paper", b"k y"];

pub fn long_label(g: G) -> Vec<u8> {
    let n = g.pick(&[63usize, 62, 32, 48]);
    let c = g.pick(&[b'z', b'Q', 0xc0, b'0']);
    vec![c; n]
}
/// A short label of bytes that mean something to somebody.
fn odd_label(g: G) -> Vec<u8> {
    let n = g.r(1, 4);
    (0..n).map(|_| g.pick(&[0u8, b'.', b'\\', b'*', b' ', 0x7f, 0xc0, 0x80, 0xff, b'@', b'[', b'`', b'{', b'Z', b'z', b'"', b'=', b'\n', 3, 0x1f])).collect()
}
pub fn host_label(g: G) -> Vec<u8> {
    if g.p(30) {
        return odd_label(g);
    }
    if g.p(40) {
        return long_label(g);
    }
    g.pick(HOSTS).to_vec()
}
pub fn svc_label(g: G) -> Vec<u8> {
    if g.p(30) {
        let mut l = long_label(g);
        l[0] = b'_';
        return l;
    }
    g.pick(SVCS).to_vec()
}
pub fn inst_label(g: G) -> Vec<u8> {
    if g.p(30) {
        return odd_label(g);
    }
    if g.p(40) {
        return long_label(g);
    }
    g.pick(INSTS).to_vec()
}
pub fn ip(g: G) -> IpAddr {
    if g.p(50) {
        // addresses that mean something to somebody
        return g.pick(&[
            Ipv4Addr::UNSPECIFIED.into(),
            Ipv4Addr::BROADCAST.into(),
            Ipv4Addr::LOCALHOST.into(),
            Ipv4Addr::new(224, 0, 0, 251).into(),
            Ipv4Addr::new(169, 254, 1, 1).into(),
            Ipv6Addr::UNSPECIFIED.into(),
            Ipv6Addr::LOCALHOST.into(),
            Ipv4Addr::new(192, 168, 1, 7).to_ipv6_mapped().into(),
            Ipv4Addr::new(10, 0, 0, 1).to_ipv6_compatible().into(),
            IpAddr::from([0xff02, 0, 0, 0, 0, 0, 0, 0xfbu16]),
            IpAddr::from([0xffffu16; 8]),
        ]);
    }
    if g.p(300) {
        Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, g.n(3) as u16, g.r(1, 200) as u16).into()
    } else {
        Ipv4Addr::new(192, 168, g.n(3) as u8, g.r(1, 200) as u8).into()
    }
}

pub fn txt_pairs(g: G, wild: bool) -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
    let mut v: Vec<(Vec<u8>, Option<Vec<u8>>)> = Vec::new();
    let n = g.w(&[(40, 0usize), (30, 1), (30, 2), (20, 3), (10, 5), (2, 9), (2, 17), (1, 40)]);
    for i in 0..n {
        let key = if i < 6 { g.pick(KEYS).to_vec() } else { format!("k{i}").into_bytes() };
        if v.iter().any(|(k, _)| k.eq_ignore_ascii_case(&key)) {
            continue;
        }
        let val = match g.n(7) {
            6 => Some(g.pick(&[&b" lead"[..], b"trail ", b" ", b"a\tb\n", b"\"q\"", b"\xc3\xa9", b"0", b"=", b"==", b"a=b=c", b"\x00"]).to_vec()),
            0 => None,
            1 => Some(vec![]),
            2 => Some(b"/index=1".to_vec()),
            3 => Some(b"plain".to_vec()),
            4 => Some(vec![0xff, 0, b'=', 0xc0]),
            _ => {
                let n = if wild { g.pick(&[40usize, 90, 200, 255 - key.len() - 1]) } else { 12 };
                Some(vec![b'v'; n])
            }
        };
        v.push((key, val));
    }
    v
}

#[derive(Clone, Copy, Default)]
pub struct CfgOpt {
    pub big: bool,
    pub overlong_txt: bool,
    /// Names that are distinct per advertiser (by prefixing), so that answers are unambiguous.
    pub uniq: Option<usize>,
    pub late: bool,
}

pub fn adv_cfg(g: G, o: CfgOpt) -> AdvCfg {
    let uq = |mut l: Vec<u8>| {
        if let Some(i) = o.uniq {
            l.truncate(60);
            l.push(b'0' + i as u8);
        }
        l
    };
    let mut names = vec![(uq(host_label(g)), ip(g))];
    let extra = if o.big { g.w(&[(2, 0usize), (2, 8), (2, 25), (3, 46), (2, 60)]) } else { g.w(&[(4, 0usize), (3, 1), (2, 2), (1, 4)]) };
    let many = o.big && g.p(500);
    for _ in 0..extra {
        let l = if many || g.p(400) { names[0].0.clone() } else { uq(host_label(g)) };
        names.push((l, ip(g)));
    }
    let ni = if o.big { g.w(&[(2, 1usize), (2, 4), (2, 10), (1, 16)]) } else { g.w(&[(3, 1usize), (2, 0), (3, 2), (2, 3), (1, 5)]) };
    let mut insts: Vec<InstCfg> = Vec::new();
    for _ in 0..ni {
        let (svc, tcp) = match insts.last() {
            Some(p) if g.p(500) => (p.svc.clone(), p.tcp),
            _ => (svc_label(g), !g.p(300)),
        };
        let host = match g.n(4) {
            0 | 1 => vec![names[0].0.clone(), b"local".to_vec()],
            2 => vec![host_label(g), b"local".to_vec()],
            _ => nm("srv.example.com"),
        };
        let wild = o.big || (o.uniq.is_none() && g.p(80));
        let mut txt = txt_pairs(g, wild);
        if o.overlong_txt && g.p(400) {
            txt = vec![(vec![b'k'; g.pick(&[255usize, 256, 300, 257])], None)];
        }
        let c = InstCfg { inst: uq(inst_label(g)), svc, tcp, host, port: g.pick(&[80u16, 0, 65535, 8080, 256, 53]), txt };
        if o.uniq.is_some() && insts.iter().any(|x| eq_ci(&x.full_name(), &c.full_name())) {
            continue;
        }
        insts.push(c);
        if o.uniq.is_none() && g.p(100) {
            // once more, with other details
            let mut d = g.pick(&insts);
            match g.n(4) {
                0 => d.inst.make_ascii_uppercase(),
                1 => d.svc.make_ascii_lowercase(),
                _ => {}
            }
            match g.n(5) {
                0 => d.port = g.r(1, 65535) as u16,
                1 => d.txt = txt_pairs(g, false),
                2 => d.host = vec![host_label(g), b"local".to_vec()],
                3 => d.tcp = !d.tcp,
                _ => {}
            }
            insts.push(d);
        }
    }
    let mut late = Vec::new();
    if o.late && g.p(400) {
        for _ in 0..g.r(1, 4) {
            let l = if g.p(300) { names[0].0.clone() } else { host_label(g) };
            if g.p(500) {
                late.push(Late::Name(l, ip(g)));
                continue;
            }
            let (svc, tcp) = match insts.last() {
                Some(p) if g.p(500) => (p.svc.clone(), p.tcp),
                _ => (svc_label(g), !g.p(300)),
            };
            let c = InstCfg { inst: inst_label(g), svc, tcp, host: vec![l, b"local".to_vec()], port: g.r(1, 9999) as u16, txt: txt_pairs(g, false) };
            late.push(Late::Inst(c));
        }
    }
    AdvCfg { names, insts, late }
}

/// Same bytes, other labels: two labels joined by a dot, or one cut at a dot or anywhere.
fn regroup(g: G, m: &mut Name) {
    let dotted: Vec<usize> = (0..m.len()).filter(|&i| m[i].iter().skip(1).rev().skip(1).any(|b| *b == b'.')).collect();
    if !dotted.is_empty() && g.p(600) {
        let i = g.pick(&dotted);
        let j = m[i].iter().position(|b| *b == b'.').unwrap();
        if j > 0 && j + 1 < m[i].len() {
            let rest = m[i].split_off(j + 1);
            m[i].pop();
            m.insert(i + 1, rest);
        }
    } else if m.len() > 1 {
        let i = g.n(m.len() - 1);
        if m[i].len() + m[i + 1].len() < 63 {
            let n = m.remove(i + 1);
            if g.p(700) {
                m[i].push(b'.');
            }
            m[i].extend(n);
        }
    }
}

/// A name near `n`: same, other case, or slightly different.
pub fn near(g: G, n: &Name) -> Name {
    let mut m = n.clone();
    match g.w(&[(12, 0), (4, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (1, 9)]) {
        0 => {}
        1 => {
            for l in &mut m {
                match g.n(3) {
                    0 => l.make_ascii_uppercase(),
                    1 => l.make_ascii_lowercase(),
                    _ => {
                        for b in l.iter_mut() {
                            if b.is_ascii_alphabetic() && g.p(500) {
                                *b ^= 0x20;
                            }
                        }
                    }
                }
            }
        }
        2 => {
            if m.len() > 1 {
                m.remove(0);
            }
        }
        3 => m.insert(0, b"x".to_vec()),
        4 => {
            m.pop();
        }
        5 => m.push(b"com".to_vec()),
        6 => {
            // one bit of one byte; letters at the edge of the alphabet do not fold
            let i = g.n(m.len().max(1));
            if let Some(l) = m.get_mut(i) {
                let j = g.n(l.len());
                l[j] ^= g.pick(&[0x20u8, 1, 0x80]);
            }
        }
        8 => regroup(g, &mut m),
        9 => {
            // looks the same when printed
            let i = g.n(m.len().max(1));
            if let Some(l) = m.get_mut(i) {
                let e: Vec<u8> = if g.p(500) { l.escape_ascii().collect() } else { String::from_utf8_lossy(l).into_owned().into_bytes() };
                if e.len() <= 63 && e != *l {
                    *l = e;
                } else if l.len() < 63 {
                    l.push(0);
                }
            }
        }
        _ => {
            let i = g.n(m.len().max(1));
            if let Some(l) = m.get_mut(i) {
                if l.len() > 1 && g.p(500) {
                    l.pop();
                } else if l.len() < 63 {
                    l.push(b'x');
                }
            }
        }
    }
    m
}

pub fn any_name(g: G) -> Name {
    match g.n(6) {
        0 => vec![host_label(g), b"local".to_vec()],
        1 => vec![svc_label(g), b"_tcp".to_vec(), b"local".to_vec()],
        2 => vec![inst_label(g), svc_label(g), b"_udp".to_vec(), b"local".to_vec()],
        3 => nm("_services._dns-sd._udp.local"),
        4 => vec![],
        _ => nm("www.example.com"),
    }
}

pub const QTYPES: &[u16] = &[A, PTR, SRV, TXT, ANY, AAAA, CNAME, MX, NS, SOA, 252, 253, 254, 99, 47, 0, 41];
pub const QCLASSES: &[u16] = &[1, 0x8001, 255, 0x80ff, 3, 2, 4, 0, 254, 0x0101, 0x8101, 0x01ff, 0x7fff, 0x0100];

pub fn qtype(g: G) -> u16 {
    g.w(&[(6, A), (3, AAAA), (6, PTR), (4, SRV), (4, TXT), (6, ANY), (1, CNAME), (1, MX), (1, NS), (1, SOA), (1, 252), (1, 253), (1, 254), (1, 99), (1, 0), (1, 0x0110), (1, 0x0c01)])
}
pub fn qclass(g: G) -> u16 {
    if g.p(700) {
        g.pick(&[1u16, 0x8001])
    } else {
        g.pick(QCLASSES)
    }
}

/// A query aimed at records of `cfgs`.
pub fn query(g: G, cfgs: &[&AdvCfg], id: u16) -> NewMsg {
    let mut m = NewMsg { id, recent: g.p(120), ..Default::default() };
    let nq = g.w(&[(20, 1usize), (8, 2), (4, 3), (2, 6), (2, 0), (1, 12), (1, 22), (1, 45)]);
    for _ in 0..nq {
        if !m.qs.is_empty() && g.p(200) {
            let i = g.n(m.qs.len());
            let mut q = m.qs[i].clone();
            q.1 = qtype(g);
            m.qs.push(q);
            continue;
        }
        let n = target(g, cfgs);
        m.qs.push((near(g, &n), qtype(g), qclass(g)));
    }
    if g.p(150) {
        m.flags |= g.pick(&[F_RD, F_AA, F_RA, 0x40, 0x20, 0x10, F_TC]);
    }
    if g.p(120) {
        // known answers, authority (probes), EDNS
        let n = target(g, cfgs);
        let s = g.n(3);
        let d = rdata(g);
        m.secs[s].push(NewRr::new(&n, d));
    }
    m
}

pub fn target(g: G, cfgs: &[&AdvCfg]) -> Name {
    if cfgs.is_empty() || g.p(60) {
        return any_name(g);
    }
    let c = g.pick(cfgs);
    let recs = c.all_records();
    g.pick(&recs).0
}

pub fn rdata(g: G) -> Data {
    match g.n(10) {
        0 => Data::A([10, 9, 8, g.r(1, 250) as u8]),
        1 => Data::Aaaa([0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, g.r(1, 250) as u8]),
        2 => Data::Ptr(any_name(g)),
        3 => Data::Srv(g.n(3) as u16, g.n(70000).min(65535) as u16, g.n(65536) as u16, any_name(g)),
        4 => Data::Txt(txt_strings(g)),
        5 => Data::Cname(any_name(g)),
        6 => Data::Ns(any_name(g)),
        7 => Data::Mx(g.n(65536) as u16, any_name(g)),
        8 => Data::Soa(any_name(g), any_name(g), [g.n(1 << 31) as u32, 7200, g.pick(&[3600, 0x8000_0000]), u32::MAX, g.pick(&[5, 60, 0xfedc_ba98])]),
        _ => Data::Other(vec![0xc0; g.n(20)]),
    }
}

pub fn txt_strings(g: G) -> Vec<Vec<u8>> {
    let n = g.w(&[(2, 1usize), (3, 2), (2, 3), (1, 6)]);
    (0..n)
        .map(|_| match g.n(15) {
            11 => g.pick(&[&b"sp= lead"[..], b"sp=trail ", b"sp= ", b"sp=\t", b" sp=1", b"sp =2", b"sp"]).to_vec(),
            12 => g.pick(&[&b"K\xc3\x89Y=1"[..], b"k\xc3\xa9y=2", b"\xc3\x89=3", b"k\xc3\xa9y"]).to_vec(),
            13 => {
                let c = g.pick(&[b'a', b'b', b'c', b'd']);
                vec![c, b'=', b'0' + g.n(10) as u8]
            }
            0 => vec![],
            1 => b"=novalue".to_vec(),
            2 => b"path=/a=b".to_vec(),
            3 => b"PATH=other".to_vec(),
            4 => b"flag".to_vec(),
            5 => b"Flag=x".to_vec(),
            6 => b"\xff\xfe=bin".to_vec(),
            7 => b"v=".to_vec(),
            8 => vec![b'k'; 255],
            9 => b"k\xc3\xa9y=1".to_vec(),
            10 => b"=".to_vec(),
            _ => b"bin=\x00\xff=".to_vec(),
        })
        .collect()
}

// ---- damage -----------------------------------------------------------------------------------------

/// Damages valid bytes.
pub fn damage(g: G, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match g.w(&[(4, 0), (4, 1), (3, 2), (2, 3), (2, 4), (2, 5), (1, 6), (2, 7), (2, 8)]) {
        0 => {
            let n = g.n(v.len().max(1));
            v.truncate(v.len() - 1 - n.min(v.len() - 1));
        }
        1 => {
            for _ in 0..g.r(1, 4) {
                if v.is_empty() {
                    break;
                }
                let i = g.n(v.len());
                v[i] ^= 1 << g.n(8);
            }
        }
        2 => {
            // cut, ending in the first half of a compression pointer
            let n = g.n(v.len().max(1));
            v.truncate(n.max(12.min(v.len())));
            v.push(0xc0 | g.n(64) as u8);
        }
        3 => {
            // lying counts
            if v.len() >= 12 {
                let i = 4 + 2 * g.n(4);
                v[i] = g.pick(&[0u8, 0xff, 1]);
                v[i + 1] = g.pick(&[0u8, 0xff, 1, 2, 5]);
            }
        }
        4 => {
            // a byte of the body becomes something structural
            if v.len() > 12 {
                let i = 12 + g.n(v.len() - 12);
                v[i] = g.pick(&[0xc0u8, 0, 0x40, 0x80, 0xff, 63, 0x3f, 1]);
            }
        }
        5 => {
            // a pointer somewhere
            if v.len() > 14 {
                let i = 12 + g.n(v.len() - 13);
                let to = match g.n(4) {
                    0 => i,
                    1 => 12,
                    2 => i.saturating_sub(2),
                    _ => g.n(v.len() + 4),
                };
                v[i] = 0xc0 | (to >> 8) as u8;
                v[i + 1] = to as u8;
            }
        }
        6 => {
            let n = g.pick(&[1usize, 2, 12, 40]);
            for _ in 0..n {
                let b = g.n(256) as u8;
                v.push(b);
            }
        }
        7 => {
            // splice: drop a piece from the middle
            if v.len() > 14 {
                let i = 12 + g.n(v.len() - 12);
                let n = g.r(1, 6) as usize;
                let e = (i + n).min(v.len());
                v.drain(i..e);
            }
        }
        _ => {
            // header flags
            if v.len() >= 4 {
                v[2] = g.n(256) as u8;
                v[3] = g.n(256) as u8;
            }
        }
    }
    v
}

/// Bytes that are hostile by construction.
pub fn hostile(g: G) -> Vec<u8> {
    let resp = g.p(500);
    let mut v = vec![0x30, 0x39, if resp { 0x84 } else { 0 }, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    match g.n(10) {
        0 => {
            // name ends in half a pointer
            let s = if resp { 7 } else { 5 };
            v[s] = 1;
            if g.p(500) {
                v.extend([3, b'f', b'o', b'o']);
            }
            v.push(0xc0 | g.n(64) as u8);
        }
        1 => {
            // pointer to itself, to the next byte, past the end
            v[if resp { 7 } else { 5 }] = 1;
            let to = g.pick(&[12u16, 13, 14, 0x3fff, 100]);
            v.extend((0xc000 | to).to_be_bytes());
            v.extend([0, 1, 0, 1]);
        }
        2 => {
            // two pointers referring to each other
            v[5] = 2;
            v.extend([0xc0, 14, 0xc0, 12, 0, 1, 0, 1]);
        }
        3 => {
            // many questions announced
            v[4] = 0xff;
            v[5] = 0xff;
            let n = g.n(200);
            for _ in 0..n {
                v.extend([0, 0, 1, 0, 1]);
            }
        }
        4 => {
            // record data longer than the message
            v[2] = 0x84;
            v[7] = 1;
            v.extend([0, 0, 1, 0, 1, 0, 0, 0, 120, 0xff, 0xff, 1]);
        }
        5 => {
            // chain of pointers hidden inside labels, each to the one before
            let mut w = vec![0x30, 0x39, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0];
            let mut prev = 12usize;
            for _ in 0..g.r(1, 4) {
                w.push(62);
                for _ in 0..31 {
                    let at = w.len();
                    w.extend((0xc000 | prev as u16).to_be_bytes());
                    prev = at;
                }
            }
            w.extend([0, 0, 1, 0, 1]);
            w.extend((0xc000 | prev as u16).to_be_bytes());
            w.extend([0, 1, 0, 1]);
            v = w;
        }
        6 => {
            let n = g.n(40);
            v = (0..n).map(|_| g.n(256) as u8).collect();
        }
        7 => {
            v.truncate(g.n(13));
        }
        8 => {
            // reserved label type
            v[if resp { 7 } else { 5 }] = 1;
            v.push(g.pick(&[0x40u8, 0x80, 0x41, 0xbf]));
            v.extend([1; 20]);
        }
        _ => {
            // larger than any receive buffer
            v[5] = 1;
            let n = g.pick(&[1489usize, 1488, 1600, 3000]);
            v.extend(vec![g.pick(&[0u8, 0xc0, 1, 63]); n]);
        }
    }
    v
}
