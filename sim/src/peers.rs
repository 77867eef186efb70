//! Scripted peers: DNS servers and responders that answer correctly, incorrectly, late, twice, damaged
//! or not at all, and reflectors that try to start a packet storm.

use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::rc::Rc;

use crate::gen::*;
use crate::kernel::{k, Actor, ActorId, Pkt, MDNS4, MS, US};
use crate::nodes::AdvCfg;
use crate::o_adv::{class_matches, type_matches};
use crate::wire::*;

/// Sends after `delay`.
fn later(me: ActorId, delay: u64, from: SocketAddr, to: SocketAddr, data: Vec<u8>) {
    let t = k().now + delay;
    k().at(t, move || k().actor_send(me, from, to, &data));
}

/// Appends a TXT filler record so that the encoded message has exactly `n` bytes (if possible).
fn pad_to(m: &mut NewMsg, sec: usize, owner: &Name, n: usize) {
    let mut f = NewRr::new(owner, Data::Txt(vec![]));
    m.secs[sec].push(f.clone());
    let base = m.encode(true).len();
    if n <= base {
        m.secs[sec].pop();
        return;
    }
    let mut left = n - base;
    let mut v = Vec::new();
    while left > 0 {
        let c = left.min(256);
        v.push(vec![b'p'; c - 1]);
        left -= c;
    }
    f.data = Data::Txt(v);
    *m.secs[sec].last_mut().unwrap() = f;
}

fn delay(g: G) -> u64 {
    match g.w(&[(10, 0u8), (4, 1), (2, 2), (2, 3), (1, 4)]) {
        0 => 0,
        1 => g.r(1, 5_000) * US,
        2 => g.r(1, 100) * MS,
        3 => g.r(100, 700) * MS,
        _ => g.r(500, 2500) * MS,
    }
}

// ---- a DNS server for resolvers ---------------------------------------------------------------------

pub struct Server {
    /// Addresses to answer from.
    pub v6: bool,
    pub old: Vec<(SocketAddr, Msg)>,
    pub stranger: SocketAddr,
    pub budget: u32,
    /// Unprompted traffic is at most this far apart.
    pub gap_ms: u64,
    /// Per mille of replies that are anything but ordinary.
    pub wild: u32,
}

fn v4(g: G) -> Data {
    if g.p(40) {
        return Data::A(g.pick(&[[0, 0, 0, 0], [127, 0, 0, 1], [255; 4], [224, 0, 0, 251], [169, 254, 0, 1], [10, 1, 0, 0]]));
    }
    Data::A([10, 1, g.r(0, 3) as u8, g.r(1, 250) as u8])
}
fn v6(g: G) -> Data {
    if g.p(60) {
        let mut a = [0u8; 16];
        match g.n(5) {
            0 => {}
            1 => a[15] = 1,
            2 => a[10..].copy_from_slice(&[0xff, 0xff, 10, 1, 2, 3]),
            3 => a = [0xff; 16],
            _ => a[..2].copy_from_slice(&[0xfe, 0x80]),
        }
        return Data::Aaaa(a);
    }
    Data::Aaaa([0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, g.r(0, 3) as u8, g.r(1, 250) as u8])
}
fn addr(g: G) -> Data {
    if g.p(350) {
        v6(g)
    } else {
        v4(g)
    }
}

fn foreign_name(g: G, q: &Name) -> Name {
    match g.n(6) {
        0 => nm("other.example.com"),
        1 => {
            let mut n = q.clone();
            n.insert(0, b"sub".to_vec());
            n
        }
        2 => q.iter().skip(1).cloned().collect(),
        3 => vec![],
        4 => {
            let mut n = q.clone();
            if let Some(l) = n.first_mut() {
                if l.len() < 63 {
                    l.push(b'x');
                } else {
                    l.pop();
                }
            }
            n
        }
        _ => any_name(g),
    }
}

fn base(g: G, q: &Msg, qname: &Name) -> NewMsg {
    let mut m = NewMsg { id: q.id, flags: F_QR | F_RD | F_RA, recent: g.p(150), ..Default::default() };
    if g.p(250) {
        m.flags |= F_AA;
    }
    match g.n(4) {
        0 | 1 => m.qs = vec![(qname.clone(), A, 1), (qname.clone(), AAAA, 1)],
        2 => {}
        _ => m.qs = vec![(qname.clone(), AAAA, 1)],
    }
    m
}

fn other_case(g: G, n: &mut Name) {
    for b in n.iter_mut().flatten() {
        if b.is_ascii_alphabetic() && g.p(500) {
            *b ^= 0x20;
        }
    }
}

pub fn server_reply(g: G, q: &Msg, old: Option<&Msg>, wild: u32) -> Vec<u8> {
    let qn = q.qs.first().map(|x| x.name.clone()).unwrap_or_default();
    let mut m = base(g, q, &qn);
    let n = g.w(&[(4, 1usize), (3, 2), (2, 3), (1, 6)]);
    let good = |g: G, m: &mut NewMsg, owner: &Name| {
        for _ in 0..n {
            m.secs[0].push(NewRr::new(owner, addr(g)));
        }
    };
    let mut compress = !g.p(300);
    let kind = if g.p(wild) { g.r(1, 26) } else { 0 };
    match kind {
        0 => {
            good(g, &mut m, &qn);
            if g.p(100) {
                m.secs[1].push(NewRr::new(&qn, Data::Ns(nm("ns.example.com"))));
                m.secs[2].push(NewRr::new(&nm("ns.example.com"), Data::A([10, 66, 66, 66])));
            }
        }
        1 | 2 => {
            // CNAME chain, in order or not, with records of other types and the addresses at its end
            let mut cur = qn.clone();
            let mut rs = Vec::new();
            let depth = g.w(&[(12, 2u64), (6, 1), (6, 3), (6, 4), (1, 7), (1, 9), (1, 13), (1, 17), (1, 25)]);
            for i in 0..depth {
                let next = if g.p(150) { near(g, &qn) } else { nm(&format!("c{i}.cdn.example.net")) };
                let mut owner = cur.clone();
                if g.p(100) {
                    other_case(g, &mut owner);
                }
                rs.push(NewRr::new(&owner, Data::Cname(next.clone())));
                if g.p(40) {
                    // two targets
                    let also = nm(&format!("d{i}.cdn.example.net"));
                    rs.push(NewRr::new(&cur, Data::Cname(also.clone())));
                    rs.push(NewRr::new(&also, addr(g)));
                }
                if g.p(40) {
                    // an address on the way
                    rs.push(NewRr::new(&cur, addr(g)));
                }
                cur = next;
            }
            for _ in 0..n {
                let mut owner = cur.clone();
                if g.p(60) {
                    other_case(g, &mut owner);
                }
                rs.push(NewRr::new(&owner, addr(g)));
            }
            if g.p(200) {
                rs.push(NewRr::new(&qn, Data::Mx(5, nm("mail.example.com"))));
            }
            if kind == 2 {
                shuffle(g, &mut rs);
            }
            if g.p(200) {
                // chain that leads elsewhere as well
                rs.push(NewRr::new(&nm("unrelated.example.com"), Data::Cname(nm("evil.example.com"))));
                rs.push(NewRr::new(&nm("evil.example.com"), Data::A([10, 66, 0, 1])));
            }
            m.secs[0] = rs;
        }
        3 => {
            good(g, &mut m, &qn);
            for _ in 0..g.r(1, 3) {
                let f = foreign_name(g, &qn);
                let i = g.n(m.secs[0].len() + 1);
                m.secs[0].insert(i, NewRr::new(&f, addr(g)));
            }
        }
        4 => {
            let f = foreign_name(g, &qn);
            m.qs = if g.p(500) { vec![] } else { vec![(f.clone(), A, 1)] };
            good(g, &mut m, &f);
        }
        5 => {
            good(g, &mut m, &qn);
            m.id = g.pick(&[q.id ^ 1, 0, q.id.swap_bytes(), q.id.wrapping_add(1), 0xffff, q.id ^ 0x8000, q.id ^ 0x0100]);
        }
        6 => {
            good(g, &mut m, &qn);
            m.flags &= !F_QR;
        }
        7 => {
            good(g, &mut m, &qn);
            let b = m.encode(compress);
            return damage(g, &b);
        }
        8 => return hostile(g),
        9 => {
            good(g, &mut m, &qn);
            let i = g.n(m.secs[0].len());
            match g.n(3) {
                0 => m.secs[0][i].class = g.pick(&[3u16, 4, 254, 255, 0, 2, 0x7fff]),
                1 => m.secs[0][i].ttl = 0,
                _ => m.secs[0][i].class = 0x8001,
            }
        }
        10 => {
            good(g, &mut m, &qn);
            m.flags |= F_TC;
        }
        11 => {
            if g.p(500) {
                good(g, &mut m, &qn);
            }
            m.flags |= g.pick(&[3u16, 2, 5, 1]);
        }
        12 => {
            // valid and longer than classic DNS allows
            for i in 0..g.pick(&[31u64, 33, 40, 60]) {
                m.secs[0].push(NewRr::new(&qn, Data::A([10, 2, i as u8, g.r(1, 250) as u8])));
            }
            if g.p(400) {
                compress = false;
            }
        }
        13 => {
            good(g, &mut m, &qn);
            compress = true;
            let n = g.pick(&[512usize, 513, 511, 1499, 1500, 1024, 600]);
            let s = g.pick(&[0usize, 0, 2, 1]);
            pad_to(&mut m, s, &qn, n);
            if s == 0 && g.p(500) {
                m.secs[0].rotate_right(1);
            }
        }
        14 => {
            good(g, &mut m, &qn);
            compress = true;
            let n = g.pick(&[1501usize, 1502, 1600, 2500]);
            let s = g.pick(&[0usize, 2]);
            pad_to(&mut m, s, &qn, n);
            if s == 0 && g.p(500) {
                m.secs[0].rotate_right(1);
            }
        }
        15 => {}
        16 => {
            if let Some(o) = old {
                let on = o.qs.first().map(|x| x.name.clone()).unwrap_or_default();
                m = base(g, o, &on);
                good(g, &mut m, &on);
            }
        }
        17 => {
            // CNAME leads nowhere, or in a circle
            if g.p(500) {
                m.secs[0].push(NewRr::new(&qn, Data::Cname(nm("nowhere.example.com"))));
                if g.p(500) {
                    m.secs[0].push(NewRr::new(&nm("elsewhere.example.com"), addr(g)));
                }
            } else {
                m.secs[0].push(NewRr::new(&qn, Data::Cname(nm("loop.example.com"))));
                m.secs[0].push(NewRr::new(&nm("loop.example.com"), Data::Cname(qn.clone())));
                if g.p(500) {
                    m.secs[0].push(NewRr::new(&nm("loop.example.com"), addr(g)));
                }
            }
        }
        18 => {
            // addresses in the wrong sections
            let s = g.r(1, 2) as usize;
            m.secs[s].push(NewRr::new(&qn, addr(g)));
            if g.p(300) {
                good(g, &mut m, &qn);
            }
        }
        19 => {
            let f = foreign_name(g, &qn);
            m.qs = vec![(f, A, 1)];
            good(g, &mut m, &qn);
        }
        20 => {
            let mut o = qn.clone();
            other_case(g, &mut o);
            good(g, &mut m, &o);
        }
        21 => {
            // good addresses, then a record whose data does not decode
            good(g, &mut m, &qn);
            let mut bad = NewRr::new(&qn, Data::Other(vec![1; g.n(4)]));
            bad.ty = g.pick(&[A, AAAA, SRV, MX]);
            let i = g.n(m.secs[0].len() + 1);
            m.secs[0].insert(i, bad);
        }
        22 => {
            // good addresses, then garbage where another record should be
            good(g, &mut m, &qn);
            let b = m.encode(compress);
            let mut b = b;
            let c = u16::from_be_bytes([b[6], b[7]]) + 1;
            b[6..8].copy_from_slice(&c.to_be_bytes());
            for _ in 0..g.n(12) {
                b.push(g.n(256) as u8);
            }
            return b;
        }
        23 => {
            good(g, &mut m, &qn);
            for _ in 0..2 {
                let d = rdata(g);
                let o = if g.p(500) { qn.clone() } else { any_name(g) };
                let i = g.n(m.secs[0].len() + 1);
                m.secs[0].insert(i, NewRr::new(&o, d));
            }
        }
        24 => {
            let o = near(g, &qn);
            good(g, &mut m, &o);
        }
        25 => {
            good(g, &mut m, &qn);
            m.flags |= g.pick(&[0x0800u16, 0x2000, 0x7800]);
        }
        _ => {
            for _ in 0..n {
                let d = rdata(g);
                m.secs[0].push(NewRr::new(&qn, d));
            }
        }
    }
    m.encode(compress)
}

fn shuffle<T>(g: G, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        // choice 0 keeps the order
        let j = i - g.n(i + 1);
        v.swap(i, j);
    }
}

impl Actor for Server {
    fn on_packet(&mut self, me: ActorId, p: &Pkt) {
        let Some(m) = parse(&p.data) else { return };
        if m.qr() || m.qs.is_empty() {
            return;
        }
        let my = if self.v6 { k().actor_addr6(me) } else { k().actor_addr(me) };
        let n = P.w(&[(8, 1u32), (3, 0), (3, 2), (1, 3), (1, 5)]);
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let old = if self.old.is_empty() { None } else { Some(P.pick(&self.old)) };
            let b = server_reply(P, &m, old.as_ref().map(|x| &x.1), self.wild);
            let from = if P.p(60) { self.stranger } else { my };
            let d = delay(P);
            later(me, d, from, p.from, b);
        }
        self.old.push((p.from, m));
        if self.old.len() > 6 {
            self.old.remove(0);
        }
    }
    fn on_timer(&mut self, me: ActorId, tag: u64) {
        // unprompted traffic to whoever asked last
        if let Some((to, m)) = self.old.last().cloned() {
            let my = if self.v6 { k().actor_addr6(me) } else { k().actor_addr(me) };
            let first = self.old[0].1.clone();
            let b = server_reply(P, &m, Some(&first), 800);
            let from = if P.p(300) { self.stranger } else { my };
            k().actor_send(me, from, to, &b);
        }
        if tag > 1 {
            let at = k().now + P.r(1, self.gap_ms * 1000) * US;
            k().actor_timer(me, at, tag - 1);
        }
    }
}

// ---- a responder for discoverers --------------------------------------------------------------------

pub struct Responder {
    pub v6: bool,
    pub cfgs: Vec<Rc<AdvCfg>>,
    pub domain: Name,
    pub old: Vec<(SocketAddr, Msg)>,
    pub budget: u32,
    pub gap_ms: u64,
    pub wild: u32,
    pub silent: u32,
}

pub fn redomain(n: &Name, domain: &Name) -> Name {
    let mut m = n.clone();
    if m.last().is_some_and(|l| l == b"local") {
        m.pop();
        m.extend(domain.iter().cloned());
    }
    m
}

impl Responder {
    fn records(&self) -> Vec<NewRr> {
        let mut v = Vec::new();
        for c in &self.cfgs {
            for (n, d) in c.records(&[]) {
                let d = match d {
                    Data::Ptr(t) => Data::Ptr(redomain(&t, &self.domain)),
                    d => d,
                };
                v.push(NewRr::new(&redomain(&n, &self.domain), d));
            }
        }
        v
    }
    fn matching(&self, q: &Msg) -> Vec<NewRr> {
        let mut v = Vec::new();
        for x in &q.qs {
            for r in self.records() {
                if eq_ci(&r.name, &x.name) && type_matches(x.qtype, r.ty) && class_matches(x.qclass) {
                    v.push(r);
                }
            }
        }
        v
    }

    fn strange_ptr(&self, g: G, q: &Name) -> Name {
        let dom = &self.domain;
        let mut n: Name = match g.n(11) {
            0 => vec![],
            1 => vec![b"inst".to_vec()],
            2 => vec![b"inst".to_vec(), b"_http".to_vec()],
            3 => nm("inst._http._tcp"),
            4 => nm("inst._http._sctp.local"),
            5 => nm("inst._http._TCP.local"),
            6 => nm("inst.http._tcp.local"),
            7 => nm("_http._tcp"),
            8 => nm("foreign._other._tcp.local"),
            9 => {
                let mut n = vec![b"elsewhere".to_vec()];
                n.extend(q.iter().take(2).cloned());
                n.push(b"example".to_vec());
                return n;
            }
            _ => nm("a.b.c.d._http._tcp.local"),
        };
        if g.p(300) {
            n = redomain(&n, dom);
        }
        n
    }

    /// Very many distinct instances or types, spread over many datagrams, some of them repeated.
    fn crowd(&self, g: G, id: u16, qn: &Name) -> Vec<Vec<u8>> {
        let n = g.pick(&[70u32, 130, 270, 600]);
        let types = qn.first().is_some_and(|l| l == b"_services");
        let mut v = Vec::new();
        let mut m = NewMsg { id, flags: F_QR | F_AA, recent: g.p(300), ..Default::default() };
        let mut i = 0;
        while i < n {
            for _ in 0..g.r(5, 40) {
                let x = if g.p(100) { g.n(i as usize + 1) as u32 } else { i };
                let mut t = vec![format!("{}{x}", if types { "_s" } else { "node " }).into_bytes()];
                if types {
                    t.push(b"_tcp".to_vec());
                    t.extend(self.domain.iter().cloned());
                } else {
                    t.extend(qn.iter().cloned());
                }
                m.secs[0].push(NewRr::new(qn, Data::Ptr(t)));
                i += (x == i) as u32;
                if i >= n {
                    break;
                }
            }
            v.push(m.encode(true));
            m.secs[0].clear();
        }
        v
    }

    /// Datagrams in reaction to a query.
    fn reply(&self, g: G, q: &Msg) -> Vec<Vec<u8>> {
        let qn = q.qs.first().map(|x| x.name.clone()).unwrap_or_default();
        let qt = q.qs.first().map(|x| x.qtype).unwrap_or(PTR);
        let mut m = NewMsg { id: q.id, flags: F_QR | F_AA, recent: g.p(150), ..Default::default() };
        if qt == PTR && g.p(3) {
            return self.crowd(g, q.id, &qn);
        }
        let good = self.matching(q);
        let compress = !g.p(300);
        if g.p(200) {
            m.qs = q.qs.iter().map(|x| (x.name.clone(), x.qtype, x.qclass)).collect();
        }
        let foreign = |g: G, n: usize| -> Vec<NewRr> {
            // records of other names, of the kind asked for and of others
            let all: Vec<NewRr> = self.records().into_iter().filter(|r| !eq_ci(&r.name, &qn)).collect();
            let mut v = Vec::new();
            for _ in 0..n {
                match g.n(5) {
                    0 | 1 if !all.is_empty() => v.push(g.pick(&all)),
                    2 => {
                        let mut o = qn.clone();
                        if let Some(l) = o.first_mut() {
                            if l.len() < 63 {
                                l.push(b'2');
                            }
                        }
                        let d = match qt {
                            PTR => Data::Ptr([vec![b"stray".to_vec()], qn.clone()].concat()),
                            _ if g.p(500) => Data::Srv(0, 0, 6666, nm("stray.local")),
                            _ => Data::Txt(vec![b"stray=1".to_vec()]),
                        };
                        v.push(NewRr::new(&o, d));
                    }
                    3 => {
                        let o = if g.p(500) { nm("_other._tcp.local") } else { qn.iter().skip(1).cloned().collect() };
                        let d = match qt {
                            PTR => Data::Ptr(nm("stray._other._tcp.local")),
                            _ if g.p(500) => Data::Srv(0, 0, 6667, nm("stray2.local")),
                            _ => Data::Txt(vec![b"stray=2".to_vec()]),
                        };
                        v.push(NewRr::new(&o, d));
                    }
                    _ => {
                        let d = rdata(g);
                        let o = any_name(g);
                        if !eq_ci(&o, &qn) {
                            v.push(NewRr::new(&o, d));
                        }
                    }
                }
            }
            v
        };
        let kind = if g.p(self.wild) { g.r(1, 22) } else { 0 };
        m.secs[0] = good.clone();
        match kind {
            0 => {}
            1 => {
                // a part of it
                m.secs[0].retain(|_| !g.p(500));
            }
            2 => {
                // one record per datagram
                let mut v = Vec::new();
                let mut rs = good.clone();
                shuffle(g, &mut rs);
                for r in rs.into_iter().take(8) {
                    let mut x = m.clone();
                    x.secs[0] = vec![r];
                    v.push(x.encode(compress));
                }
                return v;
            }
            3 | 4 => {
                let n = g.r(1, 3) as usize;
                for f in foreign(g, n) {
                    let i = g.n(m.secs[0].len() + 1);
                    m.secs[0].insert(i, f);
                }
            }
            5 | 6 => {
                let n = g.r(1, 3) as usize;
                m.secs[0] = foreign(g, n);
                if g.p(500) {
                    m.qs.clear();
                }
            }
            7 => {
                // repeated records, repeated messages
                let mut d = m.secs[0].clone();
                m.secs[0].append(&mut d);
                if g.p(500) {
                    shuffle(g, &mut m.secs[0]);
                }
                let b = m.encode(compress);
                return vec![b.clone(), b];
            }
            8 => {
                for r in &mut m.secs[0] {
                    for l in r.name.iter_mut() {
                        for b in l.iter_mut() {
                            if b.is_ascii_alphabetic() && g.p(500) {
                                *b ^= 0x20;
                            }
                        }
                    }
                }
            }
            9 => {
                let b = m.encode(compress);
                return vec![damage(g, &b)];
            }
            10 => return vec![hostile(g)],
            11 => m.flags &= !F_QR,
            12 => m.id = g.pick(&[q.id ^ 1, 0, 0xffff]),
            13 => {
                for _ in 0..g.r(1, 3) {
                    let t = self.strange_ptr(g, &qn);
                    let i = g.n(m.secs[0].len() + 1);
                    m.secs[0].insert(i, NewRr::new(&qn, Data::Ptr(t)));
                }
            }
            14 => {
                let n = g.pick(&[1499usize, 1500, 1501, 1600, 2000]);
                let s = g.pick(&[2usize, 0, 1]);
                pad_to(&mut m, s, &vec![], n);
                return vec![m.encode(true)];
            }
            15 => {
                if !self.old.is_empty() {
                    let o = g.pick(&self.old).1;
                    m.secs[0] = self.matching(&o);
                    m.qs.clear();
                }
            }
            16 => {
                let s = g.r(1, 2) as usize;
                let n = g.n(m.secs[0].len() + 1);
                let mut rest = m.secs[0].split_off(n);
                m.secs[s].append(&mut rest);
            }
            17 => {
                let mut bad = NewRr::new(&qn, Data::Other(vec![0xc0; g.n(5)]));
                bad.ty = g.pick(&[PTR, SRV, TXT, A, AAAA]);
                let i = g.n(m.secs[0].len() + 1);
                m.secs[0].insert(i, bad);
            }
            18 => {
                for r in &mut m.secs[0] {
                    match g.n(5) {
                        0 => r.ttl = 0,
                        1 => r.class = g.pick(&[3u16, 255, 254]),
                        2 => r.class = 0x8001,
                        3 => r.ttl = u32::MAX,
                        _ => {}
                    }
                }
            }
            19 => {
                // good records, then garbage where another should be
                let mut b = m.encode(compress);
                let c = u16::from_be_bytes([b[6], b[7]]) + 1;
                b[6..8].copy_from_slice(&c.to_be_bytes());
                for _ in 0..g.n(12) {
                    b.push(g.n(256) as u8);
                }
                return vec![b];
            }
            20 => {
                // another publisher's version of the same record
                for r in &mut m.secs[0] {
                    match &mut r.data {
                        Data::Srv(_, _, p, _) => *p ^= g.r(0, 3) as u16,
                        Data::Txt(t) if g.p(500) => *t = txt_strings(g),
                        _ => {}
                    }
                }
                if g.p(500) {
                    shuffle(g, &mut m.secs[0]);
                }
            }
            21 => m.flags |= g.pick(&[F_TC, 3, 0x0800, F_RA]),
            _ => {
                // extra records for the same name, of other types
                for _ in 0..3 {
                    let d = rdata(g);
                    let i = g.n(m.secs[0].len() + 1);
                    m.secs[0].insert(i, NewRr::new(&qn, d));
                }
            }
        }
        vec![m.encode(compress)]
    }
}

impl Actor for Responder {
    fn on_packet(&mut self, me: ActorId, p: &Pkt) {
        let Some(m) = parse(&p.data) else { return };
        if m.qr() || m.qs.is_empty() {
            return;
        }
        let my = if self.v6 { k().actor_addr6(me) } else { k().actor_addr(me) };
        if !P.p(self.silent) {
            let n = P.w(&[(8, 1u32), (2, 2), (1, 3)]);
            for _ in 0..n {
                let d0 = delay(P);
                for (i, b) in self.reply(P, &m).into_iter().enumerate() {
                    if self.budget == 0 {
                        break;
                    }
                    self.budget -= (i < 8) as u32;
                    let gap = if i > 0 && i < 8 && P.p(300) { P.r(1, 300) * MS } else { 0 };
                    later(me, d0 + gap, my, p.from, b);
                }
            }
        }
        if self.old.last().map(|o| o.1.qs != m.qs) != Some(false) {
            self.old.push((p.from, m));
            if self.old.len() > 6 {
                self.old.remove(0);
            }
        }
    }
    fn on_timer(&mut self, me: ActorId, tag: u64) {
        if let Some((to, m)) = self.old.last().cloned() {
            let my = if self.v6 { k().actor_addr6(me) } else { k().actor_addr(me) };
            for b in self.reply(P, &m) {
                k().actor_send(me, my, to, &b);
            }
        }
        if tag > 1 {
            let at = k().now + P.r(1, self.gap_ms * 1000) * US;
            k().actor_timer(me, at, tag - 1);
        }
    }
}

// ---- reflector --------------------------------------------------------------------------------------

/// Sends what it hears back into the network under other names, trying to make advertisers talk to
/// each other forever.
pub struct Reflector {
    pub advs: Vec<SocketAddr>,
    pub budget: u32,
}

impl Actor for Reflector {
    fn on_packet(&mut self, me: ActorId, p: &Pkt) {
        if self.budget == 0 || !P.p(600) {
            return;
        }
        self.budget -= 1;
        let mut b = p.data.to_vec();
        match P.n(4) {
            1 if b.len() > 3 => b[2] ^= 0x80,
            2 if b.len() > 3 => b[3] &= 0xf0,
            _ => {}
        }
        let spoof = |g: G, a: &Vec<SocketAddr>| -> SocketAddr {
            if a.is_empty() || g.p(300) {
                (MDNS4, 5353).into()
            } else {
                g.pick(a)
            }
        };
        let from = spoof(P, &self.advs);
        let to = if P.p(500) { (MDNS4, 5353).into() } else { spoof(P, &self.advs) };
        later(me, P.r(0, 20) * MS, from, to, b);
    }
}

/// Takes in replies and does nothing.
pub struct Sink;
impl Actor for Sink {
    fn on_packet(&mut self, _me: ActorId, _p: &Pkt) {}
}

pub fn host4(h: usize) -> IpAddr {
    IpAddr::V4(Ipv4Addr::from(k().hosts[h].ip4))
}
