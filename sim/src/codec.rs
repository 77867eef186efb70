//! Codec nodes: a server that builds messages with the library's encoder and a receiver that takes
//! whatever the network delivers apart with its decoder; both judged by the reference codec.

use std::io;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, UdpSocket};
use std::rc::Rc;

use bytemuck::cast;
use uwuhi::name::DomainName;
use uwuhi::packet::decoder::{MessageDecoder, Question as DQ, ResourceRecord as DRr};
use uwuhi::packet::encoder::{MessageEncoder, Question as EQ, ResourceRecord as ERr};
use uwuhi::packet::records as lr;
use uwuhi::packet::records::Record;
use uwuhi::packet::{Class, Header, Opcode, QClass, QType, RCode, Type};
use uwuhi::Error;

use crate::kernel::{app, dying, k, Ev, Kernel};
use crate::nodes::{dn, err, labels};
use crate::o_adv::exit;
use crate::report::Rep;
use crate::wire::*;

/// A message to build.
#[derive(Clone, Debug)]
pub struct Plan {
    pub at: u64,
    pub cap: usize,
    pub msg: NewMsg,
    /// Set the header before or after adding items.
    pub header_first: bool,
    pub to: SocketAddr,
    /// Questions repeated this many times (0 = as listed).
    pub repeat: u32,
    /// Stop and drop the encoder after this section without `finish`.
    pub drop_early: bool,
    /// Passes on records it has itself decoded from another message.
    pub relay: bool,
}

#[derive(Clone, Debug)]
pub enum Cod {
    Built { plan: Rc<Plan>, complete: Option<Result<usize, String>>, buf: Rc<[u8]>, canary: bool, end: usize },
    Decoded { bytes: Rc<[u8]>, mode: u32, got: Rc<Got> },
    Recv(Result<(), String>),
}

/// What the library's decoder made of a datagram.
#[derive(Clone, Debug, Default)]
pub struct Got {
    pub header: Option<(u16, [bool; 5], u16, u16, [u16; 4])>,
    pub qs: Vec<(Name, u16, u16)>,
    pub secs: [Vec<GotRr>; 3],
    /// Section in which the first error showed up, per way of reading.
    pub err: Option<usize>,
    pub errors: u32,
    /// Items or errors seen after the first error.
    pub after_error: u32,
    /// Sections that were skipped over rather than read.
    pub skipped: [bool; 4],
}
#[derive(Clone, Debug)]
pub struct GotRr {
    pub name: Name,
    pub ty: u16,
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub raw: Vec<u8>,
    pub data: Option<Data>,
}

fn qt(v: u16) -> QType {
    cast(v)
}
fn to_record(d: &Data) -> Option<Record<'static>> {
    Some(match d {
        Data::A(a) => Record::A(lr::A::new(Ipv4Addr::from(*a))),
        Data::Aaaa(a) => Record::AAAA(lr::AAAA::new(Ipv6Addr::from(*a))),
        Data::Cname(n) => Record::CNAME(lr::CNAME::new(dn(n))),
        Data::Ns(n) => Record::NS(lr::NS::new(dn(n))),
        Data::Ptr(n) => Record::PTR(lr::PTR::new(dn(n))),
        Data::Mx(p, n) => Record::MX(lr::MX::new(*p, dn(n))),
        Data::Txt(v) => Record::TXT(lr::TXT::new(v.clone())),
        Data::Srv(a, b, c, n) => Record::SRV(lr::SRV::new(*a, *b, *c, dn(n))),
        Data::Soa(m, r, v) => Record::SOA(lr::SOA::new(dn(m), dn(r), v[0], v[1], v[2], v[3], v[4])),
        _ => return None,
    })
}
fn from_record(r: &Record<'_>) -> Data {
    match r {
        Record::A(a) => Data::A(a.addr().octets()),
        Record::AAAA(a) => Data::Aaaa(a.addr().octets()),
        Record::CNAME(c) => Data::Cname(labels(c.cname())),
        Record::NS(n) => Data::Ns(labels(n.nsdname())),
        Record::PTR(p) => Data::Ptr(labels(p.ptrdname())),
        Record::MX(m) => Data::Mx(m.preference(), labels(m.exchange())),
        Record::TXT(t) => Data::Txt(t.entries().map(|e| e.to_vec()).collect()),
        Record::SRV(s) => Data::Srv(s.priority(), s.weight(), s.port(), labels(s.target())),
        Record::SOA(s) => Data::Soa(labels(s.mname()), labels(s.rname()), [s.serial(), s.refresh(), s.retry(), s.expire(), s.minimum_ttl()]),
        _ => Data::Bad,
    }
}

fn lib_header(m: &NewMsg) -> Header {
    let mut h = Header::default();
    h.set_id(m.id);
    h.set_response(m.flags & F_QR != 0);
    h.set_authority(m.flags & F_AA != 0);
    h.set_truncated(m.flags & F_TC != 0);
    h.set_recursion_desired(m.flags & F_RD != 0);
    h.set_recursion_available(m.flags & F_RA != 0);
    h.set_opcode(cast::<u8, Opcode>((m.flags >> 11 & 15) as u8));
    h.set_rcode(cast::<u8, RCode>((m.flags & 15) as u8));
    h
}

const CANARY: u8 = 0x5a;

/// The record as the library's decoder gets it out of a message. Borrows from `b`.
fn relayed(b: &[u8]) -> Option<(DomainName, Record<'_>)> {
    let mut dec = MessageDecoder::new(b).ok()?.answers().ok()?;
    let rr = dec.next()?.ok()?;
    let name = rr.name().clone();
    let rec = rr.as_enum()?.ok()?;
    // SAFETY: a record borrows from the message, which outlives it
    Some((name, unsafe { std::mem::transmute::<Record<'_>, Record<'_>>(rec) }))
}

fn build(p: &Rc<Plan>) -> (Vec<u8>, Cod) {
    let m = &p.msg;
    let mut area = vec![CANARY; p.cap + 64];
    for b in &mut area[32..32 + p.cap] {
        *b = 0xee;
    }
    let names: Vec<DomainName> = m.qs.iter().map(|q| dn(&q.0)).collect();
    let upstream: Vec<Vec<Vec<u8>>> = m
        .secs
        .iter()
        .map(|s| s.iter().map(|r| if p.relay { NewMsg { flags: F_QR, qs: vec![(r.name.clone(), A, 1)], secs: [vec![r.clone()], vec![], vec![]], ..Default::default() }.encode(true) } else { vec![] }).collect())
        .collect();
    let recs: Vec<Vec<(DomainName, Record<'_>, &NewRr)>> = m
        .secs
        .iter()
        .zip(&upstream)
        .map(|(s, u)| {
            let one = |(r, b)| {
                let (r, b): (&NewRr, &Vec<u8>) = (r, b);
                let (n, x) = match relayed(b) {
                    Some(x) => x,
                    None => (dn(&r.name), to_record(&r.data)?),
                };
                Some((n, x, r))
            };
            s.iter().zip(u).filter_map(one).collect()
        })
        .collect();
    let mut complete = None;
    {
        let mut e = MessageEncoder::new(&mut area[32..32 + p.cap]);
        if p.header_first {
            e.set_header(lib_header(m));
        }
        for (n, q) in names.iter().zip(&m.qs) {
            for _ in 0..p.repeat.max(1) {
                e.question(EQ::new(n).ty(qt(q.1)).class(cast::<u16, QClass>(q.2)));
            }
        }
        let rr = |x: &'_ (DomainName, Record<'_>, &NewRr)| -> (Class, u32) { (cast(x.2.class), x.2.ttl) };
        let mut e = e.answers();
        for x in &recs[0] {
            let (c, t) = rr(x);
            e.add_answer(ERr::new(&x.0, &x.1).class(c).ttl(t));
        }
        let mut e = e.authority();
        for x in &recs[1] {
            let (c, t) = rr(x);
            e.add_authority(ERr::new(&x.0, &x.1).class(c).ttl(t));
        }
        let mut e = e.additional();
        for x in &recs[2] {
            let (c, t) = rr(x);
            e.add_additional(ERr::new(&x.0, &x.1).class(c).ttl(t));
        }
        if !p.header_first {
            e.set_header(lib_header(m));
        }
        if !p.drop_early {
            complete = Some(e.finish().map_err(|e| match e {
                Error::Truncated => "Truncated".to_string(),
                e => format!("{e:?}"),
            }));
        }
    }
    let canary = area[..32].iter().chain(&area[32 + p.cap..]).all(|b| *b == CANARY);
    let buf = area[32..32 + p.cap].to_vec();
    let end = match &complete {
        Some(Ok(n)) => (*n).min(p.cap),
        _ => p.cap,
    };
    (buf[..end].to_vec(), Cod::Built { plan: p.clone(), complete, buf: buf.into(), canary, end })
}

/// Builds and sends messages.
pub fn server_main(plans: Vec<Plan>) {
    let Ok(sock) = UdpSocket::bind("0.0.0.0:53") else { return };
    for p in plans {
        let p = Rc::new(p);
        let now = k().now;
        if p.at > now {
            k().sleep(p.at - now);
        }
        if dying() {
            return;
        }
        let (bytes, obs) = build(&p);
        app(obs);
        let _ = sock.send_to(&bytes, p.to);
    }
}

fn take_q(q: &DQ) -> (Name, u16, u16) {
    (labels(q.qname()), cast::<QType, u16>(q.qtype()), cast::<QClass, u16>(q.qclass()))
}
fn take_rr(r: &DRr<'_>) -> GotRr {
    GotRr {
        name: labels(r.name()),
        ty: cast::<Type, u16>(r.type_()),
        class: cast::<Class, u16>(r.class()),
        flush: r.cache_flush(),
        ttl: r.ttl(),
        raw: r.rdata().to_vec(),
        data: r.as_enum().map(|x| x.map_or(Data::Bad, |r| from_record(&r))),
    }
}

/// Takes a message apart. The bits of `mode` choose between iterating and skipping, per section, and
/// between `iter` and `next`.
pub fn decode(b: &[u8], mode: u32) -> Got {
    let mut g = Got::default();
    let fail = |g: &mut Got, s: usize| {
        g.errors += 1;
        if g.err.is_some() {
            g.after_error += 1;
        } else {
            g.err = Some(s);
        }
    };
    let mut dec = match MessageDecoder::new(b) {
        Ok(d) => d,
        Err(_) => {
            fail(&mut g, 4);
            return g;
        }
    };
    let h = dec.header();
    g.header = Some((
        h.id(),
        [h.is_response(), h.is_authority(), h.is_truncated(), h.is_recursion_desired(), h.is_recursion_available()],
        cast::<Opcode, u8>(h.opcode()) as u16,
        cast::<RCode, u8>(h.rcode()) as u16,
        [h.question_count(), h.answer_count(), h.authoritative_count(), h.additional_count()],
    ));
    let skip = |s: usize| mode >> s & 1 == 1;
    let by_next = mode >> 4 & 1 == 1;
    g.skipped = [skip(0), skip(1), skip(2), skip(3)];
    macro_rules! read {
        ($dec:expr, $s:expr, $take:expr, $dst:expr) => {
            if !skip($s) {
                // a few extra calls after the end: nothing may come any more
                let mut extra = 0;
                loop {
                    let x = if by_next { $dec.next().map(|r| r.map(|x| $take(&x))) } else { $dec.iter().next().map(|r| r.map(|x| $take(&x))) };
                    match x {
                        Some(Ok(x)) => {
                            if g.err.is_some() || extra > 0 {
                                g.after_error += 1;
                            }
                            $dst.push(x);
                        }
                        Some(Err(_)) => fail(&mut g, $s),
                        None => {
                            extra += 1;
                            if extra > 2 {
                                break;
                            }
                        }
                    }
                    if g.after_error > 3 {
                        break;
                    }
                }
            }
        };
    }
    read!(dec, 0, take_q, g.qs);
    let mut dec = match dec.answers() {
        Ok(d) => d,
        Err(_) => {
            fail(&mut g, 0);
            return g;
        }
    };
    read!(dec, 1, take_rr, g.secs[0]);
    let mut dec = match dec.authority() {
        Ok(d) => d,
        Err(_) => {
            fail(&mut g, 1);
            return g;
        }
    };
    read!(dec, 2, take_rr, g.secs[1]);
    let mut dec = match dec.additional() {
        Ok(d) => d,
        Err(_) => {
            fail(&mut g, 2);
            return g;
        }
    };
    read!(dec, 3, take_rr, g.secs[2]);
    g
}

pub fn receiver_main(n: usize, modes: Vec<u32>) {
    let sock = match UdpSocket::bind("0.0.0.0:5000") {
        Ok(s) => s,
        Err(e) => {
            app(Cod::Recv(Err(format!("{:?}", err(e)))));
            return;
        }
    };
    let mut buf = vec![0u8; 70000];
    for i in 0..n {
        let r: io::Result<(usize, SocketAddr)> = sock.recv_from(&mut buf);
        let Ok((len, _)) = r else { return };
        if dying() {
            return;
        }
        let mode = modes[i % modes.len()];
        let bytes: Rc<[u8]> = buf[..len].into();
        let got = Rc::new(decode(&bytes, mode));
        app(Cod::Decoded { bytes, mode, got });
    }
}

// ---- oracles ----------------------------------------------------------------------------------------

pub fn check(kn: &Kernel, rep: &mut Rep) {
    let mut ids = Vec::new();
    for h in &kn.hist {
        if !ids.contains(&h.task) {
            ids.push(h.task);
        }
        let Ev::App(x) = &h.ev else { continue };
        match x.downcast_ref::<Cod>() {
            Some(Cod::Built { plan, complete, buf, canary, end }) => check_built(rep, h.t, plan, complete, buf, *canary, *end),
            Some(Cod::Decoded { bytes, mode, got }) => check_decoded(rep, h.t, bytes, *mode, got),
            _ => {}
        }
    }
    for id in ids {
        exit(kn, rep, id);
    }
}

fn check_built(rep: &mut Rep, t: u64, p: &Plan, complete: &Option<Result<usize, String>>, buf: &[u8], canary: bool, end: usize) {
    rep.ob("C19");
    if !canary {
        rep.bad(&["C19"], "write outside the buffer", t, format!("cap {}", p.cap));
        return;
    }
    let want = &p.msg;
    let nq = want.qs.len() as u64 * p.repeat.max(1) as u64;
    let size: usize = 12
        + want.qs.iter().map(|q| name_len(&q.0) + 4).sum::<usize>() * p.repeat.max(1) as usize
        + want.secs.iter().flatten().map(|r| plain_size(&r.name, &r.data)).sum::<usize>();
    let bytes = &buf[..end];
    let Some(m) = parse(bytes) else {
        rep.bad(&["C19"], "no header written", t, hex(bytes));
        return;
    };
    let fits = size <= p.cap && nq <= 65535 && want.secs.iter().all(|s| s.len() <= 65535);
    // dropped without `finish`: the truncation flag tells
    let whole = match complete {
        Some(Ok(_)) => true,
        Some(Err(e)) if e == "Truncated" => false,
        Some(Err(e)) => {
            rep.bad(&["C19"], "odd encoder error", t, e.clone());
            return;
        }
        None => !m.tc(),
    };
    if whole && m.tc() || !whole && !m.tc() {
        rep.bad(&["C19"], "truncation flag disagrees with the result", t, format!("{complete:?} flags {:04x}", m.flags));
        return;
    }
    if (m.flags ^ want.flags) & !F_TC & 0xff8f != 0 || m.id != want.id {
        rep.bad(&["C19"], "header changed", t, format!("want id {} flags {:04x}, got id {} flags {:04x}", want.id, want.flags, m.id, m.flags));
    }
    let wantq = |i: usize| -> (&Name, u16, u16) {
        let q = &want.qs[i / p.repeat.max(1) as usize];
        (&q.0, q.1, q.2)
    };
    // complete and dropped: how much was written is not known
    let strict_end = complete.is_some() && whole;
    let mut items_bad = None;
    let mut total = 0u64;
    let all = nq + want.secs.iter().map(|s| s.len() as u64).sum::<u64>();
    let mut left = m.qs.len() + m.secs.iter().map(|s| s.len()).sum::<usize>();
    // a truncated message's last item may be cut short, and what follows it is the encoder's choice
    for (i, q) in m.qs.iter().enumerate() {
        left -= 1;
        let last = !whole && left == 0;
        if (i as u64) < nq && (&q.name, q.qtype, q.qclass) == wantq(i) {
            total += 1;
        } else if !last {
            items_bad = Some(format!("question {i}: {q:?}"));
            break;
        }
    }
    if items_bad.is_none() {
        'o: for s in 0..3 {
            for (i, r) in m.secs[s].iter().enumerate() {
                left -= 1;
                let last = !whole && left == 0;
                let ok = want.secs[s].get(i).is_some_and(|w| {
                    eq_exact(&w.name, &r.name) && w.ty == r.ty && w.class & 0x7fff == r.class && (w.class & 0x8000 != 0) == r.flush && w.ttl == r.ttl && w.data == r.data
                });
                if ok {
                    total += 1;
                } else if !last {
                    items_bad = Some(format!("section {} record {i}: {r:?}", s + 1));
                    break 'o;
                }
            }
        }
    }
    if let Some(x) = items_bad {
        rep.bad(&["C19"], if whole { "complete message wrong" } else { "truncated message is not a prefix" }, t, format!("{x}; {}", summary(bytes)));
        return;
    }
    if whole {
        let counts_ok = m.counts[0] as u64 == nq && (0..3).all(|s| m.counts[s + 1] as usize == want.secs[s].len());
        if total != all || !counts_ok || m.err.is_some() || (strict_end && m.end != m.len) {
            rep.bad(&["C19"], "complete message wrong", t, format!("{} of {} items, err {:?}, ends {} of {}: {}", total, all, m.err, m.end, m.len, summary(bytes)));
        }
    } else {
        if fits {
            rep.bad(&["C19"], "flagged truncated though it fits", t, format!("needs {size} of {}", p.cap));
        }
        // what was written are leading bytes of the plain encoding: nothing whole may be missing
        let room = p.cap;
        let mut used = 12;
        let mut whole_items = 0u64;
        'c: {
            for i in 0..nq {
                used += name_len(wantq(i as usize).0) + 4;
                if used > room {
                    break 'c;
                }
                whole_items += 1;
            }
            for r in want.secs.iter().flatten() {
                used += plain_size(&r.name, &r.data);
                if used > room {
                    break 'c;
                }
                whole_items += 1;
            }
        }
        if total < whole_items.min(65535) && nq <= 65535 {
            rep.bad(&["C19"], "truncated message drops items that fit", t, format!("{total} of {whole_items} fitting items: {}", summary(bytes)));
        }
    }
}

fn eq_exact(a: &Name, b: &Name) -> bool {
    a == b
}

fn check_decoded(rep: &mut Rep, t: u64, bytes: &[u8], mode: u32, g: &Got) {
    rep.ob("C18");
    let Some(m) = parse(bytes) else {
        if g.header.is_some() || g.err != Some(4) {
            rep.bad(&["C18"], "short header accepted", t, hex(bytes));
        }
        return;
    };
    let bits = [m.qr(), m.flags & F_AA != 0, m.tc(), m.flags & F_RD != 0, m.flags & F_RA != 0];
    if g.header != Some((m.id, bits, m.opcode(), m.rcode(), m.counts)) {
        rep.bad(&["C18"], "header", t, format!("{:?} from {}", g.header, hex(&bytes[..12])));
        return;
    }
    let ctx = || format!("mode {mode:05b}: {}\n  bytes {}", summary(bytes), hex(bytes));
    if g.after_error > 0 || g.errors > 1 {
        rep.bad(&["C18"], "something after the first error", t, format!("{} errors, {} after; {}", g.errors, g.after_error, ctx()));
        return;
    }
    // names with doubtful pointers may be refused; from there on nothing is comparable
    let mut stop = false;
    let mut refused = None;
    if !g.skipped[0] {
        for (i, q) in m.qs.iter().enumerate() {
            match g.qs.get(i) {
                Some(x) => {
                    if x.0 != q.name || x.1 != q.qtype || x.2 & 0x7fff != q.qclass & 0x7fff {
                        rep.bad(&["C18"], "question differs", t, format!("question {i}: {x:?}, expected {q:?}; {}", ctx()));
                        return;
                    }
                }
                None if q.soft => {
                    stop = true;
                    refused = Some(0);
                    break;
                }
                None => {
                    rep.bad(&["C18"], "question missing", t, format!("question {i} {q:?}; {}", ctx()));
                    return;
                }
            }
        }
        if !stop && g.qs.len() > m.qs.len() {
            rep.bad(&["C18"], "question invented", t, format!("{:?}; {}", g.qs[m.qs.len()], ctx()));
            return;
        }
    } else if m.qs.iter().any(|q| q.soft) && g.err == Some(0) {
        return;
    }
    if !stop {
        'o: for s in 0..3 {
            if g.skipped[s + 1] {
                if m.secs[s].iter().any(|q| q.soft) && g.err == Some(s + 1) {
                    return;
                }
                continue;
            }
            for (i, r) in m.secs[s].iter().enumerate() {
                match g.secs[s].get(i) {
                    Some(x) => {
                        let data_ok = match &x.data {
                            None => matches!(r.data, Data::Other(_)),
                            Some(_) if r.inexact => true,
                            Some(d) => *d == r.data,
                        };
                        let ok = x.name == r.name && x.ty == r.ty && x.class == r.class && x.flush == r.flush && x.ttl == r.ttl && x.raw == r.raw && data_ok;
                        if !ok {
                            rep.bad(&["C18"], "record differs", t, format!("section {} record {i}: {x:?}, expected {r:?}; {}", s + 1, ctx()));
                            return;
                        }
                    }
                    None if r.soft => {
                        refused = Some(s + 1);
                        break 'o;
                    }
                    None => {
                        rep.bad(&["C18"], "record missing", t, format!("section {} record {i} {r:?}; {}", s + 1, ctx()));
                        return;
                    }
                }
            }
            if g.secs[s].len() > m.secs[s].len() {
                rep.bad(&["C18"], "record invented", t, format!("section {} {:?}; {}", s + 1, g.secs[s].last(), ctx()));
                return;
            }
        }
    }
    if refused.is_some() {
        return;
    }
    // where the error shows up; a defect in the last section is not seen if that one is never read
    let want_err = match m.err {
        Some(3) if g.skipped[3] => None,
        e => e,
    };
    if g.err != want_err {
        rep.bad(&["C18"], "defect not reported", t, format!("error in section {:?}, expected {:?}; {}", g.err, want_err, ctx()));
    }
}
