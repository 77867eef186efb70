//! Reference automata for resolvers and discoverers.

use std::collections::BTreeSet;
use std::net::{IpAddr, SocketAddr};

use crate::kernel::{Ev, Hist, Kernel, Pkt, TaskId, US};
use crate::nodes::{tr_label, Op, Res, Spec, A as Ob};
use crate::o_adv::{check_socks, exit};
use crate::report::Rep;
use crate::wire::*;

/// Timers may be off by this much (SO_RCVTIMEO counts microseconds).
pub const TOL: u64 = 20 * US;

fn ob(h: &Hist) -> Option<&Ob> {
    match &h.ev {
        Ev::App(x) => x.downcast_ref::<Ob>(),
        _ => None,
    }
}

pub fn subseq<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}

// ---- what one response contributes to a resolver call ----------------------------------------------

#[derive(Debug)]
pub struct Ips {
    /// The call has to use it if `lower` is not empty.
    pub must: bool,
    pub lower: Vec<IpAddr>,
    pub upper: Vec<IpAddr>,
    /// Nothing about this datagram is ordinary.
    pub hostile: bool,
}

pub fn contributes(p: &Pkt, qname: &Name, qid: u16, spec: &Spec, servers: &[SocketAddr]) -> Ips {
    let none = |hostile| Ips { must: false, lower: vec![], upper: vec![], hostile };
    let Some(m) = parse(&p.data) else { return none(true) };
    if !m.qr() || m.id != qid {
        return none(true);
    }
    if matches!(m.err, Some(0) | Some(1)) && p.data.len() <= 1500 {
        return none(true);
    }
    if m.secs[0].iter().any(|r| r.data == Data::Bad && r.class == 1) {
        return none(true);
    }
    // names reachable from the question through this response's CNAME records
    let closure = |maybe: bool| -> Vec<IpAddr> {
        let okrec = |r: &Rr| r.class == 1 && (maybe || (!r.inexact && !r.soft));
        let mut known = vec![qname.clone()];
        loop {
            let n = known.len();
            for r in &m.secs[0] {
                if let Data::Cname(t) = &r.data {
                    if okrec(r) && known.iter().any(|k| eq_ci(k, &r.name)) && !known.iter().any(|k| eq_ci(k, t)) {
                        known.push(t.clone());
                    }
                }
            }
            if known.len() == n {
                break;
            }
        }
        m.secs[0]
            .iter()
            .filter(|r| okrec(r) && known.iter().any(|k| eq_ci(k, &r.name)))
            .filter_map(|r| match &r.data {
                Data::A(a) => Some(IpAddr::from(*a)),
                Data::Aaaa(a) => Some(IpAddr::from(*a)),
                _ => None,
            })
            .collect()
    };
    let upper = closure(true);
    let lower = closure(false);
    let from_server = servers.iter().any(|s| s.ip().is_multicast() || *s == p.from) || spec.multicast_ctor;
    let must = m.clean()
        && m.opcode() == 0
        && p.data.len() <= 1500
        && from_server
        && m.qs.iter().all(|q| eq_ci(&q.name, qname) && q.qclass & 0x7fff == 1);
    Ips { must, lower: if must { lower } else { vec![] }, upper, hostile: !must }
}

// ---- what one response contributes to a discoverer call --------------------------------------------

#[derive(Debug, Clone)]
pub struct Item {
    pub must: bool,
    pub data: ItemData,
}
#[derive(Debug, Clone, PartialEq)]
pub enum ItemData {
    /// Arguments of the callback.
    Report(Vec<Vec<u8>>),
    Srv(Name, u16),
    Txt(Vec<Vec<u8>>),
}

fn canon_tr(l: &[u8]) -> Option<Vec<u8>> {
    let l = l.to_ascii_lowercase();
    if l == b"_tcp" || l == b"_udp" {
        Some(l)
    } else {
        None
    }
}

pub fn op_name(op: &Op, domain: &Name) -> Name {
    let mut n = match op {
        Op::Types { .. } => nm("_services._dns-sd._udp"),
        Op::Browse { svc, tcp, .. } => vec![svc.clone(), tr_label(*tcp)],
        Op::Load { inst, svc, tcp } => vec![inst.clone(), svc.clone(), tr_label(*tcp)],
        Op::Resolve { name, .. } => return name.clone(),
        _ => vec![],
    };
    n.extend(domain.iter().cloned());
    n
}

pub fn op_types(op: &Op) -> Vec<u16> {
    match op {
        Op::Types { .. } | Op::Browse { .. } => vec![PTR],
        Op::Load { .. } => vec![SRV, TXT],
        Op::Resolve { .. } => vec![A, AAAA],
        _ => vec![],
    }
}

pub fn items(p: &Pkt, op: &Op, spec: &Spec, qid: u16) -> (Vec<Item>, bool) {
    let qname = op_name(op, &spec.domain);
    let Some(m) = parse(&p.data) else { return (vec![], true) };
    if !m.qr() || m.err == Some(0) && p.data.len() <= 1500 {
        return (vec![], true);
    }
    let clean = m.clean()
        && m.id == qid
        && m.opcode() == 0
        && p.data.len() <= 1500
        && (spec.server.ip().is_multicast() || p.from == spec.server)
        && m.qs.iter().all(|q| eq_ci(&q.name, &qname) && q.qclass & 0x7fff == 1);
    let mut v = Vec::new();
    for (sec, r) in m.secs.iter().enumerate().flat_map(|(i, s)| s.iter().map(move |r| (i, r))) {
        if !eq_ci(&r.name, &qname) || r.data == Data::Bad {
            continue;
        }
        let mut must = clean && sec == 0 && r.class == 1 && r.ttl > 0 && !r.inexact && !r.soft;
        if r.class != 1 && r.class != 255 && sec != 0 {
            continue;
        }
        let data = match (op, &r.data) {
            (Op::Types { .. }, Data::Ptr(n)) => {
                if n.len() < 2 {
                    continue;
                }
                let Some(tr) = canon_tr(&n[1]) else { continue };
                if n[1] != tr || n.len() < 3 || !n[0].starts_with(b"_") || n[2..] != spec.domain[..] {
                    must = false;
                }
                ItemData::Report(vec![n[0].clone(), tr])
            }
            (Op::Browse { svc, tcp, .. }, Data::Ptr(n)) => {
                if n.len() < 3 {
                    continue;
                }
                let Some(tr) = canon_tr(&n[2]) else { continue };
                if n[2] != tr || n.len() < 4 || n[1] != *svc || tr != tr_label(*tcp) || n[3..] != spec.domain[..] {
                    must = false;
                }
                ItemData::Report(vec![n[0].clone(), n[1].clone(), tr])
            }
            (Op::Load { .. }, Data::Srv(_, _, port, host)) => ItemData::Srv(host.clone(), *port),
            (Op::Load { .. }, Data::Txt(t)) => ItemData::Txt(t.clone()),
            _ => continue,
        };
        v.push(Item { must, data });
    }
    (v, !clean)
}

/// Does a returned TXT map match the strings of one TXT record?
pub fn txt_matches(strs: &[Vec<u8>], got: &[(String, Option<Vec<u8>>)]) -> bool {
    let mut seen: Vec<Vec<u8>> = Vec::new();
    let mut want: Vec<(Vec<u8>, Option<Vec<u8>>, bool)> = Vec::new();
    for s in strs {
        let (key, val) = match s.iter().position(|b| *b == b'=') {
            Some(i) => (s[..i].to_vec(), Some(s[i + 1..].to_vec())),
            None => (s.clone(), None),
        };
        if key.is_empty() {
            continue;
        }
        let low = key.to_ascii_lowercase();
        let plain = key.iter().all(|b| (0x20..0x7f).contains(b));
        if seen.contains(&low) {
            continue;
        }
        seen.push(low);
        want.push((key, val, plain));
    }
    let find = |k: &[u8]| got.iter().filter(|g| g.0.as_bytes() == k).count();
    for (k, v, must) in &want {
        let n = find(k);
        if *must && n != 1 || n > 1 {
            return false;
        }
        if n == 1 && !got.iter().any(|g| g.0.as_bytes() == &k[..] && g.1 == *v) {
            return false;
        }
    }
    got.iter().all(|g| want.iter().any(|w| w.0 == g.0.as_bytes()))
}

// ---- walking a client's history --------------------------------------------------------------------

pub struct Win<'a> {
    pub op: &'a Op,
    pub t0: u64,
    pub s0: u64,
    pub evs: &'a [&'a Hist],
    pub end: Option<(&'a Res, Option<u64>, u64, u64)>,
}

pub struct CliState {
    pub servers: Vec<SocketAddr>,
    pub timeout: u64,
    pub retr: u64,
    pub disc: u64,
    pub ctx: Vec<&'static str>,
}
impl CliState {
    fn new(s: &Spec) -> CliState {
        CliState { servers: vec![s.server], timeout: 500_000_000, retr: 300_000_000, disc: 1_000_000_000, ctx: vec![] }
    }
    fn add(&mut self, p: &'static str) {
        if !self.ctx.contains(&p) {
            self.ctx.push(p);
        }
    }
}

pub fn clients(k: &Kernel) -> Vec<TaskId> {
    let mut v = Vec::new();
    for h in &k.hist {
        if matches!(ob(h), Some(Ob::New(_))) && !v.contains(&h.task) {
            v.push(h.task);
        }
    }
    v
}

pub fn check(k: &Kernel, rep: &mut Rep) {
    for id in clients(k) {
        check_one(k, rep, id);
    }
}

/// Errno of injected failures in `evs`, in order (EINTR included).
fn injected(evs: &[&Hist]) -> Vec<(usize, i32)> {
    evs.iter()
        .enumerate()
        .filter_map(|(i, h)| match &h.ev {
            Ev::RecvErr { errno, injected: true, .. } => Some((i, *errno)),
            Ev::SetupErr { errno, injected: true, .. } => Some((i, *errno)),
            Ev::Send { err: Some(e), .. } => Some((i, *e)),
            _ => None,
        })
        .collect()
}

fn check_one(k: &Kernel, rep: &mut Rep, id: TaskId) {
    let name = k.tasks[id].name.clone();
    let evs: Vec<&Hist> = k.hist.iter().filter(|h| h.task == id && !matches!(h.ev, Ev::Log { .. })).collect();
    let mut spec: Option<&Spec> = None;
    let mut st: Option<CliState> = None;
    let mut i = 0;
    while i < evs.len() {
        let h = evs[i];
        match ob(h) {
            Some(Ob::New(s)) => {
                let ctx = st.take().map(|s| s.ctx).unwrap_or_default();
                spec = Some(s);
                let mut n = CliState::new(s);
                n.ctx = ctx;
                st = Some(n);
                let j = (i + 1..evs.len()).find(|&j| matches!(ob(evs[j]), Some(Ob::NewEnd(_)))).unwrap_or(evs.len());
                let inj = injected(&evs[i..j.min(evs.len())]);
                if let Some(Some(Ob::NewEnd(r))) = evs.get(j).map(|h| ob(h)) {
                    match r {
                        Res::Unit => {
                            if let Some((_, e)) = inj.iter().find(|x| x.1 != libc::EINTR) {
                                rep.bad(&["C13"], "set-up error swallowed", evs[j].t, format!("{name}: constructor succeeded after errno {e}"));
                            }
                            rep.ob("C13");
                        }
                        Res::Err { errno, .. } => {
                            let ok = errno.is_some_and(|e| inj.iter().any(|x| x.1 == e));
                            if !ok {
                                rep.bad(&["C13", "C06", "C12"], "constructor fails", evs[j].t, format!("{name}: {r:?} injected {inj:?}"));
                            }
                            rep.ob("C13");
                            st.as_mut().unwrap().add("C13");
                        }
                        _ => {}
                    }
                    // whatever was sent or received in a constructor is odd
                    if evs[i..j].iter().any(|h| matches!(h.ev, Ev::Send { .. } | Ev::Recv { .. })) {
                        rep.bad(&["C06", "C10"], "traffic in constructor", evs[i].t, name.clone());
                    }
                    i = j;
                }
            }
            Some(Ob::Start(op)) => {
                let j = (i + 1..evs.len()).find(|&j| matches!(ob(evs[j]), Some(Ob::End { .. }))).unwrap_or(evs.len());
                let end = match evs.get(j).map(|h| ob(h)) {
                    Some(Some(Ob::End { res, unread })) => Some((res, *unread, evs[j].t, evs[j].stall)),
                    _ => None,
                };
                let w = Win { op, t0: h.t, s0: h.stall, evs: &evs[i + 1..j.min(evs.len())], end };
                let (s, c) = (spec.unwrap(), st.as_mut().unwrap());
                match op {
                    Op::Resolve { .. } => resolver_win(rep, &name, s, c, &w),
                    Op::Types { .. } | Op::Browse { .. } | Op::Load { .. } => discoverer_win(rep, &name, s, c, &w),
                    _ => setter_win(rep, &name, s, c, &w),
                }
                i = j;
            }
            Some(Ob::Socks { have, want }) => check_socks(rep, h.t, &name, *have, *want),
            _ => {}
        }
        i += 1;
    }
    exit(k, rep, id);
    if k.tasks[id].exit.is_none() || (k.tasks[id].dying && !evs.iter().any(|h| matches!(h.ev, Ev::Killed))) {
        rep.bad(&["*"], "call never returns", k.now, format!("{name} is still busy when nothing is left to happen"));
    }
}

fn setter_win(rep: &mut Rep, name: &str, spec: &Spec, st: &mut CliState, w: &Win) {
    let Some((res, _, t, _)) = w.end else { return };
    let inj = injected(w.evs);
    let fine = |rep: &mut Rep| match res {
        Res::Unit => {
            if let Some((_, e)) = inj.iter().find(|x| x.1 != libc::EINTR) {
                rep.bad(&["C13"], "error swallowed by setter", t, format!("{name}: {:?} errno {e}", w.op));
            }
            true
        }
        Res::Err { errno, .. } if errno.is_some_and(|e| inj.iter().any(|x| x.1 == e)) => {
            rep.ob("C13");
            false
        }
        _ => {
            rep.bad(&["C13", "C06", "C10"], "setter fails", t, format!("{name}: {:?} -> {res:?}", w.op));
            false
        }
    };
    match w.op {
        Op::AddServer(a) => {
            let bad = st.servers[0].ip().is_multicast() || a.is_ipv4() != st.servers[0].is_ipv4();
            rep.ob("C06");
            match (bad, res) {
                (false, Res::Unit) => st.servers.push(*a),
                (true, Res::Panicked) => {}
                _ => rep.bad(&["C06"], "add_server", t, format!("{name}: add_server({a}) to {:?} -> {res:?}", st.servers)),
            }
        }
        // a receive timeout of zero means none at all to the operating system: refused
        Op::SetTimeout(0) | Op::SetRetransmit(0) => {
            rep.ob("C14");
            let refused = matches!(res, Res::Err { kind: std::io::ErrorKind::InvalidInput, .. });
            if !refused && !matches!(res, Res::Err { errno: Some(e), .. } if inj.iter().any(|x| x.1 == *e)) {
                rep.bad(&["C14", if spec.resolver { "C06" } else { "C10" }], "zero timeout accepted", t, format!("{name}: {:?} -> {res:?}", w.op));
                if *res == Res::Unit {
                    st.timeout = if spec.resolver { 0 } else { st.timeout };
                    st.retr = if spec.resolver { st.retr } else { 0 };
                }
            }
        }
        Op::SetTimeout(x) => {
            if fine(rep) {
                st.timeout = *x;
            }
        }
        Op::SetRetransmit(x) => {
            if fine(rep) {
                st.retr = *x;
            }
        }
        Op::SetDiscovery(x) => {
            if fine(rep) {
                st.disc = *x;
            }
        }
        _ => {}
    }
}

/// Checks one sent query; returns its ID.
fn query_content(rep: &mut Rep, t: u64, name: &str, op: &Op, spec: &Spec, data: &[u8], props: &[&'static str]) -> u16 {
    let want = op_types(op);
    let qn = op_name(op, &spec.domain);
    let Some(m) = parse(data) else {
        rep.bad(props, "query without header", t, format!("{name}: {}", hex(data)));
        return 0;
    };
    let mut types: Vec<u16> = m.qs.iter().map(|q| q.qtype).collect();
    types.sort();
    let mut w2 = want.clone();
    w2.sort();
    let ok = m.clean()
        && !m.qr()
        && m.opcode() == 0
        && m.rcode() == 0
        && !m.tc()
        && types == w2
        && m.qs.iter().all(|q| eq_ci(&q.name, &qn) && q.qclass & 0x7fff == 1)
        && m.secs[0].is_empty()
        && m.secs[1].is_empty()
        && m.secs[2].iter().all(|r| r.ty == 41)
        && (!spec.resolver || m.flags & F_RD != 0);
    if !ok {
        rep.bad(props, "wrong query", t, format!("{name}: {op:?} sent {}", summary(data)));
    }
    m.id
}

fn is_timeout(r: &Res) -> bool {
    use std::io::ErrorKind::*;
    matches!(r, Res::Err { kind: WouldBlock | TimedOut, .. })
}

fn resolver_win(rep: &mut Rep, name: &str, spec: &Spec, st: &mut CliState, w: &Win) {
    let Op::Resolve { name: qname, .. } = w.op else { return };
    if refused(rep, &["C06"], name, qname, w) {
        return;
    }
    let inj = injected(w.evs);
    let ctx0 = st.ctx.clone();
    let mut ctx = ctx0.clone();
    let mut sent: Vec<(SocketAddr, Option<i32>)> = Vec::new();
    let mut qid = None;
    let mut last = (w.t0, w.s0);
    let mut recvs: Vec<(&Pkt, u64)> = Vec::new();
    for h in w.evs {
        match &h.ev {
            Ev::Send { to, data, err, .. } => {
                sent.push((*to, *err));
                let id = query_content(rep, h.t, name, w.op, spec, data, &["C06"]);
                qid.get_or_insert(id);
                last = (h.t, h.stall);
            }
            Ev::Recv { pkt, .. } => {
                recvs.push((pkt, h.t));
                last = (h.t, h.stall);
            }
            _ => {}
        }
    }
    let qid = qid.unwrap_or(0);
    let contrib: Vec<Ips> = recvs.iter().map(|(p, _)| contributes(p, qname, qid, spec, &st.servers)).collect();
    if contrib.iter().any(|c| c.hostile) && !ctx.contains(&"C07") {
        ctx.push("C07");
    }
    let with = |p: &[&'static str], c: &[&'static str]| [p, c].concat();

    // every server asked once
    let ended_by_error = inj.iter().any(|x| x.1 != libc::EINTR);
    if w.end.is_some() && !matches!(w.end, Some((Res::Cancelled, ..))) {
        for s in &st.servers {
            let n = sent.iter().filter(|x| x.0 == *s && x.1.is_none()).count();
            let copies = st.servers.iter().filter(|x| *x == s).count();
            if n > copies || (n < copies && !ended_by_error && inj.is_empty()) {
                rep.bad(&with(&["C06"], &ctx0), "servers asked", last.0, format!("{name}: {n} queries to {s}"));
                break;
            }
        }
        if let Some(x) = sent.iter().find(|x| !st.servers.contains(&x.0)) {
            rep.bad(&["C06"], "query to a stranger", last.0, format!("{name}: sent to {}", x.0));
        }
        rep.ob("C06");
    }

    let Some((res, unread, t, stall)) = w.end else { return };
    let slack = TOL + (stall - last.1);
    rep.ob("C05");
    for p in &ctx {
        rep.ob(p);
    }
    match res {
        Res::Ips(ips) => {
            if let Some((_, e)) = inj.iter().find(|x| x.1 != libc::EINTR) {
                rep.bad(&["C13"], "error swallowed", t, format!("{name}: errno {e} but the call returned {ips:?}"));
            }
            let fits = |c: &Ips| subseq(&c.lower, ips) && subseq(ips, &c.upper);
            match contrib.last() {
                Some(c) if !ips.is_empty() && fits(c) => {}
                _ => {
                    let extra = |c: &Ips| !subseq(ips, &c.upper);
                    let mut p = vec!["C05"];
                    if let Some(c) = contrib.last() {
                        if !extra(c) && c.must {
                            p = vec!["C05", "C06"];
                        }
                    }
                    rep.bad(
                        &with(&p, &ctx),
                        if contrib.last().is_some_and(|c| extra(c)) { "addresses that do not answer" } else { "addresses missing" },
                        t,
                        format!("{name}: resolve {} returned {ips:?}, last response allows {:?}..{:?}", show(qname), contrib.last().map(|c| &c.lower), contrib.last().map(|c| &c.upper)),
                    );
                }
            }
            if t > last.0 + slack {
                rep.bad(&with(&["C06"], &ctx), "answer returned late", t, format!("{name}: {} us after it was received", (t - last.0) / US));
            }
        }
        r if is_timeout(r) && !inj.iter().any(|x| x.1 == libc::EAGAIN) => {
            if let Some((_, e)) = inj.iter().find(|x| x.1 != libc::EINTR) {
                rep.bad(&["C13"], "error turned into a time-out", t, format!("{name}: errno {e}"));
            }
            let due = last.0.saturating_add(st.timeout);
            if t + TOL < due {
                rep.bad(&with(&["C06"], &ctx), "timed out early", t, format!("{name}: {} us after the last activity, timeout {} us", (t - last.0) / US, st.timeout / US));
            } else if t > due.saturating_add(slack) && inj.is_empty() {
                rep.bad(&with(&["C06"], &ctx), "timed out late", t, format!("{name}: {} us after the last activity, timeout {} us", (t - last.0) / US, st.timeout / US));
            }
            if let Some(u) = unread {
                if u + slack < t || u + TOL < due {
                    rep.bad(&with(&["C06"], &ctx), "datagram ignored", t, format!("{name}: delivered at {u} and never read"));
                }
            }
        }
        Res::Err { errno, kind } => {
            if !errno.is_some_and(|e| inj.iter().any(|x| x.1 == e)) {
                rep.bad(&with(&["C13", "C07", "C06"], &ctx), "call fails for no reason", t, format!("{name}: {kind:?} {errno:?}"));
            }
            rep.ob("C13");
        }
        Res::Cancelled => {}
        _ => {}
    }
    // a usable answer must have ended the call
    for (i, c) in contrib.iter().enumerate() {
        let lastone = i + 1 == contrib.len();
        if c.must && !c.lower.is_empty() && !(lastone && matches!(res, Res::Ips(_))) {
            if lastone && matches!(res, Res::Cancelled) {
                continue;
            }
            if lastone && matches!(res, Res::Err { .. }) && !is_timeout(res) {
                continue;
            }
            rep.bad(&with(&["C06", "C05"], &ctx), "answer not used", recvs[i].1, format!("{name}: {} did not end the call", summary(&recvs[i].0.data)));
            break;
        }
    }
    after(st, res, &inj, contrib.iter().any(|c| c.hostile));
}

/// A name that does not fit a DNS message has to be refused; nothing may be sent for it.
fn refused(rep: &mut Rep, props: &[&'static str], name: &str, n: &Name, w: &Win) -> bool {
    let len = 1 + n.iter().map(|l| 1 + l.len()).sum::<usize>();
    if n.iter().any(|l| l.is_empty() || l.len() > 63) {
        // text that is no name
        if let Some((res, _, t, _)) = w.end {
            if !matches!(res, Res::Err { errno: None, .. } | Res::Cancelled) || is_timeout(res) {
                rep.bad(props, "text that is no name is accepted", t, format!("{name}: {:?} {res:?}", w.op));
            } else if w.evs.iter().any(|h| matches!(h.ev, Ev::Send { .. } | Ev::Recv { .. } | Ev::RecvErr { .. })) {
                rep.bad(props, "query for a name that is refused", t, format!("{name}: {:?}", w.op));
            }
        }
        for p in props {
            rep.ob(p);
        }
        return true;
    }
    let Some((Res::Err { errno: None, .. }, _, t, _)) = w.end else { return false };
    if len <= 255 || w.evs.iter().any(|h| matches!(h.ev, Ev::Recv { .. } | Ev::RecvErr { .. })) {
        return false;
    }
    if w.evs.iter().any(|h| matches!(h.ev, Ev::Send { .. })) {
        rep.bad(props, "query for a name that is refused", t, format!("{name}: {} bytes", len));
    }
    for p in props {
        rep.ob(p);
    }
    true
}

/// What the object has been through.
fn after(st: &mut CliState, res: &Res, inj: &[(usize, i32)], hostile: bool) {
    if hostile {
        st.add("C07");
    }
    if *res == Res::Cancelled {
        st.add("C15");
    }
    if !inj.is_empty() {
        st.add("C13");
    }
}

fn discoverer_win(rep: &mut Rep, name: &str, spec: &Spec, st: &mut CliState, w: &Win) {
    let inj = injected(w.evs);
    let ctx0 = st.ctx.clone();
    let mut ctx = ctx0.clone();
    let with = |p: &[&'static str], c: &[&'static str]| [p, c].concat();
    let op = w.op;
    if refused(rep, &["C10"], name, &op_name(op, &spec.domain), w) {
        return;
    }
    let deadline = w.t0.saturating_add(st.disc);
    let brk = match op {
        Op::Types { brk } | Op::Browse { brk, .. } => *brk,
        _ => None,
    };
    let load = matches!(op, Op::Load { .. });

    let mut last = (w.t0, w.s0);
    let mut first_sent = false;
    let mut qid = 0;
    // as reported, and without regard to case
    let mut seen: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
    let mut seen_ci: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
    let lower = |l: &Vec<Vec<u8>>| l.iter().map(|x| x.to_ascii_lowercase()).collect::<Vec<_>>();
    let mut group: Vec<Item> = Vec::new();
    let mut gpos = 0usize;
    let mut srv: Vec<Item> = Vec::new();
    let mut txt: Vec<Item> = Vec::new();
    let mut calls = 0u32;
    let mut broke: Option<(u64, u64)> = None;
    let mut any_hostile = false;
    let mut quiet_err = false;
    let upto = |g: &[Item], from: usize, to: usize, seen_ci: &BTreeSet<Vec<Vec<u8>>>| -> Option<Vec<Vec<u8>>> {
        // an obligatory report between two positions that was not made
        for (i, it) in g[from..to].iter().enumerate() {
            if let ItemData::Report(l) = &it.data {
                let ci = |s: &Vec<Vec<u8>>| s.len() == l.len() && s.iter().zip(l).all(|(a, b)| a.eq_ignore_ascii_case(b));
                let dup = seen_ci.contains(&lower(l)) || g[from..from + i].iter().any(|o| matches!(&o.data, ItemData::Report(s) if ci(s)));
                if it.must && !dup {
                    return Some(l.clone());
                }
            }
        }
        None
    };
    let fmtl = |l: &Vec<Vec<u8>>| show(l);
    for h in w.evs {
        match &h.ev {
            Ev::Send { to, data, err, .. } => {
                if let Some(x) = upto(&group, gpos, group.len(), &seen_ci) {
                    rep.bad(&with(&["C08"], &ctx), "not reported", h.t, format!("{name}: {} missing", fmtl(&x)));
                    group.clear();
                    gpos = 0;
                }
                qid = query_content(rep, h.t, name, op, spec, data, &["C10"]);
                if *to != spec.server {
                    rep.bad(&["C10"], "query to a stranger", h.t, format!("{name}: {to}"));
                }
                let due = if first_sent { last.0.saturating_add(st.retr) } else { w.t0 };
                let slack = TOL + (h.stall - last.1);
                if broke.is_some() {
                    rep.bad(&["C08"], "query after stop", h.t, name.to_string());
                } else if h.t + TOL < due && !quiet_err {
                    rep.bad(&with(&["C10"], &ctx), "query repeated early", h.t, format!("{name}: {} us after the last activity", (h.t - last.0) / US));
                } else if h.t > due.saturating_add(slack) && inj.is_empty() {
                    rep.bad(&with(&["C10"], &ctx), "query repeated late", h.t, format!("{name}: {} us after the last activity, expected {}", (h.t - last.0) / US, st.retr / US));
                } else if first_sent && h.t > deadline.saturating_add(slack) {
                    rep.bad(&with(&["C10"], &ctx), "query after the deadline", h.t, name.to_string());
                }
                if first_sent {
                    rep.ob("C10");
                }
                first_sent = true;
                last = (h.t, h.stall);
                quiet_err = err.is_some();
            }
            Ev::Recv { pkt, .. } => {
                if let Some(x) = upto(&group, gpos, group.len(), &seen_ci) {
                    rep.bad(&with(&["C08"], &ctx), "not reported", h.t, format!("{name}: {} missing", fmtl(&x)));
                }
                // silence must not have lasted longer than the retransmit timeout
                let slack = TOL + (h.stall - last.1);
                let due = (last.0.saturating_add(st.retr)).min(deadline);
                if h.t > due.saturating_add(slack) && inj.is_empty() {
                    let p: &[&'static str] = &["C10"];
                    rep.bad(&with(p, &ctx), "no retransmission", h.t, format!("{name}: waited {} us", (h.t - last.0) / US));
                }
                if broke.is_some() {
                    rep.bad(&["C08"], "kept listening after stop", h.t, name.to_string());
                }
                let (its, hostile) = items(pkt, op, spec, qid);
                if hostile {
                    any_hostile = true;
                    if !ctx.contains(&"C07") {
                        ctx.push("C07");
                    }
                }
                for it in &its {
                    match it.data {
                        ItemData::Srv(..) => srv.push(it.clone()),
                        ItemData::Txt(..) => txt.push(it.clone()),
                        _ => {}
                    }
                }
                group = its;
                gpos = 0;
                last = (h.t, h.stall);
                rep.ob("C09");
            }
            Ev::App(_) => {
                let Some(Ob::Cb(l)) = ob(h) else { continue };
                calls += 1;
                rep.ob("C08");
                if broke.is_some() {
                    rep.bad(&with(&["C08"], &ctx), "callback after stop", h.t, format!("{name}: {}", fmtl(l)));
                }
                if seen.contains(l) {
                    rep.bad(&with(&["C08"], &ctx), "reported twice", h.t, format!("{name}: {}", fmtl(l)));
                } else {
                    match (gpos..group.len()).find(|&i| group[i].data == ItemData::Report(l.clone())) {
                        Some(i) => {
                            if let Some(x) = upto(&group, gpos, i, &seen_ci) {
                                rep.bad(&with(&["C08"], &ctx), "not reported in order", h.t, format!("{name}: {} before {}", fmtl(&x), fmtl(l)));
                            }
                            gpos = i + 1;
                        }
                        None if group.iter().any(|g| g.data == ItemData::Report(l.clone())) => {
                            rep.bad(&with(&["C08"], &ctx), "not reported in order", h.t, format!("{name}: {}", fmtl(l)));
                        }
                        None => {
                            rep.bad(&with(&["C09"], &ctx), "reported but not asked for", h.t, format!("{name}: {op:?} reported {}", fmtl(l)));
                        }
                    }
                    seen_ci.insert(lower(l));
                    seen.insert(l.clone());
                }
                if brk == Some(calls) {
                    broke = Some((h.t, h.stall));
                }
            }
            _ => {}
        }
    }
    let Some((res, unread, t, stall)) = w.end else { return };
    for p in &ctx {
        rep.ob(p);
    }
    if broke.is_none() && *res != Res::Cancelled {
        if let Some(x) = upto(&group, gpos, group.len(), &seen_ci) {
            rep.bad(&with(&["C08"], &ctx), "not reported", t, format!("{name}: {} missing at the end", fmtl(&x)));
        }
    }
    let slack = TOL + (stall - w.s0);
    let real_err = inj.iter().find(|x| x.1 != libc::EINTR);
    let mut on_time = |rep: &mut Rep, early_ok: bool| {
        rep.ob("C10");
        if t + TOL < deadline && !early_ok {
            rep.bad(&with(&["C10"], &ctx), "ended early", t, format!("{name}: {op:?} after {} us of {}", (t - w.t0) / US, st.disc / US));
        } else if t > deadline.saturating_add(slack) && inj.is_empty() {
            rep.bad(&with(&["C10"], &ctx), "ended late", t, format!("{name}: {op:?} after {} us of {}", (t - w.t0) / US, st.disc / US));
        }
        if !early_ok {
            if let Some(u) = unread {
                if u.max(w.t0) + slack < t.min(deadline) {
                    rep.bad(&with(&["C08", "C10"], &ctx), "datagram ignored", t, format!("{name}: delivered at {u} and never read"));
                }
            }
        }
    };
    match res {
        Res::Unit if !load => {
            if let Some((_, e)) = real_err {
                rep.bad(&["C13"], "error swallowed", t, format!("{name}: errno {e}"));
            }
            match broke {
                Some((bt, bs)) => {
                    if t > bt + TOL + (stall - bs) {
                        rep.bad(&["C08"], "slow to stop", t, format!("{name}: {} us after the callback", (t - bt) / US));
                    }
                }
                None => on_time(rep, false),
            }
        }
        Res::Details { host, port, txt: got, odd } => {
            rep.ob("C11");
            if let Some(k) = odd {
                rep.bad(&["C11"], "looking up a TXT key", t, format!("{name}: {k:?} in {got:?}"));
            }
            if let Some((_, e)) = real_err {
                rep.bad(&["C13"], "error swallowed", t, format!("{name}: errno {e}"));
            }
            if !srv.iter().any(|i| matches!(&i.data, ItemData::Srv(h, p) if h == host && p == port)) {
                rep.bad(&with(&["C09", "C11"], &ctx), "details not published for this instance", t, format!("{name}: {op:?} -> {} {port}; received {srv:?}", show(host)));
            }
            let must_txt = txt.iter().any(|i| i.must);
            let ok = (got.is_empty() && !must_txt) || txt.iter().any(|i| matches!(&i.data, ItemData::Txt(s) if txt_matches(s, got)));
            if !ok {
                if got.is_empty() {
                    rep.bad(&with(&["C11"], &ctx), "TXT data lost", t, format!("{name}: {op:?} received {txt:?}"));
                } else {
                    rep.bad(&with(&["C09", "C11"], &ctx), "wrong TXT data", t, format!("{name}: {op:?} returned {got:?}, received {txt:?}"));
                }
            }
            on_time(rep, !srv.is_empty() && !txt.is_empty());
        }
        Res::Err { .. } if load && is_timeout(res) && !inj.iter().any(|x| x.1 == libc::EAGAIN) => {
            if let Some((_, e)) = real_err {
                rep.bad(&["C13"], "error turned into a time-out", t, format!("{name}: errno {e}"));
            }
            rep.ob("C11");
            if srv.iter().any(|i| i.must) {
                rep.bad(&with(&["C11"], &ctx), "details received but not returned", t, format!("{name}: {op:?} received {srv:?}"));
            }
            on_time(rep, false);
        }
        Res::Err { errno, kind } => {
            rep.ob("C13");
            if !errno.is_some_and(|e| inj.iter().any(|x| x.1 == e)) {
                rep.bad(&with(&["C13", "C07", "C10"], &ctx), "call fails for no reason", t, format!("{name}: {op:?} {kind:?} {errno:?}"));
            }
        }
        _ => {}
    }
    if !first_sent && *res != Res::Cancelled && inj.is_empty() {
        rep.bad(&["C10"], "no query sent", t, format!("{name}: {op:?}"));
    }
    after(st, res, &inj, any_hostile);
}
