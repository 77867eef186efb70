//! Reference model of an advertiser, checked against everything its node received and sent.

use crate::tape::HashMap;
use std::net::SocketAddr;
use std::rc::Rc;

use crate::kernel::{Ev, Exit, Hist, Kernel, Pkt, TaskId};
use crate::nodes::{AdvCfg, Mode, Res, A as Ob};
use crate::report::Rep;
use crate::wire::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// Must not be answered, and why.
    No(&'static str),
    /// Doubtful: an answer is optional, but if given must be right.
    May,
    Must,
}

pub struct Expect {
    pub kind: Kind,
    /// Matching records in question order, with repetitions.
    pub recs: Vec<Rc<Rec>>,
    /// Further records that may be served: matches among what a refused registration left behind.
    pub opt: Vec<Rc<Rec>>,
}

pub fn type_matches(q: u16, t: u16) -> bool {
    q == t || q == ANY
}
pub fn class_matches(q: u16) -> bool {
    let c = q & 0x7fff;
    c == 1 || c == 255
}

pub fn expect(data: &[u8], records: &[Rc<Rec>], optional: &[Rc<Rec>]) -> Expect {
    let no = |w| Expect { kind: Kind::No(w), recs: vec![], opt: vec![] };
    let Some(m) = parse(data) else { return no("header") };
    if m.qr() {
        return no("response");
    }
    if m.opcode() != 0 {
        return no("opcode");
    }
    if m.rcode() != 0 {
        return no("rcode");
    }
    let (mut recs, mut opt) = (Vec::new(), Vec::new());
    for q in &m.qs {
        for (i, r) in records.iter().chain(optional).enumerate() {
            if eq_ci(&q.name, &r.n) && type_matches(q.qtype, type_of(&r.d)) && class_matches(q.qclass) {
                if i < records.len() { &mut recs } else { &mut opt }.push(r.clone());
            }
        }
    }
    if data.len() > 1500 {
        // only the first 1500 bytes can be looked at
        return Expect { kind: Kind::May, recs, opt };
    }
    if m.err == Some(0) {
        return no("malformed");
    }
    let sure = m.clean() && !m.tc();
    Expect { kind: if sure { Kind::Must } else { Kind::May }, recs, opt }
}

/// Name without case, data with the strings of a TXT record in a fixed order (their order means nothing).
fn canon(x: &(Name, Data)) -> (Name, Data) {
    let n = x.0.iter().map(|l| l.to_ascii_lowercase()).collect();
    let mut d = x.1.clone();
    if let Data::Txt(v) = &mut d {
        v.sort();
    }
    (n, d)
}

/// A record that an advertiser holds.
pub struct Rec {
    n: Name,
    d: Data,
    key: (Name, Data),
    size: usize,
}
pub fn recs_of(v: Vec<(Name, Data)>) -> Vec<Rc<Rec>> {
    v.into_iter()
        .map(|(n, d)| {
            let size = plain_size(&n, &d);
            let x = (n, d);
            let key = canon(&x);
            Rc::new(Rec { n: x.0, d: x.1, key, size })
        })
        .collect()
}

/// How often each record occurs.
#[derive(Default)]
struct Bag(HashMap<(Name, Data), usize>);
impl Bag {
    fn new(v: &[Rc<Rec>]) -> Bag {
        let mut n: HashMap<*const Rec, (usize, &Rc<Rec>)> = HashMap::default();
        for x in v {
            n.entry(Rc::as_ptr(x)).or_insert((0, x)).0 += 1;
        }
        let mut b = Bag::default();
        for (c, x) in n.into_values() {
            *b.0.entry(x.key.clone()).or_insert(0) += c;
        }
        b
    }
    fn add(&mut self, key: (Name, Data)) -> usize {
        let c = self.0.entry(key).or_insert(0);
        *c += 1;
        *c
    }
    fn has(&self, key: &(Name, Data)) -> usize {
        self.0.get(key).copied().unwrap_or(0)
    }
}

/// Does the receive buffer cut this datagram? (beyond 1500 bytes everything is optional)
fn check_reply(rep: &mut Rep, t: u64, q: &Pkt, ex: &Expect, to: SocketAddr, data: &[u8], ctx: &[&'static str]) {
    let all = |p: &[&'static str]| {
        let mut v = p.to_vec();
        v.extend(ctx);
        v
    };
    if to != q.from {
        rep.bad(&all(&["C02"]), "reply to someone else", t, format!("query from {} but reply sent to {to}", q.from));
    }
    if let Kind::No(w) = ex.kind {
        let p: &[&'static str] = if matches!(w, "malformed" | "header") { &["C03"] } else { &["C02"] };
        rep.bad(&all(p), format!("reply to {w}"), t, format!("replied {} to {}", summary(data), summary(&q.data)));
        return;
    }
    let Some(m) = parse(data) else {
        rep.bad(&all(&["C02", "C04"]), "reply without header", t, hex(data));
        return;
    };
    let qid = parse(&q.data).unwrap().id;
    if m.id != qid {
        rep.bad(&all(&["C02"]), "reply id", t, format!("query id {qid} reply id {}", m.id));
    }
    if !m.qr() || m.flags & F_AA == 0 || m.flags & !(F_QR | F_AA | F_TC) != 0 {
        rep.bad(&all(&["C02"]), "reply flags", t, format!("flags {:04x}", m.flags));
        return;
    }
    if data.len() > 1500 {
        rep.bad(&all(&["C04"]), "reply too long", t, format!("{} bytes", data.len()));
    }
    let may: Vec<Rc<Rec>> = ex.recs.iter().chain(&ex.opt).cloned().collect();
    if may.is_empty() {
        rep.bad(&all(&["C01"]), "reply to unmatched query", t, format!("{} answered with {}", summary(&q.data), summary(data)));
        return;
    }
    let full: usize = 12 + may.iter().map(|r| r.size).sum::<usize>();
    let got: Vec<(Name, Data)> = m.secs[0].iter().map(|r| (r.name.clone(), r.data.clone())).collect();
    let may_bag = Bag::new(&may);
    let mut seen = Bag::default();
    if m.tc() {
        if full <= 1500 {
            rep.bad(&all(&["C04"]), "truncation flag on a reply that fits", t, format!("{full} bytes of records; {}", summary(data)));
            return;
        }
        rep.ob("C04");
        // everything but the last item must be right
        let n = if m.err.is_some() && m.end < data.len() { got.len() } else { got.len().saturating_sub(1) };
        for (i, x) in got[..n].iter().enumerate() {
            let key = canon(x);
            if may_bag.has(&key) < seen.add(key) {
                rep.bad(&all(&["C04", "C01"]), "wrong record in truncated reply", t, format!("record {i} {} {:?} in {}", show(&x.0), x.1, summary(data)));
                return;
            }
            let r = &m.secs[0][i];
            if r.class != 1 || r.ttl != 120 {
                rep.bad(&all(&["C04", "C01"]), "class or ttl in truncated reply", t, format!("{r:?}"));
                return;
            }
        }
        let each_fits = may.iter().all(|r| r.size <= 1488);
        if each_fits && n == 0 && got.len() < 2 {
            rep.bad(&all(&["C04"]), "truncated reply carries nothing", t, summary(data));
        }
        // a cut reply fills its datagram up to less than one record
        let biggest = may.iter().map(|r| r.size).max().unwrap_or(0);
        if ex.opt.is_empty() && data.len() + biggest < 1400 && full > data.len() + biggest {
            rep.bad(&all(&["C04"]), "truncated reply wastes room", t, format!("{} bytes sent, {full} needed", data.len()));
        }
        return;
    }
    if !m.clean() || !m.secs[1].is_empty() || !m.secs[2].is_empty() {
        rep.bad(&all(&["C01", "C04"]), "reply malformed", t, format!("err={:?} end={} len={} {}", m.err, m.end, m.len, summary(data)));
        return;
    }
    for (i, x) in got.iter().enumerate() {
        let key = canon(x);
        let c = may_bag.has(&key);
        if c == 0 {
            rep.bad(&all(&["C01"]), "record not asked for", t, format!("{} {:?} in reply to {}", show(&x.0), x.1, summary(&q.data)));
            return;
        }
        if seen.add(key) > c {
            rep.bad(&all(&["C01"]), "record repeated", t, format!("{} {:?}", show(&x.0), x.1));
            return;
        }
        let r = &m.secs[0][i];
        if r.class != 1 || r.ttl != 120 {
            rep.bad(&all(&["C01"]), "class or ttl", t, format!("{} class {} ttl {}", show(&r.name), r.class, r.ttl));
            return;
        }
    }
    for x in &ex.recs {
        if seen.has(&x.key) == 0 {
            let p: &[&'static str] = if full > 1500 { &["C04"] } else { &["C01", "C04"] };
            rep.bad(&all(p), "record missing", t, format!("{} {:?} missing from reply to {}", show(&x.n), x.d, summary(&q.data)));
            return;
        }
    }
    rep.ob("C04");
}

pub fn check(k: &Kernel, rep: &mut Rep, restarted: &[TaskId]) {
    let mut ids: Vec<TaskId> = Vec::new();
    for h in &k.hist {
        if let Ev::App(x) = &h.ev {
            if matches!(x.downcast_ref::<Ob>(), Some(Ob::Adv { .. })) {
                ids.push(h.task);
            }
        }
    }
    for id in ids {
        check_one(k, rep, id, restarted.contains(&id));
    }
}

fn ob(h: &Hist) -> Option<&Ob> {
    match &h.ev {
        Ev::App(x) => x.downcast_ref::<Ob>(),
        _ => None,
    }
}

fn check_one(k: &Kernel, rep: &mut Rep, id: TaskId, restarted: bool) {
    let evs: Vec<&Hist> = k.hist.iter().filter(|h| h.task == id).collect();
    let mut cfg: Option<Rc<AdvCfg>> = None;
    let mut mode = Mode::Sync;
    let mut rejected = Vec::new();
    let mut ctx: Vec<&'static str> = Vec::new();
    if restarted {
        ctx.push("C17");
    }
    let name = &k.tasks[id].name;
    let mut listening = false;
    let mut i = 0;
    let mut records: Vec<Rc<Rec>> = vec![];
    let mut optional: Vec<Rc<Rec>> = vec![];
    let mut last_fault: Option<i32> = None;
    let mut killed_at = None;
    // a failure while setting up that has not been reported yet
    let mut pending: Option<(i32, u64)> = None;
    while i < evs.len() {
        let h = evs[i];
        let reported = match ob(h) {
            Some(Ob::AdvNewEnd(Res::Err { .. }) | Ob::ListenEnd(Res::Err { .. } | Res::Cancelled)) => Some(true),
            Some(Ob::AdvNewEnd(_) | Ob::SockMode { .. } | Ob::ListenEnd(_)) => Some(false),
            _ => match &h.ev {
                Ev::Recv { .. } | Ev::Send { .. } | Ev::RecvErr { .. } => Some(false),
                Ev::Killed => Some(true),
                _ => None,
            },
        };
        swallowed(rep, name, "advertiser", &mut pending, reported);
        match &h.ev {
            Ev::Killed => killed_at = Some(h.t),
            Ev::SetupErr { errno, injected, .. } => {
                last_fault = Some(*errno);
                if *injected {
                    pending = Some((*errno, h.t));
                }
            }
            Ev::RecvErr { errno, injected, .. } => {
                if *injected {
                    last_fault = Some(*errno);
                    // the next thing must be the end of the listen call
                    let next = evs[i + 1..].iter().find(|h| !matches!(h.ev, Ev::Log { .. }));
                    match next {
                        Some(n) if matches!(ob(n), Some(Ob::ListenEnd(_))) => {}
                        Some(n) if matches!(n.ev, Ev::Killed) => {}
                        None => {}
                        _ if *errno == libc::EINTR => {}
                        _ => rep.bad(&["C13"], "receive error swallowed by listen", h.t, format!("{name}: errno {errno}")),
                    }
                    rep.ob("C13");
                }
            }
            Ev::Send { to, data, .. } => {
                // sends are consumed together with the receive before them
                rep.bad(&[&["C02"], &ctx[..]].concat(), "unsolicited send", h.t, format!("{name} -> {to}: {}", summary(data)));
            }
            Ev::Recv { pkt, .. } => {
                let mut j = i + 1;
                let mut attempts = Vec::new();
                let mut cut = None;
                while j < evs.len() {
                    match &evs[j].ev {
                        Ev::Send { to, data, err, .. } => attempts.push((evs[j].t, *to, data.clone(), *err)),
                        Ev::Log { .. } => {}
                        Ev::Killed => {
                            cut = Some("killed");
                            break;
                        }
                        _ => break,
                    }
                    j += 1;
                }
                if let Some(n) = evs.get(j) {
                    if let Some(Ob::ListenEnd(Res::Cancelled)) = ob(n) {
                        cut = Some("cancelled");
                    }
                }
                let failed = attempts.iter().any(|a| a.3.is_some());
                let ex = expect(&pkt.data, &records, &optional);
                let ok = attempts.iter().filter(|a| a.3.is_none()).count();
                if ok > 1 || attempts.len() > 3 {
                    rep.bad(&[&["C02"], &ctx[..]].concat(), "several replies", h.t, format!("{name}: {} replies to one datagram {}", attempts.len(), summary(&pkt.data)));
                }
                for a in &attempts {
                    check_reply(rep, a.0, pkt, &ex, a.1, &a.2, &ctx);
                }
                match ex.kind {
                    Kind::No(w) => {
                        rep.ob("C02");
                        if matches!(w, "malformed" | "header") {
                            rep.ob("C03");
                        }
                    }
                    _ => {
                        if !ex.recs.is_empty() {
                            rep.ob("C02");
                        }
                        if ex.kind == Kind::Must {
                            rep.ob("C01");
                            for p in &ctx {
                                rep.ob(p);
                            }
                            if !ex.recs.is_empty() && attempts.is_empty() && cut.is_none() {
                                rep.bad(
                                    &[&["C01"], &ctx[..]].concat(),
                                    "query not answered",
                                    h.t,
                                    format!("{name} ({mode:?}): {} from {}", summary(&pkt.data), pkt.from),
                                );
                            }
                        }
                    }
                }
                // from here on it has seen hostile traffic, failures, oversized answers ...
                let mut add = |p: &'static str| {
                    if !ctx.contains(&p) {
                        ctx.push(p);
                    }
                };
                if ex.kind != Kind::Must || failed || pkt.from.port() == 0 {
                    add("C03");
                }
                if failed {
                    rep.ob("C03");
                }
                if cut == Some("cancelled") {
                    add("C15");
                }
                if ex.recs.iter().map(|r| r.size).sum::<usize>() > 1488 {
                    add("C04");
                }
                i = j;
                continue;
            }
            Ev::App(x) => match x.downcast_ref::<Ob>() {
                Some(Ob::Adv { cfg: c, mode: m }) => {
                    mode = *m;
                    cfg = Some(c.clone());
                    records = recs_of(c.records(&[]));
                }
                Some(Ob::Rejected(r)) => {
                    rejected.push(*r);
                    let c = cfg.as_ref().unwrap();
                    let overlong = c.insts[*r].txt_strings().iter().any(|s| s.len() > 255);
                    if !overlong {
                        rep.bad(&["*"], "valid instance refused", h.t, format!("{name}: {:?}", c.insts[*r]));
                    }
                    rep.ob("C03");
                    // (what a refused registration left behind is not specified)
                    records = recs_of(c.records(&rejected));
                    let all: Vec<usize> = (0..c.insts.len()).filter(|i| !rejected.contains(i)).collect();
                    optional = recs_of(c.records(&all).split_off(c.names.len()));
                }
                Some(Ob::Added(n)) => {
                    let l = cfg.as_ref().unwrap().late[*n - 1].records();
                    records.extend(recs_of(l));
                }
                Some(Ob::AdvNewEnd(r)) => match r {
                    Res::Unit => {}
                    Res::Err { errno, .. } => {
                        if last_fault.is_none() || *errno != last_fault {
                            rep.bad(&["C17", "C13"], "advertiser cannot start", h.t, format!("{name}: {r:?}"));
                        } else {
                            rep.ob("C13");
                        }
                        last_fault = None;
                    }
                    _ => {}
                },
                Some(Ob::Listen) => {
                    listening = true;
                }
                Some(Ob::SockMode { nonblock }) => {
                    rep.ob("C17");
                    if *nonblock {
                        rep.bad(&["C17"], "socket not in blocking mode", h.t, name.clone());
                    }
                }
                Some(Ob::ListenEnd(r)) => {
                    listening = false;
                    match r {
                        Res::Cancelled => {
                            if !ctx.contains(&"C15") {
                                ctx.push("C15");
                            }
                        }
                        Res::Err { errno, .. } if errno.is_some() && *errno == last_fault => {
                            rep.ob("C13");
                            if !ctx.contains(&"C13") {
                                ctx.push("C13");
                            }
                        }
                        Res::Err { errno: Some(libc::EADDRINUSE), .. } => {
                            rep.bad(&["C17"], "port not shared", h.t, format!("{name}: {r:?}"));
                        }
                        _ => {
                            rep.bad(&["C03", "C13", "C17"], "listen returned", h.t, format!("{name} ({mode:?}): {r:?} last fault {last_fault:?}"));
                        }
                    }
                    last_fault = None;
                }
                Some(Ob::Socks { have, want }) => check_socks(rep, h.t, name, *have, *want),
                _ => {}
            },
            _ => {}
        }
        i += 1;
    }
    exit(k, rep, id);
    swallowed(rep, name, "advertiser", &mut pending, if listening { Some(false) } else { None });
    // alive and listening at the end: nothing may be left unread
    if listening && killed_at.is_none() {
        if let Some((_, n, t)) = k.left_unread.iter().find(|x| x.0 == id) {
            rep.bad(&["C03", "C17"], "datagrams never read", *t, format!("{name}: {n} left in the socket"));
        }
    }
}

/// An injected set-up failure has to surface before anything else happens on the socket.
pub fn swallowed(rep: &mut Rep, name: &str, what: &str, pending: &mut Option<(i32, u64)>, reported: Option<bool>) {
    if let (Some((errno, t)), Some(ok)) = (*pending, reported) {
        if ok {
            rep.ob("C13");
        } else {
            rep.bad(&["C13"], format!("set-up error swallowed by {what}"), t, format!("{name}: errno {errno}"));
        }
        *pending = None;
    }
}

pub fn check_socks(rep: &mut Rep, t: u64, name: &str, have: usize, want: usize) {
    rep.ob("C13");
    if have != want {
        rep.bad(&["C13"], "socket leak", t, format!("{name}: {have} open sockets, expected {want}"));
    }
}

/// A node may only end the way its plan ends.
pub fn exit(k: &Kernel, rep: &mut Rep, id: TaskId) {
    let t = &k.tasks[id];
    let killed = t.dying;
    match &t.exit {
        Some(Exit::Panic(m)) if !killed => {
            rep.bad(&["*"], format!("panic: {}", panic_class(m)), t.exit_t, format!("{}: {m}", t.name));
        }
        Some(Exit::Livelock) if !killed => {
            rep.bad(&["*"], "livelock", t.exit_t, format!("{}: spins without letting time pass", t.name));
        }
        _ => {}
    }
}

/// Panic text without the numbers in it, so that minimising does not wander between instances.
pub fn panic_class(m: &str) -> String {
    let mut s: String = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    if let Some(i) = s.find('\n') {
        s.truncate(i);
    }
    while s.contains("##") {
        s = s.replace("##", "#");
    }
    s.chars().take(60).collect()
}
