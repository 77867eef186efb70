//! Taps: every datagram shows up in the log, item by item.

use crate::kernel::{Ev, Hist, Kernel, TaskId};
use crate::nodes::{Res, A as Ob};
use crate::o_adv::{check_socks, exit, swallowed};
use crate::report::Rep;
use crate::wire::*;

fn ob(h: &Hist) -> Option<&Ob> {
    match &h.ev {
        Ev::App(x) => x.downcast_ref::<Ob>(),
        _ => None,
    }
}

pub fn taps(k: &Kernel) -> Vec<TaskId> {
    let mut v = Vec::new();
    for h in &k.hist {
        if matches!(ob(h), Some(Ob::Tap)) && !v.contains(&h.task) {
            v.push(h.task);
        }
    }
    v
}

pub fn check(k: &Kernel, rep: &mut Rep) {
    for id in taps(k) {
        one(k, rep, id);
    }
}

fn type_text(t: u16) -> Option<&'static str> {
    Some(match t {
        A => "A",
        NS => "NS",
        CNAME => "CNAME",
        SOA => "SOA",
        PTR => "PTR",
        MX => "MX",
        TXT => "TXT",
        AAAA => "AAAA",
        SRV => "SRV",
        _ => return None,
    })
}

/// Words a log line about this record has to contain.
fn tokens(r: &Rr) -> Vec<String> {
    let mut v = vec![show(&r.name)];
    v.extend(type_text(r.ty).map(String::from));
    if r.inexact {
        return v;
    }
    match &r.data {
        Data::A(a) => v.push(std::net::Ipv4Addr::from(*a).to_string()),
        Data::Aaaa(a) => v.push(std::net::Ipv6Addr::from(*a).to_string()),
        Data::Cname(n) | Data::Ns(n) | Data::Ptr(n) => v.push(show(n)),
        Data::Mx(p, n) => {
            v.push(p.to_string());
            v.push(show(n));
        }
        Data::Srv(a, b, c, n) => {
            v.extend([a.to_string(), b.to_string(), c.to_string(), show(n)]);
        }
        Data::Soa(m, r, x) => {
            v.extend([show(m), show(r)]);
            v.extend(x.iter().map(|i| i.to_string()));
        }
        Data::Txt(e) => {
            for s in e {
                if !s.is_empty() && s.iter().all(|b| b.is_ascii_graphic()) {
                    v.push(String::from_utf8(s.clone()).unwrap());
                }
            }
        }
        _ => {}
    }
    v
}

fn one(k: &Kernel, rep: &mut Rep, id: TaskId) {
    let name = &k.tasks[id].name;
    let evs: Vec<&Hist> = k.hist.iter().filter(|h| h.task == id).collect();
    let mut last_fault = None;
    let mut listening = false;
    let mut killed = false;
    let mut ctx: Vec<&'static str> = vec!["C16"];
    let mut i = 0;
    let mut pending: Option<(i32, u64)> = None;
    while i < evs.len() {
        let h = evs[i];
        let reported = match ob(h) {
            Some(Ob::TapEnd(Res::Err { .. })) => Some(true),
            Some(Ob::TapEnd(_)) => Some(false),
            _ => match &h.ev {
                Ev::Recv { .. } | Ev::RecvErr { .. } => Some(false),
                Ev::Killed => Some(true),
                _ => None,
            },
        };
        swallowed(rep, name, "tap", &mut pending, reported);
        match &h.ev {
            Ev::Killed => killed = true,
            Ev::SetupErr { errno, injected, .. } => {
                last_fault = Some(*errno);
                if *injected {
                    pending = Some((*errno, h.t));
                }
            }
            Ev::RecvErr { errno, injected: true, .. } => {
                last_fault = Some(*errno);
                let next = evs[i + 1..].iter().find(|h| !matches!(h.ev, Ev::Log { .. }));
                match next {
                    Some(n) if matches!(ob(n), Some(Ob::TapEnd(_))) || matches!(n.ev, Ev::Killed) => {}
                    None => {}
                    _ if *errno == libc::EINTR => {}
                    _ => rep.bad(&["C13", "C16"], "receive error swallowed by tap", h.t, format!("{name}: errno {errno}")),
                }
                rep.ob("C13");
            }
            Ev::Send { to, .. } => rep.bad(&["C16"], "tap sends", h.t, format!("{name} -> {to}")),
            Ev::Recv { pkt, .. } => {
                let mut j = i + 1;
                let mut lines: Vec<&str> = Vec::new();
                while j < evs.len() {
                    match &evs[j].ev {
                        Ev::Log { text, .. } => lines.extend(text.split('\n')),
                        _ => break,
                    }
                    j += 1;
                }
                let cut = matches!(evs.get(j).map(|h| &h.ev), Some(Ev::Killed));
                if k.capture_logs && !cut {
                    rep.ob("C16");
                    logged(rep, h.t, name, &pkt.data[..pkt.data.len().min(1500)], &lines, &ctx);
                }
                i = j;
                continue;
            }
            _ => {}
        }
        match ob(h) {
            Some(Ob::Tap) => listening = true,
            Some(Ob::TapEnd(r)) => {
                listening = false;
                match r {
                    Res::Err { errno, .. } if errno.is_some() && *errno == last_fault => {
                        rep.ob("C13");
                        if !ctx.contains(&"C13") {
                            ctx.push("C13");
                        }
                    }
                    Res::Err { errno: Some(libc::EADDRINUSE), .. } => rep.bad(&["C17", "C16"], "port not shared", h.t, format!("{name}: {r:?}")),
                    _ => rep.bad(&["C16", "C13"], "tap returned", h.t, format!("{name}: {r:?} last fault {last_fault:?}")),
                }
                last_fault = None;
            }
            Some(Ob::Socks { have, want }) => check_socks(rep, h.t, name, *have, *want),
            _ => {}
        }
        i += 1;
    }
    exit(k, rep, id);
    swallowed(rep, name, "tap", &mut pending, if listening { Some(false) } else { None });
    if listening && !killed {
        if let Some((_, n, t)) = k.left_unread.iter().find(|x| x.0 == id) {
            rep.bad(&["C16"], "datagrams never read", *t, format!("{name}: {n} left in the socket"));
        }
    }
}

fn logged(rep: &mut Rep, t: u64, name: &str, data: &[u8], lines: &[&str], ctx: &[&'static str]) {
    if lines.is_empty() {
        rep.bad(ctx, "packet not logged", t, format!("{name}: {}", summary(data)));
        return;
    }
    let Some(m) = parse(data) else { return };
    let mut at = 0;
    let mut want = Vec::new();
    for q in &m.qs {
        if q.soft {
            return;
        }
        let mut v = vec![show(&q.name)];
        v.extend(type_text(q.qtype).map(String::from));
        want.push(v);
    }
    for r in m.secs.iter().flatten() {
        if r.soft {
            break;
        }
        want.push(tokens(r));
    }
    for (n, toks) in want.iter().enumerate() {
        match (at..lines.len()).find(|&l| toks.iter().all(|x| lines[l].contains(&x[..]))) {
            Some(l) => at = l + 1,
            None => {
                rep.bad(ctx, "item not logged", t, format!("{name}: item {n} {toks:?} of {}; log: {lines:?}", summary(data)));
                return;
            }
        }
    }
}
