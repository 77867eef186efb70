//! Scenarios: what is simulated in one run, all of it drawn from the run's tape.

use std::cell::RefCell;
use std::net::{IpAddr, Ipv6Addr, SocketAddr};
use std::rc::Rc;

use crate::codec::{receiver_main, server_main, Plan};
use crate::gen::*;
use crate::kernel::*;
use crate::nodes::*;
use crate::o_adv;
use crate::peers::*;
use crate::report::Rep;
use crate::wire::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sc {
    /// Advertisers under queries: ordinary, spoofed, hostile, large, sharing a host, cancelled, failing.
    AdvPlain,
    AdvSpoof,
    AdvHostile,
    AdvBig,
    AdvShare,
    AdvCancel,
    AdvErrno,
    Resolve,
    ResolveCancel,
    ResolveErrno,
    Discover,
    DiscoverCancel,
    DiscoverErrno,
    EndToEnd,
    /// Many asynchronous nodes on few single-threaded executors.
    Shared,
    /// One kind of node in use for long; what it holds is accounted for.
    Soak,
    /// One node in use for so long that 16-bit counters run out.
    LongAdv(u8),
    LongResolve(u8),
    LongDiscover(u8),
    LongTap,
    Tap,
    TapErrno,
    Codec,
    /// One node, to be run once sync and once async.
    PairAdv,
    PairResolve,
    PairDiscover,
}

pub const ALL: &[(Sc, &str)] = &[
    (Sc::AdvPlain, "adv-plain"),
    (Sc::AdvSpoof, "adv-spoof"),
    (Sc::AdvHostile, "adv-hostile"),
    (Sc::AdvBig, "adv-big"),
    (Sc::AdvShare, "adv-share"),
    (Sc::AdvCancel, "adv-cancel"),
    (Sc::AdvErrno, "adv-errno"),
    (Sc::Resolve, "resolve"),
    (Sc::ResolveCancel, "resolve-cancel"),
    (Sc::ResolveErrno, "resolve-errno"),
    (Sc::Discover, "discover"),
    (Sc::DiscoverCancel, "discover-cancel"),
    (Sc::DiscoverErrno, "discover-errno"),
    (Sc::EndToEnd, "end-to-end"),
    (Sc::Shared, "shared"),
    (Sc::Soak, "soak"),
    (Sc::LongAdv(0), "long-adv-0"),
    (Sc::LongAdv(1), "long-adv-1"),
    (Sc::LongResolve(0), "long-resolve-0"),
    (Sc::LongResolve(1), "long-resolve-1"),
    (Sc::LongResolve(2), "long-resolve-2"),
    (Sc::LongResolve(3), "long-resolve-3"),
    (Sc::LongResolve(4), "long-resolve-4"),
    (Sc::LongResolve(5), "long-resolve-5"),
    (Sc::LongDiscover(0), "long-discover-0"),
    (Sc::LongDiscover(1), "long-discover-1"),
    (Sc::LongDiscover(2), "long-discover-2"),
    (Sc::LongDiscover(3), "long-discover-3"),
    (Sc::LongDiscover(4), "long-discover-4"),
    (Sc::LongDiscover(5), "long-discover-5"),
    (Sc::LongDiscover(6), "long-discover-6"),
    (Sc::LongDiscover(7), "long-discover-7"),
    (Sc::LongTap, "long-tap"),
    (Sc::Tap, "tap"),
    (Sc::TapErrno, "tap-errno"),
    (Sc::Codec, "codec"),
    (Sc::PairAdv, "pair-adv"),
    (Sc::PairResolve, "pair-resolve"),
    (Sc::PairDiscover, "pair-discover"),
];
pub fn name(s: Sc) -> &'static str {
    ALL.iter().find(|x| x.0 == s).unwrap().1
}
pub fn by_name(n: &str) -> Option<Sc> {
    ALL.iter().find(|x| x.1 == n).map(|x| x.0)
}
pub fn paired(s: Sc) -> bool {
    matches!(s, Sc::PairAdv | Sc::PairResolve | Sc::PairDiscover)
}

type Post = Box<dyn FnOnce(&Kernel, &mut Rep)>;

pub struct Setup {
    pub end: u64,
    /// Advertisers that are a restart of an earlier one.
    pub restarted: Rc<RefCell<Vec<TaskId>>>,
    pub post: Option<Post>,
    /// Maximum log level of this run.
    pub level: log::LevelFilter,
}

pub const GROUP4: SocketAddr = SocketAddr::new(IpAddr::V4(MDNS4), 5353);
pub const GROUP6: SocketAddr = SocketAddr::new(IpAddr::V6(MDNS6), 5353);

fn level() -> log::LevelFilter {
    *&C.pick(&[log::LevelFilter::Off, log::LevelFilter::Trace, log::LevelFilter::Debug])
}

#[derive(Clone, Copy, Default)]
struct Fx {
    net: bool,
    damage: bool,
    tasks: bool,
    /// Long message delays.
    late: bool,
    errs: bool,
    send_errs: bool,
}

/// Draws which faults this run has, and how often.
fn faults(until: u64, x: Fx) {
    let f = &mut k().f;
    f.until = until;
    let some = |pm: u32, rates: &[u32]| -> u32 {
        if F.p(pm) {
            F.pick(rates)
        } else {
            0
        }
    };
    if x.net {
        f.drop = some(400, &[20, 100, 300]);
        f.dup = some(400, &[50, 200, 500]);
        if F.p(500) {
            f.delay_max_us = F.pick(&[2_000u64, 20_000, 100_000]);
        }
        if F.p(80) {
            f.rcvbuf = F.pick(&[8usize, 2, 1, 30]);
        }
    }
    if x.late {
        f.late_pm = some(400, &[30, 150, 400]);
        f.late_max_us = F.pick(&[300_000u64, 1_500_000, 50_000]);
    }
    if x.damage {
        f.corrupt = some(350, &[30, 150, 400]);
        f.trunc = some(300, &[30, 150, 300]);
    }
    if x.tasks {
        f.stall_pm = some(300, &[10, 60, 200]);
        f.stall_max_us = F.pick(&[2_000u64, 50_000, 400_000]);
        f.yield_pm = some(300, &[50, 300]);
        f.spurious_pm = some(300, &[50, 300]);
        f.eagain_pm = some(150, &[30, 200]);
        f.move_pm = some(200, &[300, 1000]);
    }
    if x.errs {
        f.eintr_pm = some(300, &[20, 100]);
        f.recv_err_pm = some(500, &[10, 50, 150]);
        f.send_err_pm = some(400, &[20, 100, 300]);
        f.setup_err_pm = some(500, &[20, 100, 250]);
    }
    if x.send_errs {
        f.send_err_pm = some(500, &[50, 200, 600]);
    }
}

/// Schedules that make no difference between the two halves of a pair.
fn pair_faults() {
    let f = &mut k().f;
    if F.p(400) {
        f.late_wake = Some((F.n(1 << 30) as u64, F.pick(&[1000u32, 500, 100]), F.pick(&[400_000u64, 2_000, 1_500_000, 50_000])));
    }
    if F.p(300) {
        f.spurious_pm = F.pick(&[50u32, 300]);
    }
    if F.p(300) {
        f.move_pm = 1000;
    }
}

/// Which executor runs an asynchronous node.
fn place(id: TaskId) {
    if k().execs > 0 && k().tasks[id].name.contains("-Async") {
        k().tasks[id].exec = C.r(1, k().execs as u64) as u32;
    }
}

fn spawn_node(t: u64, name: String, host: HostId, faulty: bool, out: Option<Rc<RefCell<Vec<TaskId>>>>, f: impl FnOnce() + 'static) {
    k().at(t, move || {
        let id = k().spawn(name, host, f);
        k().tasks[id].faulty = faulty;
        place(id);
        if let Some(o) = out {
            o.borrow_mut().push(id);
        }
    });
}

/// Sometimes nothing happens for a long time.
fn idle() -> u64 {
    C.w(&[(12, 0u64), (1, 70), (1, 4_000), (1, 200_000)]) * SEC
}

fn cancels(g: G, n: usize) -> Vec<Cancel> {
    (0..n)
        .map(|_| match g.n(3) {
            0 => Cancel { after_polls: Some(g.r(1, 6) as u32), after_ns: None },
            1 => Cancel { after_polls: None, after_ns: Some(g.r(1, 400_000) * US) },
            _ => Cancel { after_polls: Some(g.r(1, 3) as u32), after_ns: Some(g.r(1, 200) * MS) },
        })
        .collect()
}

pub fn setup(sc: Sc, alt: bool) -> Setup {
    k().rand_seed = C.r(0, 1 << 30);
    k().wall_skew = C.r(0, 1000) as i64 * 3_600_000_000_000;
    if F.p(300) {
        // the wall clock is stepped while the nodes run; nothing may depend on it
        let n = F.r(1, 4);
        k().wall_jumps = (0..n)
            .map(|_| {
                let d = F.r(1, 999) as i64 * 10i64.pow(F.r(6, 11) as u32);
                (F.r(0, 6000) * 1_000_000, if F.p(500) { d } else { -d })
            })
            .collect();
        k().stat_n("fault_clock_jump", n);
    }
    match sc {
        Sc::AdvPlain | Sc::AdvSpoof | Sc::AdvHostile | Sc::AdvBig | Sc::AdvShare | Sc::AdvCancel | Sc::AdvErrno | Sc::PairAdv => advertisers(sc, alt),
        Sc::Resolve | Sc::ResolveCancel | Sc::ResolveErrno | Sc::PairResolve => resolvers(sc, alt),
        Sc::Discover | Sc::DiscoverCancel | Sc::DiscoverErrno | Sc::PairDiscover => discoverers(sc, alt),
        Sc::EndToEnd => end_to_end(),
        Sc::Shared => shared(),
        Sc::Soak => soak(),
        Sc::LongAdv(_) | Sc::LongResolve(_) | Sc::LongDiscover(_) | Sc::LongTap => long(sc),
        Sc::Tap | Sc::TapErrno => taps(sc),
        Sc::Codec => codec(),
    }
}

// ---- advertisers ------------------------------------------------------------------------------------

struct AdvNode {
    host: HostId,
    cfg: Rc<AdvCfg>,
    mode: Mode,
}

fn spawn_adv(t: u64, i: usize, a: &AdvNode, faulty: bool, cs: Vec<Cancel>, out: Option<Rc<RefCell<Vec<TaskId>>>>, ids: Rc<RefCell<Vec<TaskId>>>, slot: Rc<RefCell<Vec<Option<TaskId>>>>) {
    let (cfg, mode, host) = (a.cfg.clone(), a.mode, a.host);
    let name = format!("adv{i}-{mode:?}");
    k().at(t, move || {
        let id = k().spawn(name, host, move || adv_main(cfg, mode, cs));
        k().tasks[id].faulty = faulty;
        place(id);
        ids.borrow_mut().push(id);
        slot.borrow_mut()[i] = Some(id);
        if let Some(o) = out {
            o.borrow_mut().push(id);
        }
    });
}

/// Any peer.
fn anyone(g: G) -> SocketAddr {
    SocketAddr::new(std::net::Ipv4Addr::from(0x0a70_0000 | g.n(1 << 20) as u32).into(), g.pick(&[5353u16, 40000, 1024 + g.n(60000) as u16]))
}

/// One datagram aimed at advertisers.
fn adv_input(sc: Sc, cfgs: &[&AdvCfg], id: u16) -> Vec<u8> {
    let mut m = query(P, cfgs, id);
    if sc == Sc::Soak {
        if P.p(300) {
            m.qs.push((vec![format!("x{}", P.n(100_000)).into_bytes(), b"local".to_vec()], ANY, 1));
        }
        if P.p(100) {
            let n = P.r(1, 20);
            for _ in 0..n {
                let name = vec![format!("r{}", P.n(100_000)).into_bytes(), b"local".to_vec()];
                let d = rdata(P);
                m.secs[P.n(3)].push(NewRr::new(&name, d));
            }
        }
    }
    let hostile_pm = match sc {
        Sc::AdvHostile | Sc::PairAdv => 450,
        Sc::Tap | Sc::TapErrno => 350,
        Sc::AdvSpoof => 100,
        Sc::AdvCancel | Sc::AdvErrno => 150,
        _ => 40,
    };
    if P.p(match sc {
        Sc::AdvSpoof => 350,
        Sc::Tap | Sc::TapErrno => 500,
        _ => 80,
    }) {
        // responses, other opcodes, error codes
        match P.n(4) {
            0 | 1 => {
                m.flags |= F_QR;
                for _ in 0..P.n(5) {
                    let (n, d) = (target(P, cfgs), rdata(P));
                    let s = P.w(&[(4, 0usize), (1, 1), (1, 2)]);
                    let mut r = NewRr::new(&n, d);
                    if P.p(200) {
                        r.class = P.pick(&[0x8001u16, 3, 255]);
                    }
                    m.secs[s].push(r);
                }
                if P.p(300) {
                    m.qs.clear();
                }
            }
            2 => m.flags |= P.w(&[(2, 4u16), (1, 5), (1, 1), (1, 2), (1, 8), (2, P.r(1, 15) as u16)]) << 11,
            _ => m.flags |= P.r(1, 15) as u16,
        }
    }
    if matches!(sc, Sc::AdvBig) && P.p(400) {
        // many questions for the same things
        let n = P.pick(&[20usize, 60, 120, 245]);
        let mut qs = m.qs.clone();
        if qs.is_empty() {
            qs.push((target(P, cfgs), ANY, 1));
        }
        for q in &mut qs {
            if P.p(600) {
                q.1 = ANY;
                q.2 = 1;
            }
        }
        m.qs.clear();
        while m.qs.len() < n {
            m.qs.push(qs[m.qs.len() % qs.len()].clone());
        }
        m.secs = Default::default();
        let mut b = m.encode(true);
        while b.len() > 1500 {
            m.qs.truncate(m.qs.len() * 3 / 4);
            b = m.encode(true);
        }
        return b;
    }
    let b = m.encode(!P.p(400));
    if P.p(hostile_pm) {
        if P.p(400) {
            return hostile(P);
        }
        return damage(P, &b);
    }
    b
}

fn advertisers(sc: Sc, alt: bool) -> Setup {
    let pair = sc == Sc::PairAdv;
    let ids = Rc::new(RefCell::new(Vec::new()));
    let restarted = Rc::new(RefCell::new(Vec::new()));
    let share = sc == Sc::AdvShare;
    let nh = if pair { 1 } else { C.w(&[(3, 1usize), (3, 2), (2, 3)]) };
    let hosts: Vec<HostId> = (0..nh).map(|_| k().add_host()).collect();
    let huge = sc == Sc::AdvBig && C.p(3);
    let mut advs: Vec<AdvNode> = Vec::new();
    for &h in &hosts {
        let n = if pair {
            1
        } else if share {
            C.w(&[(2, 2usize), (2, 1), (1, 3)])
        } else {
            C.w(&[(6, 1usize), (1, 2)])
        };
        for _ in 0..n {
            let o = CfgOpt {
                big: sc == Sc::AdvBig || (!pair && C.p(60)),
                overlong_txt: sc == Sc::AdvHostile && C.p(250),
                late: !pair,
                ..Default::default()
            };
            let mut cfg = adv_cfg(C, o);
            if huge && advs.is_empty() {
                let l = cfg.names[0].0.clone();
                for i in 0..300u32 {
                    cfg.names.push((l.clone(), std::net::Ipv4Addr::from(0xc0a90000 + i).into()));
                }
            }
            let mode = if pair {
                if alt {
                    Mode::Async
                } else {
                    Mode::Sync
                }
            } else if matches!(sc, Sc::AdvCancel | Sc::Shared) {
                C.w(&[(4, Mode::Async), (1, Mode::Sync)])
            } else {
                C.pick(&[Mode::Sync, Mode::Async, Mode::Sync, Mode::Async, Mode::SansIo])
            };
            advs.push(AdvNode { host: h, cfg: Rc::new(cfg), mode });
        }
    }
    let slot = Rc::new(RefCell::new(vec![None; advs.len()]));
    let errs = sc == Sc::AdvErrno || sc == Sc::Soak && C.p(200);
    for (i, a) in advs.iter().enumerate() {
        let cs = if matches!(sc, Sc::AdvCancel | Sc::Shared | Sc::Soak) && a.mode == Mode::Async { let n = F.r(1, 5) as usize; cancels(F, n) } else { vec![] };
        let t = if pair { 0 } else { C.r(0, 100) * MS };
        spawn_adv(t, i, a, errs || sc == Sc::AdvHostile, cs, None, ids.clone(), slot.clone());
    }
    // others on the same port
    if share || (!pair && C.p(120)) {
        for &h in &hosts {
            let n = C.w(&[(2, 1), (2, 0), (1, 2)]);
            for j in 0..n {
                let t = C.r(0, 150) * MS;
                if C.p(500) {
                    spawn_node(t, format!("tap{h}{j}"), h, false, None, tap_main);
                } else {
                    spawn_node(t, format!("responder{h}{j}"), h, false, None, responder_main);
                }
            }
        }
    }
    let soak = !pair && (sc == Sc::Soak || C.p(4));
    let nq = if sc == Sc::Soak { C.pick(&[400u64, 1000, 2000]) } else if soak { C.pick(&[300u64, 600, 1200]) } else { C.w(&[(3, 4u64), (3, 10), (2, 20), (1, 40)]) };
    let step = if soak { 5 } else { 60 };
    let span = nq * step * MS + 400 * MS;
    // crashes and restarts
    if share || (!pair && sc != Sc::AdvErrno && F.p(150)) {
        for i in 0..advs.len() {
            if !F.p(400) {
                continue;
            }
            let t = F.r(150, span / MS) * MS;
            let up = t + F.r(0, 300) * MS;
            let s = slot.clone();
            k().at(t, move || {
                if let Some(id) = s.borrow()[i] {
                    k().stat("fault_crash");
                    k().kill(id);
                }
            });
            let a = &advs[i];
            spawn_adv(up, i, a, errs, vec![], Some(restarted.clone()), ids.clone(), slot.clone());
        }
    }

    let asker_host = k().add_host();
    let asker = k().add_actor(asker_host, 45353, false, Box::new(Sink));
    let adv_addrs: Vec<SocketAddr> = advs.iter().map(|a| SocketAddr::new(host4(a.host), 5353)).collect();
    if sc == Sc::AdvSpoof {
        let h = k().add_host();
        k().add_actor(h, 5353, true, Box::new(Reflector { advs: adv_addrs.clone(), budget: 20 }));
        for &h in &hosts {
            if C.p(300) {
                k().add_actor(h, 45353, false, Box::new(Reflector { advs: adv_addrs.clone(), budget: 10 }));
            }
        }
    }
    faults(
        span + 500 * MS,
        Fx {
            net: true,
            damage: !pair && C.p(300) || sc == Sc::AdvHostile,
            tasks: !pair,
            late: !pair,
            errs,
            send_errs: sc == Sc::AdvHostile,
        },
    );
    if pair {
        pair_faults();
    }
    let cfgs: Vec<&AdvCfg> = advs.iter().map(|a| &*a.cfg).collect();
    let mut t = 110 * MS;
    for i in 0..nq {
        t += if P.p(300) { 0 } else { P.r(0, step * 1000) * US };
        let big_all = huge && i == 1;
        let bytes = if big_all {
            let mut m = NewMsg { id: i as u16, ..Default::default() };
            for _ in 0..240 {
                m.qs.push((cfgs[0].records(&[])[0].0.clone(), ANY, 1));
            }
            m.encode(true)
        } else {
            adv_input(sc, &cfgs, if P.p(200) { P.r(0, 0xefff) as u16 } else { i as u16 })
        };
        let from: SocketAddr = {
            let me: SocketAddr = k().actor_addr(asker);
            let spoof_pm = match sc {
                Sc::AdvSpoof => 600,
                Sc::AdvHostile => 250,
                _ => 60,
            };
            if sc == Sc::Soak && P.p(400) {
                anyone(P)
            } else if P.p(spoof_pm) {
                match P.n(6) {
                    0 | 1 => P.pick(&adv_addrs),
                    2 => GROUP4,
                    3 => SocketAddr::new(me.ip(), if pair { 1 } else { 0 }),
                    4 => SocketAddr::new(me.ip(), if P.p(400) { P.pick(&[53u16, 1, 1023, 1024, 32768, 65535, 5354]) } else { P.r(1, 65535) as u16 }),
                    _ => "255.255.255.255:5353".parse().unwrap(),
                }
            } else if P.p(300) {
                SocketAddr::new(me.ip(), 5353)
            } else {
                me
            }
        };
        let to = if P.p(300) { P.pick(&adv_addrs) } else { GROUP4 };
        k().at(t, move || k().actor_send(asker, from, to, &bytes));
    }
    // quiet at the end: probes that have to arrive
    let quiet = span + 900 * MS + idle();
    let mut probes = Vec::new();
    for (i, a) in advs.iter().enumerate() {
        let recs = a.cfg.records(&[]);
        let mut m = NewMsg { id: 0xf000 + i as u16, ..Default::default() };
        let r = P.pick(&recs);
        m.qs.push((r.0, ANY, 1));
        let b = m.encode(false);
        let at = quiet + 20 * MS * i as u64;
        probes.push((m.id, None));
        let from = k().actor_addr(asker);
        k().at(at, move || {
            k().f.rcvbuf = 256;
            k().actor_send(asker, from, GROUP4, &b)
        });
        let alone = advs.iter().filter(|x| x.host == a.host).count() == 1;
        let others = share;
        if alone && !others {
            let mut m2 = m.clone();
            m2.id = 0xf800 + i as u16;
            let b = m2.encode(false);
            let to = adv_addrs[i];
            probes.push((m2.id, Some(a.host)));
            k().at(at + 5 * MS, move || k().actor_send(asker, from, to, &b));
        }
    }
    let post: Post = Box::new(move |kn, rep| probes_arrived(kn, rep, &probes, quiet));
    Setup { end: quiet + 2 * SEC, restarted, post: Some(post), level: if share { log::LevelFilter::Trace } else { level() } }
}

/// Every socket that should hear the mDNS group heard the final queries.
fn probes_arrived(kn: &Kernel, rep: &mut Rep, probes: &[(u16, Option<HostId>)], quiet: u64) {
    for (id, t) in kn.tasks.iter().enumerate() {
        let evs: Vec<&Hist> = kn.hist.iter().filter(|h| h.task == id).collect();
        let obs = |h: &Hist| -> Option<A_> {
            match &h.ev {
                Ev::App(x) => match x.downcast_ref::<crate::nodes::A>() {
                    Some(crate::nodes::A::Listen) => Some(A_::Listen),
                    Some(crate::nodes::A::ListenEnd(_)) | Some(crate::nodes::A::TapEnd(_)) => Some(A_::End),
                    Some(crate::nodes::A::Tap) => Some(A_::Listen),
                    Some(crate::nodes::A::Coexist(r)) => Some(if r.is_ok() { A_::Listen } else { A_::Refused }),
                    _ => None,
                },
                _ => None,
            }
        };
        let killed = evs.iter().any(|h| matches!(h.ev, Ev::Killed));
        if let Some(h) = evs.iter().find(|h| matches!(obs(h), Some(A_::Refused))) {
            rep.bad(&["C17"], "port not shared", h.t, format!("{}: another responder cannot bind port 5353", t.name));
        }
        let last = evs.iter().rev().find_map(|h| obs(h).map(|o| (o, h.t)));
        let Some((A_::Listen, since)) = last else { continue };
        if killed || since >= quiet {
            continue;
        }
        // several unicast receivers share a port: only multicast has to reach all
        let lone = kn.tasks.iter().enumerate().filter(|(i, x)| x.host == t.host && kn.hist.iter().any(|h| h.task == *i && matches!(&h.ev, Ev::Bound { addr, .. } if addr.port() == 5353))).count() == 1;
        for (pid, host) in probes {
            if host.is_some_and(|h| h != t.host || !lone) {
                continue;
            }
            rep.ob("C17");
            let got = evs.iter().any(|h| matches!(&h.ev, Ev::Recv { pkt, .. } if h.t >= quiet && parse(&pkt.data).is_some_and(|m| m.id == *pid && !m.qr())));
            if !got {
                rep.bad(&["C17", if t.name.starts_with("tap") { "C16" } else { "C17" }], "query not received", quiet, format!("{} never got probe {pid:#x} ({})", t.name, if host.is_some() { "unicast" } else { "multicast" }));
            }
        }
    }
}
enum A_ {
    Listen,
    End,
    Refused,
}

// ---- resolvers --------------------------------------------------------------------------------------

/// A name of about 255 bytes, or far more.
fn long_name(g: G) -> Name {
    let mut left = g.w(&[(3, 255usize), (1, 254), (2, 256), (1, 320), (1, 700), (1, 760), (2, 1600), (1, 5000)]) - 1;
    let mut n = Vec::new();
    while left > 1 {
        let mut l = left.min(64);
        if left - l == 1 {
            l -= 1;
        }
        n.push(vec![b'a' + (n.len() % 26) as u8; l - 1]);
        left -= l;
    }
    n
}

fn timeout_val(g: G) -> u64 {
    if g.p(60) {
        return g.pick(&[0u64, 1, 999, 1_000_000 * SEC]);
    }
    g.pick(&[100u64, 500, 20, 1, 250, 1000]) * MS + if g.p(200) { g.r(1, 999) * US } else { 0 }
}

fn resolvers(sc: Sc, alt: bool) -> Setup {
    let pair = sc == Sc::PairResolve;
    let errs = sc == Sc::ResolveErrno || sc == Sc::Soak && C.p(300);
    let nc = if pair { 1 } else if sc == Sc::Shared { C.w(&[(2, 1usize), (2, 2), (1, 3)]) } else { C.w(&[(4, 1usize), (2, 2)]) };
    let v6 = C.p(250);
    let multicast = C.p(300);
    let ns = if multicast { 1 } else { C.w(&[(200, 1usize), (150, 2), (100, 3), (5, 5), (5, 9), (2, 17), (1, 34)]) };
    let mut addrs: Vec<SocketAddr> = Vec::new();
    let sh = k().add_host();
    let stranger: SocketAddr = if v6 { SocketAddr::new(k().hosts[sh].ip6.into(), 53) } else { SocketAddr::new(k().hosts[sh].ip4.into(), 53) };
    let wild = C.pick(&[500u32, 0, 200, 850, 700]);
    let soak = !pair && (sc == Sc::Soak || C.p(2));
    let flood = C.p(4);
    let n_actors = if multicast { C.w(&[(3, 1usize), (2, 2), (1, 3)]) } else { ns };
    let mut actors = Vec::new();
    for _ in 0..n_actors {
        let h = k().add_host();
        let s = Server { v6, old: vec![], stranger, budget: if soak { 3000 } else if flood { 400 } else { 60 }, gap_ms: if flood { C.pick(&[2u64, 8]) } else { 400 }, wild };
        let port = if multicast { 5353 } else { C.pick(&[53u16, 5353, 5300]) };
        let a = k().add_actor(h, port, multicast, Box::new(s));
        actors.push(a);
        let ad: SocketAddr = if v6 { SocketAddr::new(k().hosts[h].ip6.into(), port) } else { k().actor_addr(a) };
        if !multicast {
            addrs.push(ad);
        }
    }
    if multicast {
        addrs.push(if v6 { GROUP6 } else { GROUP4 });
    }
    // two independent services of the network, silent servers too
    if !multicast && C.p(200) {
        addrs.push(if v6 { SocketAddr::new(Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, 0xdead).into(), 53) } else { "10.9.9.9:53".parse().unwrap() });
    }
    let names: Vec<(Name, Option<String>)> = {
        let pool: Vec<Name> = vec![
            nm("www.example.com"),
            nm("host.local"),
            nm("other.example.com"),
            nm("localhost"),
            nm("WWW.Example.Com"),
            vec![vec![b'n'; 63], vec![b'm'; 63], b"example".to_vec()],
            nm("sub.www.example.com"),
            vec![],
        ];
        let mut pool = pool.to_vec();
        if C.p(100) {
            pool.push(any_name(C));
            let other = near(C, &pool[0]);
            pool.push(other);
        }
        if C.p(30) {
            // as long as a name may be, and longer
            pool.push(long_name(C));
        }
        if C.p(40) {
            pool.push(vec!["größe".into(), "日本".into(), b"local".to_vec()]);
            pool.push(vec![b"my printer\t".to_vec(), b"\\046".to_vec(), b"local".to_vec()]);
            // text that is no name
            let l = C.pick(&[0usize, 64, 65, 128, 300, 0]);
            let mut bad = C.pick(&[nm("www.example.com"), nm("host.local"), vec![vec![]]]);
            let i = C.n(bad.len() + 1);
            bad.insert(i, vec![b'l'; l]);
            pool.push(bad);
        }
        let n = C.r(1, 3);
        (0..n)
            .map(|_| {
                let x = C.pick(&pool);
                let printable = x.iter().all(|l| !l.contains(&b'.') && std::str::from_utf8(l).is_ok());
                let no_name = x.iter().any(|l| l.is_empty() || l.len() > 63);
                let text = if printable && (no_name || C.p(500)) {
                    let s = x.iter().map(|l| String::from_utf8(l.clone()).unwrap()).collect::<Vec<_>>().join(".");
                    let dot = x.last().is_some_and(|l| l.is_empty());
                    Some(if x.is_empty() { ".".into() } else if dot || C.p(300) { s + "." } else { s })
                } else {
                    None
                };
                (x, text)
            })
            .collect()
    };
    let mut end = 0;
    for c in 0..nc {
        let h = k().add_host();
        let mode = if pair {
            if alt {
                Mode::Async
            } else {
                Mode::Sync
            }
        } else if matches!(sc, Sc::ResolveCancel | Sc::Shared) {
            C.w(&[(5, Mode::Async), (1, Mode::Sync)])
        } else {
            C.pick(&[Mode::Sync, Mode::Async])
        };
        let spec = Spec { mode, resolver: true, server: addrs[0], domain: vec![], multicast_ctor: multicast && C.p(500) };
        let mut steps = Vec::new();
        if addrs.len() > 1 {
            for a in &addrs[1..] {
                if C.p(850) {
                    steps.push(Step { gap: 0, op: Op::AddServer(*a), cancel: Cancel::default() });
                }
            }
        }
        let mut n = C.w(&[(3, 2u64), (2, 1), (3, 4), (2, 7)]);
        let many = soak && c == 0;
        if many {
            n = C.pick(&[260u64, 300, 520, 900]);
        }
        // asks for something else every time
        let fresh = many && sc == Sc::Soak && C.p(400);
        for _ in 0..n {
            let gap = if many { 0 } else { C.w(&[(30, 0u64), (20, 1), (20, 50), (10, 700), (1, 40_000), (1, 90_000_000)]) * MS };
            let op = match C.w(&[(if many { 100 } else { 12 }, 0), (2, 1), (1, 2), ((!many) as u32, 3)]) {
                0 => {
                    let (mut name, text) = C.pick(&names);
                    let mut text = text;
                    if fresh && name.len() > 1 && name.iter().all(|l| !l.is_empty() && l.len() < 64) {
                        name[0] = format!("x{}", C.n(1_000_000)).into_bytes();
                        text = None;
                    }
                    Op::Resolve { name, text }
                }
                1 => Op::SetTimeout(timeout_val(C)),
                2 => {
                    // not allowed, or one server twice
                    let a: SocketAddr = match C.n(3) {
                        0 => "192.0.2.1:53".parse().unwrap(),
                        1 => "[2001:db8::1]:53".parse().unwrap(),
                        _ => addrs[0],
                    };
                    Op::AddServer(a)
                }
                _ => Op::Recreate,
            };
            let mut cancel = Cancel::default();
            if mode == Mode::Async && matches!(sc, Sc::ResolveCancel | Sc::Shared | Sc::Soak) && F.p(if sc != Sc::ResolveCancel { 150 } else { 500 }) {
                cancel = cancels(F, 1)[0];
            }
            steps.push(Step { gap, op, cancel });
        }
        let align = pair;
        let t = if pair { 0 } else { C.r(0, 50) * MS };
        let t = if sc == Sc::Shared { C.r(0, 700) * MS } else { t };
        spawn_node(t, format!("resolver{c}-{mode:?}"), h, errs, None, move || client_main(spec, steps, align));
        end = end.max(t);
    }
    for a in actors {
        if flood || C.p(300) {
            let n = if flood { C.pick(&[300u64, 600]) } else { C.r(1, 12) };
            let at = C.r(1, 500) * MS;
            k().actor_timer(a, at, n);
        }
    }
    faults(
        8 * SEC,
        Fx { net: true, damage: C.p(400), tasks: !pair, late: true, errs, send_errs: false },
    );
    if pair {
        pair_faults();
    }
    Setup { end: 1_000_000_000 * SEC, restarted: Default::default(), post: None, level: level() }
}

// ---- discoverers ------------------------------------------------------------------------------------

fn disc_op(g: G, cfgs: &[Rc<AdvCfg>]) -> Op {
    let all: Vec<&InstCfg> = cfgs.iter().flat_map(|c| &c.insts).collect();
    let brk = if g.p(250) { Some(g.r(1, 3) as u32) } else { None };
    let some = if all.is_empty() { None } else { Some(g.pick(&all)) };
    let (svc, tcp) = match some {
        Some(i) if !g.p(60) => (i.svc.clone(), i.tcp),
        _ => (svc_label(g), !g.p(500)),
    };
    match g.w(&[(4, 0), (3, 1), (4, 2)]) {
        0 => Op::Browse { svc, tcp, brk },
        1 => Op::Types { brk },
        _ => {
            let inst = match some {
                Some(i) if !g.p(80) => i.inst.clone(),
                _ => inst_label(g),
            };
            Op::Load { inst, svc, tcp }
        }
    }
}

fn discoverers(sc: Sc, alt: bool) -> Setup {
    let pair = sc == Sc::PairDiscover;
    let errs = sc == Sc::DiscoverErrno || sc == Sc::Soak && C.p(300);
    let nc = if pair { 1 } else if sc == Sc::Shared { C.w(&[(2, 1usize), (2, 2), (1, 3)]) } else { C.w(&[(4, 1usize), (2, 2)]) };
    let mut domain = if C.p(200) { nm(C.pick(&["example.com", "Local", "lan"])) } else { nm("local") };
    if C.p(8) {
        domain = long_name(C);
        if C.p(700) {
            // fits for some calls
            domain.drain(..C.r(1, 3).min(domain.len() as u64 - 1) as usize);
        }
    }
    let multicast = !C.p(300);
    let nr = if multicast { C.w(&[(3, 1usize), (3, 2), (1, 3)]) } else { 1 };
    let n_cfg = C.r(1, 3);
    let cfgs: Vec<Rc<AdvCfg>> = (0..n_cfg)
        .map(|_| {
            let mut c = adv_cfg(C, CfgOpt { big: C.p(60), ..Default::default() });
            if c.insts.is_empty() {
                c = adv_cfg(C, CfgOpt::default());
            }
            Rc::new(c)
        })
        .collect();
    let wild = C.pick(&[500u32, 0, 200, 850, 700]);
    let silent = C.pick(&[0u32, 0, 200, 600, 1000]);
    let soak = !pair && (sc == Sc::Soak || C.p(2));
    let flood = C.p(4);
    let v6 = C.p(120);
    let mut server = if v6 { GROUP6 } else { GROUP4 };
    let mut actors = Vec::new();
    for i in 0..nr {
        let h = k().add_host();
        let mine: Vec<Rc<AdvCfg>> = if nr == 1 { cfgs.clone() } else { cfgs.iter().enumerate().filter(|(j, _)| j % nr == i || C.p(300)).map(|x| x.1.clone()).collect() };
        let r = Responder { v6, cfgs: mine, domain: domain.clone(), old: vec![], budget: if soak { 3000 } else if flood { 700 } else { 60 }, gap_ms: if flood { C.pick(&[2u64, 5]) } else { 350 }, wild, silent };
        let port = if multicast { 5353 } else { C.pick(&[53u16, 5353]) };
        let a = k().add_actor(h, port, multicast, Box::new(r));
        if !multicast {
            server = if v6 { SocketAddr::new(k().hosts[h].ip6.into(), port) } else { k().actor_addr(a) };
        }
        actors.push(a);
    }
    for c in 0..nc {
        let h = k().add_host();
        let mode = if pair {
            if alt {
                Mode::Async
            } else {
                Mode::Sync
            }
        } else if matches!(sc, Sc::DiscoverCancel | Sc::Shared) {
            C.w(&[(5, Mode::Async), (1, Mode::Sync)])
        } else {
            C.pick(&[Mode::Sync, Mode::Async])
        };
        let spec = Spec { mode, resolver: false, server, domain: domain.clone(), multicast_ctor: multicast && !v6 && domain == nm("local") && C.p(500) };
        let mut steps = Vec::new();
        let mut n = C.w(&[(3, 2u64), (2, 1), (3, 4), (2, 7)]);
        let many = soak && c == 0;
        if many {
            n = C.pick(&[260u64, 300, 600]);
            steps.push(Step { gap: 0, op: Op::SetDiscovery(C.pick(&[20u64, 200]) * MS), cancel: Cancel::default() });
        }
        // asks for something else every time
        let fresh = many && sc == Sc::Soak && C.p(400);
        for _ in 0..n {
            let gap = if many { 0 } else { C.w(&[(30, 0u64), (20, 1), (20, 50), (10, 700), (1, 40_000), (1, 90_000_000)]) * MS };
            let op = match C.w(&[(12, 0), (3 * (!many) as u32, 1), ((!many) as u32, 3)]) {
                0 if fresh && C.p(500) => {
                    let l = format!("x{}", C.n(1_000_000)).into_bytes();
                    match disc_op(C, &cfgs) {
                        Op::Browse { tcp, brk, .. } => Op::Browse { svc: [b"_", &l[..]].concat(), tcp, brk },
                        Op::Load { svc, tcp, .. } => Op::Load { inst: l, svc, tcp },
                        x => x,
                    }
                }
                0 => disc_op(C, &cfgs),
                1 if C.p(80) => {
                    // refused, or never repeated
                    const DAY: u64 = 86_400 * SEC;
                    let (r, d) = C.pick(&[(0u64, 1000 * MS), (0, 10 * MS), (u64::MAX, 300 * MS), (u64::MAX, 400 * DAY), (DAY, SEC), (50 * DAY, 40 * DAY), (u64::MAX - 1, 70 * MS)]);
                    steps.push(Step { gap, op: Op::SetRetransmit(r), cancel: Cancel::default() });
                    // if the first one fails, the previous retransmit timeout stays
                    Op::SetDiscovery(if errs { d.min(SEC) } else { d })
                }
                1 => {
                    // keep the number of retransmissions bounded
                    let (r, d) = C.pick(&[(300u64, 1000u64), (300, 200), (1000, 300), (100, 1000), (10, 500), (250, 1000), (500, 1000), (1000, 1000), (1, 100), (2000, 2500), (300, 0), (400, 1)]);
                    let u = if C.p(200) { C.r(1, 900) * US } else { 0 };
                    steps.push(Step { gap, op: Op::SetRetransmit(r * MS + u), cancel: Cancel::default() });
                    Op::SetDiscovery(d * MS + if C.p(200) { C.r(1, 900) * US } else { 0 })
                }
                _ => Op::Recreate,
            };
            let mut cancel = Cancel::default();
            if mode == Mode::Async && matches!(sc, Sc::DiscoverCancel | Sc::Shared | Sc::Soak) && F.p(if sc != Sc::DiscoverCancel { 150 } else { 500 }) {
                cancel = cancels(F, 1)[0];
            }
            steps.push(Step { gap, op, cancel });
        }
        let align = pair;
        let t = if pair { 0 } else { C.r(0, 50) * MS };
        let t = if sc == Sc::Shared { C.r(0, 700) * MS } else { t };
        spawn_node(t, format!("discoverer{c}-{mode:?}"), h, errs, None, move || client_main(spec, steps, align));
    }
    for a in actors {
        if flood || C.p(350) {
            let n = if flood { C.pick(&[300u64, 600]) } else { C.r(1, 15) };
            let at = C.r(1, 500) * MS;
            k().actor_timer(a, at, n);
        }
    }
    faults(
        10 * SEC,
        Fx { net: true, damage: C.p(400), tasks: !pair, late: true, errs, send_errs: false },
    );
    if pair {
        pair_faults();
    }
    Setup { end: 1_000_000_000 * SEC, restarted: Default::default(), post: None, level: level() }
}

// ---- long use ---------------------------------------------------------------------------------------

fn soak() -> Setup {
    k().mem = Some(Default::default());
    let what = C.n(4);
    let mut s = match what {
        0 => advertisers(Sc::Soak, false),
        1 => taps(Sc::Soak),
        2 => resolvers(Sc::Soak, false),
        _ => discoverers(Sc::Soak, false),
    };
    if what > 1 {
        s.post = None;
    }
    s
}

/// More than a 16-bit counter holds.
const MANY: u64 = 66_200;

/// Sends `MANY` datagrams, one after the other, all with different IDs if `ids`.
struct Chain {
    msgs: Vec<Vec<u8>>,
    ids: bool,
    gap: u64,
    from: Option<SocketAddr>,
    to: SocketAddr,
}
impl Actor for Chain {
    fn on_packet(&mut self, _: ActorId, _: &Pkt) {}
    fn on_timer(&mut self, me: ActorId, tag: u64) {
        let mut b = self.msgs[tag as usize % self.msgs.len()].clone();
        if self.ids {
            b[..2].copy_from_slice(&(tag as u16).to_be_bytes());
        }
        let from = self.from.unwrap_or(k().actor_addr(me));
        k().actor_send(me, from, self.to, &b);
        if tag > 1 {
            let at = k().now + self.gap;
            k().actor_timer(me, at, tag - 1);
        }
    }
}

/// Answers the queries for one name: every one, or only with a stream of other messages.
struct Plain {
    rr: NewRr,
    extra: Option<NewRr>,
    /// Instead of answering the first query, sends this many responses.
    stream: Option<(u64, bool)>,
    asker: Option<(SocketAddr, Msg)>,
}
impl Plain {
    fn response(&self, q: &Msg) -> NewMsg {
        NewMsg { id: q.id, flags: F_QR | 0x0400, qs: q.qs.iter().map(|q| (q.name.clone(), q.qtype, q.qclass)).collect(), ..Default::default() }
    }
}
impl Actor for Plain {
    fn on_packet(&mut self, me: ActorId, p: &Pkt) {
        let Some(m) = parse(&p.data) else { return };
        if m.qr() || m.qs.is_empty() {
            return;
        }
        match self.stream {
            None => {
                let mut r = self.response(&m);
                r.secs[0].push(self.rr.clone());
                r.secs[0].extend(self.extra.clone());
                let my = k().actor_addr(me);
                k().actor_send(me, my, p.from, &r.encode(false));
            }
            Some((n, _)) if self.asker.is_none() => {
                self.asker = Some((p.from, m));
                let at = k().now + MS;
                k().actor_timer(me, at, n);
            }
            _ => {}
        }
    }
    fn on_timer(&mut self, me: ActorId, tag: u64) {
        let (to, q) = self.asker.clone().unwrap();
        let mut m = self.response(&q);
        let mut rr = self.rr.clone();
        if let Some((_, true)) = self.stream {
            // another instance each time
            if let Data::Ptr(n) = &mut rr.data {
                n[0] = format!("i{}", tag % 3000).into_bytes();
            }
        } else if tag > 1 {
            rr.name = nm("somewhere.else");
        }
        m.secs[0].push(rr);
        let my = k().actor_addr(me);
        k().actor_send(me, my, to, &m.encode(false));
        if tag > 1 {
            let at = k().now + MS;
            k().actor_timer(me, at, tag - 1);
        }
    }
}

pub fn is_long(sc: Sc) -> bool {
    matches!(sc, Sc::LongAdv(_) | Sc::LongResolve(_) | Sc::LongDiscover(_) | Sc::LongTap)
}

fn long(sc: Sc) -> Setup {
    k().mem = Some(Default::default());
    k().max_steps = 40 * MANY;
    let h = k().add_host();
    let ah = k().add_host();
    let mut s = Setup { end: 1_000_000_000 * SEC, restarted: Default::default(), post: None, level: log::LevelFilter::Off };
    // the mode, and what is done very often
    let (mode, what) = match sc {
        Sc::LongAdv(v) | Sc::LongResolve(v) | Sc::LongDiscover(v) => ([Mode::Sync, Mode::Async][v as usize % 2], v / 2),
        _ => (Mode::Sync, 0),
    };
    let step = |op: Op| Step { gap: 0, op, cancel: Cancel::default() };
    match sc {
        Sc::LongAdv(_) | Sc::LongTap => {
            let cfg = Rc::new(adv_cfg(C, CfgOpt::default()));
            if sc == Sc::LongTap {
                spawn_node(0, "tap".into(), h, false, None, tap_main);
                k().capture_logs = true;
                s.level = log::LevelFilter::Debug;
            } else {
                let (ids, slot) = (Default::default(), Rc::new(RefCell::new(vec![None])));
                spawn_adv(0, 0, &AdvNode { host: h, cfg: cfg.clone(), mode }, false, vec![], None, ids, slot);
            }
            // something to answer, for sure
            let own = cfg.all_records();
            let ask = NewMsg { qs: vec![(C.pick(&own).0, ANY, 1)], ..Default::default() };
            let mut msgs = vec![ask.encode(false)];
            while msgs.len() < 5 {
                let b = adv_input(if sc == Sc::LongTap { Sc::Tap } else { C.pick(&[Sc::AdvPlain, Sc::AdvHostile]) }, &[&cfg], 0);
                if b.len() >= 12 && b.len() < 400 {
                    msgs.push(b);
                }
            }
            let a = k().add_actor(ah, 45353, false, Box::new(Chain { msgs, ids: C.p(800), gap: 2 * MS, from: None, to: GROUP4 }));
            k().actor_timer(a, 100 * MS, MANY);
            s.end = (MANY * 2 + 10_000) * MS;
        }
        Sc::LongResolve(_) => {
            let name = nm("www.example.com");
            let rr = NewRr::new(&name, Data::A([10, 1, 2, 3]));
            let a = k().add_actor(ah, 53, false, Box::new(Plain { rr, extra: None, stream: (what == 1).then_some((MANY, false)), asker: None }));
            let mut server = k().actor_addr(a);
            if what == 2 {
                server = "10.9.9.9:53".parse().unwrap();
            }
            let spec = Spec { mode, resolver: true, server, domain: vec![], multicast_ctor: false };
            let n = if what == 1 { 1 } else { MANY };
            let mut steps = vec![step(Op::SetTimeout(10 * MS))];
            steps.extend((0..n).map(|_| step(Op::Resolve { name: name.clone(), text: None })));
            spawn_node(0, format!("resolver0-{mode:?}"), h, false, None, move || client_main(spec, steps, false));
        }
        _ => {
            if what == 1 {
                // a single call, which has to remember all it has reported
                k().mem = None;
            }
            let inst = nm("inst._http._tcp.local");
            let (mut rr, mut extra) = (NewRr::new(&nm("_http._tcp.local"), Data::Ptr(inst.clone())), None);
            if what == 3 {
                rr = NewRr::new(&inst, Data::Srv(0, 0, 80, nm("host.local")));
                extra = Some(NewRr::new(&inst, Data::Txt(vec![b"key=value".to_vec()])));
            }
            let a = k().add_actor(ah, 53, false, Box::new(Plain { rr, extra, stream: (what == 1).then_some((MANY, true)), asker: None }));
            let mut server = k().actor_addr(a);
            if what == 2 {
                server = "10.9.9.9:53".parse().unwrap();
            }
            let spec = Spec { mode, resolver: false, server, domain: nm("local"), multicast_ctor: false };
            let mut steps = vec![];
            if what == 1 || what == 2 {
                steps.push(step(Op::SetDiscovery((MANY + 50) * MS)));
                steps.push(step(Op::SetRetransmit(if what == 1 { 100 } else { 1 } * MS)));
            }
            let n = if what == 1 || what == 2 { 1 } else { MANY };
            let op = match what {
                3 => Op::Load { inst: b"inst".to_vec(), svc: b"_http".to_vec(), tcp: true },
                _ => Op::Browse { svc: b"_http".to_vec(), tcp: true, brk: (what == 0).then_some(1) },
            };
            steps.extend((0..n).map(|_| step(op.clone())));
            spawn_node(0, format!("discoverer0-{mode:?}"), h, false, None, move || client_main(spec, steps, false));
        }
    }
    s
}

// ---- several operations on one executor --------------------------------------------------------------

/// Advertisers, resolvers and discoverers, nearly all of them asynchronous, on one or two threads.
fn shared() -> Setup {
    k().execs = C.w(&[(3, 1u32), (1, 2)]);
    let parts = C.pick(&[7u32, 7, 6, 5, 3, 4, 2]);
    let mut restarted = Default::default();
    if parts & 1 != 0 {
        restarted = advertisers(Sc::Shared, false).restarted;
    }
    if parts & 2 != 0 {
        resolvers(Sc::Shared, false);
    }
    if parts & 4 != 0 {
        discoverers(Sc::Shared, false);
    }
    faults(6 * SEC, Fx { net: true, damage: C.p(300), tasks: true, late: true, errs: false, send_errs: false });
    Setup { end: 1_000_000_000 * SEC, restarted, post: None, level: level() }
}

// ---- end to end -------------------------------------------------------------------------------------

fn end_to_end() -> Setup {
    let ids = Rc::new(RefCell::new(Vec::new()));
    let restarted = Rc::new(RefCell::new(Vec::new()));
    let na = C.w(&[(3, 1usize), (4, 2), (2, 3), (1, 4)]);
    let nh = C.w(&[(3, na), (2, 1), (1, 2)]).min(na);
    let hosts: Vec<HostId> = (0..nh).map(|_| k().add_host()).collect();
    let mut advs = Vec::new();
    for i in 0..na {
        let big = C.p(80);
        let mut cfg = adv_cfg(C, CfgOpt { uniq: Some(i), big, ..Default::default() });
        for x in &mut cfg.insts {
            // browsable only with the documented leading underscore
            x.txt.retain(|(k, _)| !k.is_empty());
        }
        let mode = C.pick(&[Mode::Sync, Mode::Async, Mode::Sync, Mode::Async, Mode::SansIo]);
        advs.push(AdvNode { host: hosts[i % nh], cfg: Rc::new(cfg), mode });
    }
    let slot = Rc::new(RefCell::new(vec![None; na]));
    for (i, a) in advs.iter().enumerate() {
        spawn_adv(C.r(0, 50) * MS, i, a, false, vec![], None, ids.clone(), slot.clone());
    }
    let calm = C.w(&[(2, 3u64), (1, 0), (1, 6)]) * SEC;
    if calm > 0 {
        faults(calm, Fx { net: true, damage: true, tasks: true, late: true, errs: false, send_errs: false });
        for i in 0..na {
            for _ in 0..F.w(&[(3, 0), (2, 1), (1, 2)]) {
                let t = F.r(100, calm / MS - 500) * MS;
                let up = t + F.r(1, 400) * MS;
                let s = slot.clone();
                k().at(t, move || {
                    if let Some(id) = s.borrow()[i] {
                        if k().tasks[id].exit.is_none() && !k().tasks[id].dying {
                            k().stat("fault_crash");
                        }
                        k().kill(id);
                    }
                });
                // at most one instance of it at a time
                let (s, a) = (slot.clone(), (advs[i].cfg.clone(), advs[i].mode, advs[i].host));
                let (ids, re) = (ids.clone(), restarted.clone());
                k().at(up, move || {
                    let cur = s.borrow()[i];
                    if let Some(id) = cur {
                        if k().tasks[id].exit.is_none() && !k().tasks[id].dying {
                            return;
                        }
                    }
                    let (cfg, mode, host) = a;
                    let id = k().spawn(format!("adv{i}-{mode:?}"), host, move || adv_main(cfg, mode, vec![]));
                    s.borrow_mut()[i] = Some(id);
                    ids.borrow_mut().push(id);
                    re.borrow_mut().push(id);
                });
            }
        }
        if F.p(500) {
            for &h in &hosts {
                k().hosts[h].group = F.n(2) as u8;
            }
            let a = F.r(50, calm / MS - 100) * MS;
            let b = a + F.r(50, 2500) * MS;
            k().at(a, || {
                k().stat("fault_partition");
                k().partition = true;
            });
            k().at(b.min(calm), || k().partition = false);
        }
        // clients during the trouble, and hostile traffic
        let cfgs: Vec<Rc<AdvCfg>> = advs.iter().map(|a| a.cfg.clone()).collect();
        for c in 0..C.w(&[(2, 1), (2, 2), (1, 0)]) {
            let h = if C.p(200) { hosts[0] } else { k().add_host() };
            if C.p(400) {
                k().hosts[h].group = 1;
            }
            let mode = C.pick(&[Mode::Sync, Mode::Async]);
            let spec = Spec { mode, resolver: false, server: GROUP4, domain: nm("local"), multicast_ctor: true };
            let steps = (0..C.r(1, 4)).map(|_| Step { gap: C.r(0, 200) * MS, op: disc_op(C, &cfgs), cancel: Cancel::default() }).collect();
            spawn_node(C.r(50, 500) * MS, format!("early{c}-{mode:?}"), h, false, None, move || client_main(spec, steps, false));
        }
        let ah = k().add_host();
        let asker = k().add_actor(ah, 45353, false, Box::new(Sink));
        let refs: Vec<&AdvCfg> = cfgs.iter().map(|c| &**c).collect();
        for i in 0..C.w(&[(2, 0u64), (2, 4), (1, 12)]) {
            let t = P.r(60, calm / MS) * MS;
            let b = adv_input(Sc::AdvHostile, &refs, i as u16);
            let from = k().actor_addr(asker);
            k().at(t, move || k().actor_send(asker, from, GROUP4, &b));
        }
    }
    // the calm: fresh clients that have to find everything
    let mut t = calm + 4 * SEC;
    k().at(calm + 3 * SEC, || {
        k().f.rcvbuf = 1024;
        k().f.delay_max_us = 500;
        k().partition = false;
    });
    if C.p(300) {
        // slow, but faster than the retransmit timeout
        k().at(calm + 3 * SEC, || k().f.delay_max_us = 100_000);
    }
    let h = k().add_host();
    let mut add = |steps: Vec<Step>, resolver: bool, name: &str| {
        let mode = C.pick(&[Mode::Sync, Mode::Async]);
        let spec = Spec { mode, resolver, server: GROUP4, domain: if resolver { vec![] } else { nm("local") }, multicast_ctor: C.p(500) };
        spawn_node(t, format!("{name}-{mode:?}"), h, false, None, move || client_main(spec, steps, false));
        t += 50 * MS;
    };
    let st = |op: Op| Step { gap: 0, op, cancel: Cancel::default() };
    add(vec![st(Op::Types { brk: None })], false, "final-types");
    let mut svcs: Vec<(Vec<u8>, bool)> = Vec::new();
    for a in &advs {
        for i in &a.cfg.insts {
            if !svcs.iter().any(|s| s.0.eq_ignore_ascii_case(&i.svc) && s.1 == i.tcp) {
                svcs.push((i.svc.clone(), i.tcp));
            }
        }
    }
    let mut b: Vec<Step> = svcs.iter().map(|(svc, tcp)| st(Op::Browse { svc: svc.clone(), tcp: *tcp, brk: None })).collect();
    b.truncate(6);
    add(b, false, "final-browse");
    let mut l = Vec::new();
    for a in &advs {
        for i in &a.cfg.insts {
            l.push(st(Op::Load { inst: i.inst.clone(), svc: i.svc.clone(), tcp: i.tcp }));
        }
    }
    let mut rest = l.split_off(l.len().min(4));
    rest.truncate(8);
    add(l, false, "final-load");
    add(rest, false, "final-load");
    let mut r = Vec::new();
    for a in &advs {
        for (n, _) in &a.cfg.names {
            let op = Op::Resolve { name: vec![n.clone(), b"local".to_vec()], text: None };
            if !r.iter().any(|s: &Step| s.op == op) {
                r.push(st(op));
            }
        }
    }
    r.truncate(12);
    add(r, true, "final-resolve");
    let advs: Vec<Rc<AdvCfg>> = advs.into_iter().map(|a| a.cfg).collect();
    let post: Post = Box::new(move |kn, rep| found(kn, rep, &advs));
    Setup { end: calm + 60 * SEC, restarted, post: Some(post), level: level() }
}

fn reply_size(recs: &[(Name, Data)], name: &Name, types: &[u16]) -> usize {
    12 + types.iter().map(|t| recs.iter().filter(|r| eq_ci(&r.0, name) && type_of(&r.1) == *t).map(|r| plain_size(&r.0, &r.1)).sum::<usize>()).sum::<usize>()
}

/// What the final clients found against what is advertised.
fn found(kn: &Kernel, rep: &mut Rep, advs: &[Rc<AdvCfg>]) {
    use crate::nodes::A as Ob;
    let recs: Vec<Vec<(Name, Data)>> = advs.iter().map(|c| c.records(&[])).collect();
    for (id, t) in kn.tasks.iter().enumerate() {
        if !t.name.starts_with("final") {
            continue;
        }
        let mut op: Option<Op> = None;
        let mut got: Vec<Vec<Vec<u8>>> = Vec::new();
        for h in kn.hist.iter().filter(|h| h.task == id) {
            let Ev::App(x) = &h.ev else { continue };
            match x.downcast_ref::<Ob>() {
                Some(Ob::Start(o)) => {
                    op = Some(o.clone());
                    got.clear();
                }
                Some(Ob::Cb(l)) => got.push(l.clone()),
                Some(Ob::End { res, .. }) => {
                    let Some(o) = op.take() else { continue };
                    let qn = crate::o_cli::op_name(&o, &nm("local"));
                    let ty = crate::o_cli::op_types(&o);
                    // every advertiser's answer has to fit one datagram
                    if recs.iter().any(|r| reply_size(r, &qn, &ty) > 1500) {
                        continue;
                    }
                    let lost = |rep: &mut Rep, what: String| rep.bad(&["C12"], "not found", h.t, format!("{}: {o:?}: {what}", t.name));
                    let ci = |a: &[u8], b: &[u8]| a.eq_ignore_ascii_case(b);
                    rep.ob("C12");
                    match &o {
                        Op::Types { .. } => {
                            for i in advs.iter().flat_map(|a| &a.insts) {
                                let tr = tr_label(i.tcp);
                                if !got.iter().any(|g| ci(&g[0], &i.svc) && g[1] == tr) {
                                    lost(rep, format!("service type {:?} missing from {got:?}", show(&i.svc_name())));
                                }
                            }
                        }
                        Op::Browse { svc, tcp, .. } => {
                            for i in advs.iter().flat_map(|a| &a.insts).filter(|i| ci(&i.svc, svc) && i.tcp == *tcp) {
                                if !got.iter().any(|g| ci(&g[0], &i.inst)) {
                                    lost(rep, format!("instance {} missing from {got:?}", show(&i.full_name())));
                                }
                            }
                        }
                        Op::Load { .. } => {
                            let Some(i) = advs.iter().flat_map(|a| &a.insts).find(|i| eq_ci(&i.full_name(), &qn)) else { continue };
                            let txt: Vec<(String, Option<Vec<u8>>)> = i.txt.iter().map(|(k, v)| (String::from_utf8_lossy(k).into_owned(), v.clone())).collect();
                            let ok = match res {
                                Res::Details { host, port, txt: got, .. } => {
                                    let mut a = txt.clone();
                                    let mut b = got.clone();
                                    a.sort();
                                    b.sort();
                                    eq_ci(host, &i.host) && *port == i.port && a == b
                                }
                                _ => false,
                            };
                            if !ok {
                                lost(rep, format!("published {i:?}, got {res:?}"));
                            }
                        }
                        Op::Resolve { name, .. } => {
                            // one response is enough: all addresses one advertiser has for the name
                            let sets: Vec<Vec<IpAddr>> = advs
                                .iter()
                                .map(|a| a.names.iter().filter(|n| eq_ci(&vec![n.0.clone(), b"local".to_vec()], name)).map(|n| n.1).collect::<Vec<_>>())
                                .filter(|v: &Vec<_>| !v.is_empty())
                                .collect();
                            let ok = match res {
                                Res::Ips(v) => sets.iter().any(|s| s.iter().all(|x| v.contains(x)) && v.iter().all(|x| s.contains(x))),
                                _ => sets.is_empty(),
                            };
                            if !ok {
                                lost(rep, format!("registered {sets:?}, got {res:?}"));
                            }
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }
    let _ = o_adv::type_matches;
}

// ---- taps -------------------------------------------------------------------------------------------

fn taps(sc: Sc) -> Setup {
    let errs = sc == Sc::TapErrno;
    let soak = sc == Sc::Soak;
    let nh = if soak { 1 } else { C.r(1, 2) as usize };
    let hosts: Vec<HostId> = (0..nh).map(|_| k().add_host()).collect();
    let cfg = Rc::new(adv_cfg(C, CfgOpt { big: C.p(100), ..Default::default() }));
    for (i, &h) in hosts.iter().enumerate() {
        let n = C.w(&[(4, 1), (1, 2)]);
        for j in 0..n {
            spawn_node(C.r(0, 50) * MS, format!("tap{i}{j}"), h, errs, None, tap_main);
        }
        if C.p(400) {
            let (cfg, mode) = (cfg.clone(), C.pick(&[Mode::Sync, Mode::Async]));
            spawn_node(C.r(0, 50) * MS, format!("adv{i}-{mode:?}"), h, false, None, move || adv_main(cfg, mode, vec![]));
        }
    }
    k().capture_logs = true;
    let ah = k().add_host();
    let asker = k().add_actor(ah, 45353, false, Box::new(Sink));
    let n = if soak { C.pick(&[400u64, 800, 1500]) } else { C.w(&[(3, 5u64), (3, 12), (1, 30)]) };
    let step = if soak { 5 } else { 40 };
    let span = n * step * MS + 200 * MS;
    faults(span + 300 * MS, Fx { net: true, damage: C.p(500), tasks: true, late: true, errs, send_errs: false });
    let mut t = 60 * MS;
    for i in 0..n {
        t += P.r(0, step) * MS;
        let mut b = adv_input(sc, &[&cfg], i as u16);
        if P.p(60) {
            // exactly as long as the receive buffer, or longer
            let mut m = NewMsg { id: i as u16, flags: F_QR, ..Default::default() };
            let n = P.pick(&[1500usize, 1501, 1499, 2000]);
            while m.encode(false).len() < n {
                m.secs[0].push(NewRr::new(&nm("filler.local"), Data::Txt(vec![vec![b'f'; 100]])));
            }
            b = m.encode(false);
            if P.p(500) {
                b.truncate(1500);
            }
        }
        let from = if P.p(200) { GROUP4 } else { k().actor_addr(asker) };
        let from = if soak && P.p(400) { anyone(P) } else { from };
        let to = if P.p(150) { SocketAddr::new(host4(hosts[0]), 5353) } else { GROUP4 };
        k().at(t, move || k().actor_send(asker, from, to, &b));
    }
    let quiet = span + 800 * MS + idle();
    let mut m = NewMsg { id: 0xf000, ..Default::default() };
    m.qs.push((nm("final.local"), ANY, 1));
    let b = m.encode(false);
    let from = k().actor_addr(asker);
    k().at(quiet, move || {
        k().f.rcvbuf = 256;
        k().actor_send(asker, from, GROUP4, &b)
    });
    let probes = vec![(0xf000u16, None)];
    let post: Post = Box::new(move |kn, rep| probes_arrived(kn, rep, &probes, quiet));
    Setup { end: quiet + SEC, restarted: Default::default(), post: Some(post), level: log::LevelFilter::Trace }
}

// ---- codec ------------------------------------------------------------------------------------------

fn word(g: G) -> u32 {
    match g.n(8) {
        0 => 0,
        1 => u32::MAX,
        2 => 0x01020304,
        3 => 1 << g.n(32),
        4 => (1u64 << g.r(1, 32)).wrapping_sub(1) as u32,
        5 => g.n(1 << 16) as u32,
        _ => (g.n(1 << 16) as u32) << 16 | g.n(1 << 16) as u32,
    }
}

fn any_record(g: G, share: &[Name], wide: bool) -> NewRr {
    let nme = |g: G| -> Name {
        if !share.is_empty() && g.p(500) {
            g.pick(share)
        } else {
            let mut n = any_name(g);
            if wide && g.p(100) {
                n = vec![vec![b'w'; 63], vec![b'x'; 63], vec![b'y'; 63], vec![b'z'; g.r(1, 61) as usize]];
            }
            n
        }
    };
    let d = match g.n(9) {
        0 => Data::A([g.n(256) as u8, 0, 0xc0, g.n(256) as u8]),
        1 => Data::Aaaa([0xfe, 0x80, 0, 0, 0, 0, 0xff, 0, 0, 0, 0, 0, 0, g.n(256) as u8, 0xc0, g.n(256) as u8]),
        2 => Data::Ptr(nme(g)),
        3 => Data::Srv(g.n(65536) as u16, g.n(65536) as u16, g.n(65536) as u16, nme(g)),
        4 => {
            let big = wide && g.p(40);
            let n = if big { g.r(15, 200) as usize } else { g.w(&[(3, 1usize), (3, 2), (1, 6), (1, 20)]) };
            Data::Txt(
                (0..n)
                    .map(|_| {
                        let l = if big { g.pick(&[255usize, 255, 200]) } else { g.w(&[(4, 5usize), (1, 0), (1, 255), (1, 254), (2, 40)]) };
                        (0..l).map(|i| if i == 0 { g.n(256) as u8 } else { b'a' + (i % 26) as u8 }).collect()
                    })
                    .collect(),
            )
        }
        5 => Data::Cname(nme(g)),
        6 => Data::Ns(nme(g)),
        7 => Data::Mx(g.n(65536) as u16, nme(g)),
        _ => Data::Soa(nme(g), nme(g), [0; 5].map(|_| word(g))),
    };
    let mut r = NewRr::new(&nme(g), d);
    r.class = g.w(&[(6, 1u16), (2, 0x8001), (1, 3), (1, 4), (1, 0x8004), (1, 254)]);
    r.ttl = if g.p(200) { word(g) } else { g.w(&[(4, 120u32), (1, 0), (1, u32::MAX), (1, 0x01020304)]) };
    r
}

fn any_msg(g: G) -> NewMsg {
    let mut m = NewMsg { id: g.n(65536) as u16, recent: g.p(300), ..Default::default() };
    m.flags = g.w(&[(3, 0u16), (3, F_QR | F_AA), (1, F_QR | F_RD | F_RA), (1, 0x7800), (1, 0x000f), (1, F_RD | 0x2800 | 3), (1, F_QR | 0x0005), (1, F_RA)]);
    let share: Vec<Name> = (0..g.n(3)).map(|_| any_name(g)).collect();
    for _ in 0..g.w(&[(3, 1), (2, 0), (2, 2), (1, 5)]) {
        let n = if !share.is_empty() && g.p(600) { g.pick(&share) } else { any_name(g) };
        m.qs.push((n, qtype(g), g.w(&[(6, 1u16), (1, 0x8001), (1, 255), (1, 3), (1, 0x0101)])));
    }
    for s in 0..3 {
        for _ in 0..g.w(&[(3, 1), (3, 0), (2, 2), (1, 4), (1, 8)]) {
            m.secs[s].push(any_record(g, &share, true));
        }
    }
    if g.p(40) {
        // far larger than any datagram of mDNS, with names behind where pointers can lead, and in reach
        let n = g.pick(&[5u64, 8, 9, 12, 20]);
        for _ in 0..n {
            let s = g.n(3);
            let i = g.n(m.secs[s].len() + 1);
            let name = any_name(g);
            let b = g.n(256) as u8;
            let big = (0..g.r(4, 9)).map(|_| vec![b; g.r(200, 255) as usize]).collect();
            m.secs[s].insert(i, NewRr::new(&name, Data::Txt(big)));
            let r = any_record(g, &share, true);
            m.secs[s].push(r);
        }
    }
    m
}

fn codec() -> Setup {
    let sh = k().add_host();
    let rh = k().add_host();
    let to: SocketAddr = SocketAddr::new(host4(rh), 5000);
    let n = C.w(&[(3, 3u64), (3, 8), (1, 16)]);
    let modes: Vec<u32> = (0..8).map(|_| C.w(&[(3, 0u32), (2, 0x10)]) | if C.p(400) { C.n(16) as u32 } else { 0 }).collect();
    spawn_node(0, "receiver".into(), rh, false, None, move || receiver_main(500, modes));
    faults(n * 10 * MS + 100 * MS, Fx { net: true, damage: true, tasks: false, late: false, errs: false, send_errs: false });
    let mut plans = Vec::new();
    let mut t = MS;
    for _ in 0..n {
        t += P.r(0, 10) * MS;
        let mut m = any_msg(P);
        let mut repeat = 0;
        if P.p(500) {
            // library-built
            let full = m.encode(false).len();
            let cap = match P.n(6) {
                0 => full,
                1 => full + P.r(0, 40) as usize,
                2 => (full - 1 - P.n((full - 12).max(1))).max(12),
                3 => 1500,
                4 => 512,
                _ => full.saturating_sub(P.r(0, 3) as usize).max(12),
            };
            let mut cap = cap;
            if P.p(4) {
                // more items than a count can hold
                m.qs = vec![(vec![], A, 1)];
                m.secs = Default::default();
                repeat = P.pick(&[65535u32, 65536, 66000]);
                cap = P.pick(&[400_000usize, 1500]);
            }
            plans.push(Plan { at: t, cap, msg: m, header_first: !P.p(300), to, repeat, drop_early: P.p(100), relay: P.p(200) });
        } else {
            let b = match P.w(&[(5, 0), (2, 1), (2, 2)]) {
                0 => m.encode(true),
                1 => {
                    let b = m.encode(!P.p(300));
                    let mut b = damage(P, &b);
                    for _ in 0..P.w(&[(3, 0), (1, 1), (1, 3)]) {
                        if !b.is_empty() {
                            b = damage(P, &b);
                        }
                    }
                    b
                }
                _ => hostile(P),
            };
            let from: SocketAddr = SocketAddr::new(host4(sh), 53);
            k().at(t, move || k().net_send(Some(sh), from, to, b.into(), true, 1));
        }
    }
    spawn_node(0, "server".into(), sh, false, None, move || server_main(plans));
    Setup { end: t + 2 * SEC, restarted: Default::default(), post: None, level: level() }
}
