//! One run: a scenario, a tape, a verdict.

use std::collections::BTreeMap;

use crate::kernel::*;
use crate::nodes::{Res, A as Ob};
use crate::report::Rep;
use crate::scen::{self, Sc};
use crate::tape::{mix, Streams, Tape};
use crate::{codec, interpose, o_adv, o_cli, o_tap};

pub struct Out {
    pub rep: Rep,
    pub hash: u64,
    pub sig: u64,
    pub rec: Streams,
    pub trace: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub sim_us: u64,
    pub steps: u64,
    pub switches: u64,
    pub events: u64,
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _off = crate::mem::off();
        // formatting runs the library's Display code even if nobody looks at the text
        let text = r.args().to_string();
        if let Some(k) = in_sim() {
            if k.capture_logs || k.trace.is_some() {
                let id = k.cur.unwrap();
                if k.capture_logs {
                    k.log_ev(id, Ev::Log { level: r.level(), text });
                } else {
                    tr!(k, "{}: log {} {text}", k.tasks[id].name, r.level());
                }
            }
        }
    }
    fn flush(&self) {}
}

pub fn init() {
    let _ = interpose::socket as *const () as usize;
    log::set_logger(&Logger).unwrap();
    async_io::sim::install(async_io::sim::Hooks {
        readable: |fd, w| {
            let _off = crate::mem::off();
            Kernel::reg_readable(fd, w)
        },
        writable: |fd, w| {
            let _off = crate::mem::off();
            Kernel::reg_writable(fd, w)
        },
        timer: |d, w| {
            let _off = crate::mem::off();
            k().reg_timer(d, w)
        },
        cancel_timer: |id| k().cancel_timer(id),
        account: crate::mem::set,
    });
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if in_sim().is_none() {
            old(i);
        }
    }));
}

fn once(sc: Sc, alt: bool, tape: Tape, trace: bool) -> (Box<Kernel>, Rep) {
    Kernel::install(tape, trace);
    let s = scen::setup(sc, alt);
    log::set_max_level(s.level);
    Kernel::run_until(s.end);
    let overrun = k().overrun;
    k().overrun = false;
    Kernel::shutdown();
    let mut kn = Kernel::uninstall();
    kn.overrun |= overrun;
    let mut rep = Rep::default();
    let restarted = s.restarted.borrow().clone();
    if kn.livelock {
        rep.bad(&["*"], "livelock", kn.now, "a node keeps calling into the kernel without ever waiting");
    } else if kn.overrun {
        rep.bad(&["*"], "never settles", kn.now, "the nodes keep each other busy beyond the step limit");
    } else {
        o_adv::check(&kn, &mut rep, &restarted);
        o_cli::check(&kn, &mut rep);
        o_tap::check(&kn, &mut rep);
        codec::check(&kn, &mut rep);
        for (id, t, d, what) in &kn.blocked {
            let n = &kn.tasks[*id].name;
            rep.bad(&["C22"], "future blocks its thread", *t, format!("{n}: polling the operation keeps the thread {what} for {:.3} ms", *d as f64 / 1e6));
        }
        if let Some(m) = &kn.mem {
            growth(&kn, m, &mut rep);
        }
        if sc == Sc::Shared {
            for v in rep.v.iter_mut() {
                v.props.push("C22");
            }
            let n = rep.ob.values().sum();
            if kn.tasks.iter().filter(|t| t.exec != 0).count() > 1 {
                rep.ob.insert("C22", n);
            }
        }
        if let Some(p) = s.post {
            p(&kn, &mut rep);
        }
    }
    (kn, rep)
}

/// Of a very long run, the beginning and the end.
fn shortened(mut t: Vec<String>) -> Vec<String> {
    const HEAD: usize = 400;
    const TAIL: usize = 4000;
    if t.len() > HEAD + TAIL + 1 {
        let n = t.len() - HEAD - TAIL;
        t.splice(HEAD..HEAD + n, [format!("---- {n} more lines ----")]);
    }
    t
}

fn out(kn: Box<Kernel>, rep: Rep) -> Out {
    let kn = *kn;
    Out {
        rep,
        hash: kn.hash,
        sig: kn.sig,
        sim_us: kn.now / 1000,
        steps: kn.steps,
        switches: kn.switches,
        events: kn.hist.len() as u64,
        stats: kn.stats,
        trace: shortened(kn.trace.unwrap_or_default()),
        rec: kn.tape.rec,
    }
}

pub fn run(sc: Sc, tape: Tape, trace: bool) -> Out {
    let (kn, mut rep) = once(sc, false, tape, trace);
    if !scen::paired(sc) {
        return out(kn, rep);
    }
    let (kb, rb) = once(sc, true, Tape::replay(kn.tape.rec.clone()), trace);
    compare(&kn, &kb, &mut rep);
    for v in rb.v {
        rep.v.push(v);
    }
    for (p, n) in rb.ob {
        *rep.ob.entry(p).or_insert(0) += n;
    }
    let b = out(kb, Rep::default());
    let mut a = out(kn, rep);
    a.hash = mix(a.hash, b.hash);
    a.sim_us += b.sim_us;
    a.steps += b.steps;
    a.switches += b.switches;
    a.events += b.events;
    for (s, n) in b.stats {
        *a.stats.entry(s).or_insert(0) += n;
    }
    if trace {
        a.trace.insert(0, "---- synchronous run ----".into());
        a.trace.push("---- asynchronous run ----".into());
        a.trace.extend(b.trace);
    }
    a
}

// ---- C23: what nodes hold ---------------------------------------------------------------------------

/// What a node may come to hold after it has been in use for a while, beyond the most it held before.
const SLACK: i64 = 16 << 10;
/// What handling one datagram or call may need at a time.
const PEAK: i64 = 1 << 20;

fn growth(kn: &Kernel, m: &BTreeMap<TaskId, Vec<(u64, i64, i64, usize)>>, rep: &mut Rep) {
    for (id, v) in m {
        let name = &kn.tasks[*id].name;
        let warm = if name.starts_with("adv") || name.starts_with("tap") { 100 } else { 30 };
        let base = v.iter().take(warm).map(|x| x.1).max().unwrap_or(0);
        let socks = v.iter().take(warm).map(|x| x.3).max().unwrap_or(0);
        for (i, x) in v.iter().enumerate() {
            if i >= warm {
                rep.ob("C23");
            }
            let what = if i >= warm && x.1 > base + SLACK {
                format!("holds {} bytes after {i} datagrams or calls, {base} in the beginning", x.1)
            } else if i >= warm && x.3 > socks + 1 {
                format!("holds {} sockets after {i} calls, {socks} in the beginning", x.3)
            } else if x.2 > base.max(0) + PEAK {
                format!("allocated {} bytes to handle one datagram or call", x.2)
            } else {
                continue;
            };
            rep.bad(&["C23"], "grows with use", x.0, format!("{name} {what}"));
            break;
        }
    }
}

// ---- C14: the same history, synchronous and asynchronous --------------------------------------------

fn norm(r: &Res) -> String {
    match r {
        Res::Err { kind: std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut, .. } => "timeout".into(),
        Res::Err { kind, .. } => format!("error {kind:?}"),
        x => format!("{x:?}"),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// What the node under comparison did, as far as anybody can tell from outside.
fn observed(kn: &Kernel) -> Vec<(u64, String)> {
    let mut v = Vec::new();
    for h in kn.hist.iter().filter(|h| h.task == 0) {
        let s = match &h.ev {
            Ev::Send { to, data, err, .. } => format!("sends to {to} (error {err:?}) {}", hex(data)),
            Ev::App(x) => match x.downcast_ref::<Ob>() {
                Some(Ob::Cb(l)) => format!("reports {l:?}"),
                Some(Ob::End { res, .. }) => format!("returns {}", norm(res)),
                Some(Ob::NewEnd(r)) => format!("created: {}", norm(r)),
                Some(Ob::AdvNewEnd(r)) => format!("created: {}", norm(r)),
                Some(Ob::ListenEnd(r)) => format!("stops listening: {}", norm(r)),
                Some(Ob::Rejected(i)) => format!("rejects instance {i}"),
                Some(Ob::Start(op)) => format!("starts {op:?}"),
                _ => continue,
            },
            Ev::Exited => match &kn.tasks[0].exit {
                Some(Exit::Panic(m)) => format!("panics: {m}"),
                Some(Exit::Livelock) => "hangs".into(),
                _ => continue,
            },
            _ => continue,
        };
        v.push((h.t, s));
    }
    v
}

fn compare(a: &Kernel, b: &Kernel, rep: &mut Rep) {
    if a.tie || b.tie || a.livelock || b.livelock || a.overrun || b.overrun {
        return;
    }
    let (x, y) = (observed(a), observed(b));
    rep.ob("C14");
    let slack = |i: usize| 30 * US + i as u64 * 5 * US;
    for i in 0..x.len().max(y.len()) {
        let (p, q) = (x.get(i), y.get(i));
        let same = match (p, q) {
            (Some(p), Some(q)) => p.1 == q.1 && p.0.abs_diff(q.0) <= slack(i),
            _ => false,
        };
        if !same {
            let t = p.or(q).map_or(0, |e| e.0);
            let show = |e: Option<&(u64, String)>| e.map_or("nothing".into(), |(t, s)| format!("{s} at {:.3} ms", *t as f64 / 1e6));
            rep.bad(&["C14"], "twins differ", t, format!("event {i}: the synchronous node {}, the asynchronous one {}", show(p), show(q)));
            return;
        }
    }
}
