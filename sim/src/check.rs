//! The search: many seeded runs over all cores, determinism re-checks, minimisation, replay, evidence.

use std::collections::BTreeMap;

use crate::tape::HashSet;
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

use crate::run::{run, Out};
use crate::scen::{self, by_name, Sc};
use crate::tape::{mix, Streams, Tape, NS, SNAMES};

const WORKERS: usize = 8;
const RUN_CPU_S: i64 = 10;
/// Runs of tens of thousands of datagrams or calls.
const LONG_RUN_CPU_S: i64 = 60;

/// For each property: the scenarios that exercise it with their weights, and the number of quick runs.
fn plan(p: &str) -> Option<(Vec<(Sc, u32)>, u64)> {
    use Sc::*;
    Some(match p {
        "C01" => (vec![(AdvPlain, 6), (AdvHostile, 1), (AdvShare, 1), (AdvBig, 1), (AdvSpoof, 1), (AdvErrno, 1), (AdvCancel, 1)], 100_000),
        "C02" => (vec![(AdvSpoof, 6), (AdvPlain, 1), (AdvHostile, 2), (AdvBig, 1), (AdvShare, 1)], 100_000),
        "C03" => (vec![(AdvHostile, 8), (AdvErrno, 1), (AdvSpoof, 1)], 200_000),
        "C04" => (vec![(AdvBig, 8), (AdvPlain, 1)], 40_000),
        "C05" => (vec![(Resolve, 6), (ResolveCancel, 1), (ResolveErrno, 1)], 800_000),
        "C06" => (vec![(Resolve, 6), (ResolveErrno, 2)], 800_000),
        "C07" => (vec![(Resolve, 3), (Discover, 3), (DiscoverErrno, 1), (ResolveErrno, 1)], 250_000),
        "C08" => (vec![(Discover, 6), (DiscoverErrno, 1), (DiscoverCancel, 1)], 200_000),
        "C09" => (vec![(Discover, 6), (DiscoverCancel, 1), (DiscoverErrno, 1)], 200_000),
        "C10" => (vec![(Discover, 6), (DiscoverErrno, 2)], 200_000),
        "C11" => (vec![(Discover, 6), (DiscoverErrno, 1), (DiscoverCancel, 1)], 200_000),
        "C12" => (vec![(EndToEnd, 1)], 80_000),
        "C13" => (vec![(AdvErrno, 3), (ResolveErrno, 3), (DiscoverErrno, 3), (TapErrno, 2)], 250_000),
        "C14" => (vec![(PairAdv, 3), (PairResolve, 3), (PairDiscover, 3)], 120_000),
        "C15" => (vec![(AdvCancel, 2), (ResolveCancel, 3), (DiscoverCancel, 3)], 200_000),
        "C16" => (vec![(Tap, 5), (TapErrno, 1)], 200_000),
        "C17" => (vec![(AdvShare, 5), (AdvPlain, 1), (Tap, 1)], 100_000),
        "C18" => (vec![(Codec, 1)], 200_000),
        "C19" => (vec![(Codec, 1)], 200_000),
        "C23" => (vec![(Soak, 1)], 6_000),
        "C22" => (vec![(Shared, 12), (ResolveCancel, 1), (DiscoverCancel, 1), (AdvCancel, 1)], 100_000),
        _ => return None,
    })
}

/// The first runs of a check use one node for very long.
fn long_runs(p: &str) -> &'static [Sc] {
    use Sc::*;
    match p {
        "C01" | "C02" | "C03" => &[LongAdv(0), LongAdv(1), LongAdv(0), LongAdv(1)],
        "C05" | "C06" => &[LongResolve(0), LongResolve(1), LongResolve(2), LongResolve(3), LongResolve(4), LongResolve(5)],
        "C07" => &[LongResolve(0), LongResolve(1), LongResolve(2), LongResolve(3), LongDiscover(0), LongDiscover(1), LongDiscover(6), LongDiscover(7)],
        "C08" | "C09" | "C10" => {
            &[LongDiscover(0), LongDiscover(1), LongDiscover(2), LongDiscover(3), LongDiscover(4), LongDiscover(5), LongDiscover(6), LongDiscover(7)]
        }
        "C11" => &[LongDiscover(6), LongDiscover(7)],
        "C13" => &[LongResolve(4), LongResolve(5), LongDiscover(4), LongDiscover(5)],
        "C16" => &[LongTap; 3],
        "C23" => &[
            LongAdv(0), LongAdv(1), LongTap, LongResolve(0), LongResolve(1), LongResolve(4), LongResolve(5), LongDiscover(0), LongDiscover(1),
            LongDiscover(4), LongDiscover(5), LongDiscover(6), LongDiscover(7),
        ],
        _ => &[],
    }
}

fn pick_run(p: &str, seed: u64, i: u64) -> (Sc, u64) {
    let (scs, _) = plan(p).unwrap();
    let tot: u32 = scs.iter().map(|s| s.1).sum();
    let salt = p.bytes().fold(7u64, |a, b| mix(a, b as u64));
    let s = mix(mix(seed, salt), i);
    if let Some(sc) = long_runs(p).get(i as usize) {
        return (*sc, s);
    }
    let mut x = (mix(s, 99) % tot as u64) as u32;
    for (sc, w) in scs {
        if x < w {
            return (sc, s);
        }
        x -= w;
    }
    unreachable!()
}

fn base() -> PathBuf {
    // <base>/sim/target/release/uwusim
    std::env::var_os("UWUSIM_BASE").map(PathBuf::from).unwrap_or_else(|| {
        let e = std::env::current_exe().unwrap();
        e.ancestors().nth(4).unwrap().to_path_buf()
    })
}

// ---- known findings ---------------------------------------------------------------------------------

struct Known {
    prop: String,
    class: String,
    detail: String,
}
fn known(base: &Path) -> Vec<Known> {
    let mut v = Vec::new();
    for l in fs::read_to_string(base.join("known_findings.txt")).unwrap_or_default().lines() {
        // finding: property=<id> class="..." detail="..." -- description
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let f = |k: &str| r.split_once(&format!("{k}=\"")).and_then(|x| x.1.split_once('"')).map(|x| x.0.to_string());
        if let (Some((p, _)), Some(c), Some(d)) = (r.split_once(' '), f("class"), f("detail")) {
            v.push(Known { prop: p.into(), class: c, detail: d });
        }
    }
    v
}

struct Verdict {
    class: String,
    msg: String,
}
fn verdict(o: &Out, p: &str, kn: &[Known], hits: &mut BTreeMap<String, String>) -> Option<Verdict> {
    let mut vs: Vec<_> = o.rep.v.iter().filter(|v| v.props.iter().any(|x| *x == p || *x == "*")).collect();
    vs.sort_by_key(|v| v.t);
    for v in vs {
        match kn.iter().find(|k| k.prop == p && k.class == v.class && v.msg.contains(&k.detail)) {
            Some(k) => {
                hits.entry(format!("{}: {}", k.class, k.detail)).or_insert_with(|| v.msg.clone());
            }
            None => return Some(Verdict { class: v.class.clone(), msg: v.msg.clone() }),
        }
    }
    None
}

// ---- isolated runs ----------------------------------------------------------------------------------

enum Iso {
    Done { class: String, msg: String, hash: u64, rec: Streams, trace: String },
    Dead(i32),
    Harness(String),
}

fn cpu_s(sc: Sc) -> i64 {
    if scen::is_long(sc) {
        LONG_RUN_CPU_S
    } else {
        RUN_CPU_S
    }
}
fn limit_cpu(sc: Sc) {
    unsafe {
        let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: cpu_s(sc) as _, tv_usec: 0 } };
        libc::setitimer(libc::ITIMER_VIRTUAL as _, &t, std::ptr::null_mut());
    }
}
fn limit_mem() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}
fn quiet_stderr() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
        }
    }
}

fn put_str(b: &mut Vec<u8>, s: &str) {
    b.extend((s.len() as u64).to_le_bytes());
    b.extend(s.as_bytes());
}
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn n(&mut self) -> u64 {
        if self.0.len() < 8 {
            self.0 = &[];
            return 0;
        }
        let (a, r) = self.0.split_at(8);
        self.0 = r;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn s(&mut self) -> String {
        let n = (self.n() as usize).min(self.0.len());
        let (a, r) = self.0.split_at(n);
        self.0 = r;
        String::from_utf8_lossy(a).into_owned()
    }
}

/// Runs in a child process, which may crash or hang.
fn isolated(p: &str, sc: Sc, tape: Tape, trace: bool, kn: &[Known]) -> Iso {
    unsafe {
        let mut fds = [0; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Iso::Harness("pipe failed".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Iso::Harness("fork failed".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            limit_mem();
            limit_cpu(sc);
            quiet_stderr();
            let o = run(sc, tape, trace);
            let v = verdict(&o, p, kn, &mut BTreeMap::new());
            let (class, msg) = v.map_or_else(Default::default, |v| (v.class, v.msg));
            let mut b = Vec::new();
            put_str(&mut b, &class);
            put_str(&mut b, &msg);
            b.extend(o.hash.to_le_bytes());
            for s in &o.rec {
                b.extend((s.len() as u64).to_le_bytes());
                for x in s {
                    b.extend((*x as u64).to_le_bytes());
                }
            }
            put_str(&mut b, &o.trace.join("\n"));
            let mut f = fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&b);
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut b = Vec::new();
        let _ = fs::File::from_raw_fd(fds[0]).read_to_end(&mut b);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            return match libc::WTERMSIG(st) {
                libc::SIGKILL | libc::SIGTERM | libc::SIGINT => Iso::Harness(format!("child ended by signal {}", libc::WTERMSIG(st))),
                s => Iso::Dead(s),
            };
        }
        if libc::WEXITSTATUS(st) != 0 || b.is_empty() {
            return Iso::Harness(format!("child exited with {}", libc::WEXITSTATUS(st)));
        }
        let mut r = Rd(&b);
        let (class, msg, hash) = (r.s(), r.s(), r.n());
        let mut rec: Streams = Default::default();
        for s in rec.iter_mut() {
            let n = r.n();
            for _ in 0..n {
                s.push(r.n() as u32);
            }
        }
        Iso::Done { class, msg, hash, rec, trace: r.s() }
    }
}

fn dead_class(sc: Sc, sig: i32) -> (String, String) {
    if sig == libc::SIGVTALRM {
        ("hang".into(), format!("a node computes for more than {} s of CPU time without coming to an end", cpu_s(sc)))
    } else {
        (format!("crash signal {sig}"), format!("the process running the nodes was ended by signal {sig}"))
    }
}

struct Failure {
    class: String,
    msg: String,
    hash: u64,
    tape: Option<Streams>,
    trace: String,
}
fn attempt(p: &str, sc: Sc, tape: Tape, trace: bool, kn: &[Known]) -> Result<Option<Failure>, String> {
    Ok(match isolated(p, sc, tape, trace, kn) {
        Iso::Done { class, .. } if class.is_empty() => None,
        Iso::Done { class, msg, hash, rec, trace } => Some(Failure { class, msg, hash, tape: Some(rec), trace }),
        Iso::Dead(s) => {
            let (class, msg) = dead_class(sc, s);
            Some(Failure { class, msg, hash: 0, tape: None, trace: String::new() })
        }
        Iso::Harness(e) => return Err(e),
    })
}

// ---- minimisation -----------------------------------------------------------------------------------

fn trim(s: &mut Streams) {
    for x in s.iter_mut() {
        while x.last() == Some(&0) {
            x.pop();
        }
    }
}
fn cost(s: &Streams) -> (usize, usize, u64) {
    let nz = s.iter().flatten().filter(|x| **x != 0).count();
    let len = s.iter().map(|x| x.len()).sum();
    (nz, len, s.iter().flatten().map(|x| *x as u64).sum())
}

fn minimise(p: &str, sc: Sc, first: Failure, kn: &[Known], budget_s: f64) -> (Failure, u64) {
    let t0 = Instant::now();
    let class = first.class.clone();
    let Some(mut best) = first.tape.clone() else { return (first, 0) };
    trim(&mut best);
    let mut bestf = first;
    let mut tries = 0;
    let over = |t: u64| t0.elapsed().as_secs_f64() > budget_s || t > 6000;
    let mut try_ = |cand: Streams, best: &mut Streams, bestf: &mut Failure, tries: &mut u64| -> bool {
        let mut c = cand;
        trim(&mut c);
        if cost(&c) >= cost(best) {
            return false;
        }
        *tries += 1;
        if let Ok(Some(f)) = attempt(p, sc, Tape::replay(c.clone()), false, kn) {
            if f.class == class {
                let mut r = f.tape.clone().unwrap_or(c.clone());
                trim(&mut r);
                *best = if cost(&r) <= cost(&c) { r } else { c };
                *bestf = f;
                return true;
            }
        }
        false
    };
    loop {
        let before = cost(&best);
        for s in (0..NS).rev() {
            if over(tries) {
                break;
            }
            let mut c = best.clone();
            c[s].clear();
            try_(c, &mut best, &mut bestf, &mut tries);
            let mut size = best[s].len().next_power_of_two() / 2;
            while size >= 1 {
                let mut i = 0;
                while i < best[s].len() && !over(tries) {
                    let e = (i + size).min(best[s].len());
                    // cut out
                    let mut c = best.clone();
                    c[s].drain(i..e);
                    if try_(c, &mut best, &mut bestf, &mut tries) {
                        continue;
                    }
                    // simplest choices instead
                    if best[s][i..e].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        c[s][i..e].fill(0);
                        try_(c, &mut best, &mut bestf, &mut tries);
                    }
                    i += size;
                }
                size /= 2;
            }
            // smaller values
            let mut i = 0;
            while i < best[s].len() && !over(tries) {
                for d in [1u32, best[s][i] / 2, best[s][i].saturating_sub(1)] {
                    if i < best[s].len() && d < best[s][i] {
                        let mut c = best.clone();
                        c[s][i] = d;
                        try_(c, &mut best, &mut bestf, &mut tries);
                    }
                }
                i += 1;
            }
        }
        if cost(&best) >= before || over(tries) {
            break;
        }
    }
    bestf.tape = Some(best);
    (bestf, tries)
}

// ---- replay files -----------------------------------------------------------------------------------

fn tape_lines(s: &Streams) -> String {
    let mut o = String::new();
    for (i, x) in s.iter().enumerate() {
        let v: Vec<String> = x.iter().map(|y| y.to_string()).collect();
        let _ = writeln!(o, "tape {} {}", SNAMES[i], v.join(" "));
    }
    o
}

fn write_replay(path: &Path, p: &str, sc: Sc, seed: u64, idx: u64, f: &Failure, full: bool) {
    let mut o = String::from("uwusim-replay v1\n");
    let _ = writeln!(o, "property {p}\nscenario {}\nseed {seed}\nrun {idx}\nclass {}\nhash {:016x}", scen::name(sc), f.class, f.hash);
    match &f.tape {
        Some(t) if !full => o += &tape_lines(t),
        _ => o += "tape seeded\n",
    }
    let _ = writeln!(o, "message {}", f.msg.replace('\n', " "));
    let _ = writeln!(o, "trace (of the minimised run; not read back)");
    o += &f.trace;
    o.push('\n');
    let _ = fs::write(path, o);
}

pub fn replay(path: &str) -> i32 {
    let Ok(t) = fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string())).unwrap_or_default();
    let p = get("property ");
    let Some(sc) = by_name(&get("scenario ")) else { return 2 };
    let seed: u64 = get("seed ").parse().unwrap_or(0);
    let class = get("class ");
    let hash = get("hash ");
    let mut s: Streams = Default::default();
    for (i, n) in SNAMES.iter().enumerate() {
        s[i] = get(&format!("tape {n} ")).split_whitespace().filter_map(|x| x.parse().ok()).collect();
    }
    let tape = if t.contains("\ntape seeded\n") { Tape::seeded(seed) } else { Tape::replay(s) };
    match attempt(&p, sc, tape, true, &[]) {
        Ok(Some(f)) => {
            println!("{}", f.trace);
            println!("class: {}\nmessage: {}", f.class, f.msg);
            let exact = f.class == class && format!("{:016x}", f.hash) == hash;
            println!("replay {}", if exact { "reproduces the recorded run exactly" } else { "differs from the recorded run (was the code changed since?)" });
            println!("VIOLATION property={p} replay={path}");
            1
        }
        Ok(None) => {
            println!("no violation of {p} in this run on the current tree");
            0
        }
        Err(e) => {
            eprintln!("{e}");
            3
        }
    }
}

// ---- the search -------------------------------------------------------------------------------------

#[repr(C)]
struct Shared {
    min_bad: AtomicU64,
    stop: AtomicU64,
    cur: [AtomicU64; WORKERS],
    done: [AtomicU64; WORKERS],
}

#[derive(Default)]
struct Sum {
    runs: u64,
    sim_us: u64,
    steps: u64,
    switches: u64,
    events: u64,
    rechecks: u64,
    obligations: u64,
    relevant: u64,
    stats: BTreeMap<String, u64>,
    scen: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    known: BTreeMap<String, String>,
    samples: Vec<String>,
    nondet: Option<String>,
}

fn sum_bytes(s: &Sum) -> Vec<u8> {
    let mut b = Vec::new();
    for x in [s.runs, s.sim_us, s.steps, s.switches, s.events, s.rechecks, s.obligations, s.relevant] {
        b.extend(x.to_le_bytes());
    }
    for m in [&s.stats, &s.scen] {
        b.extend((m.len() as u64).to_le_bytes());
        for (k, v) in m {
            put_str(&mut b, k);
            b.extend(v.to_le_bytes());
        }
    }
    b.extend((s.known.len() as u64).to_le_bytes());
    for (k, v) in &s.known {
        put_str(&mut b, k);
        put_str(&mut b, v);
    }
    b.extend((s.samples.len() as u64).to_le_bytes());
    for x in &s.samples {
        put_str(&mut b, x);
    }
    put_str(&mut b, s.nondet.as_deref().unwrap_or(""));
    b.extend((s.sigs.len() as u64).to_le_bytes());
    for x in &s.sigs {
        b.extend(x.to_le_bytes());
    }
    b
}
fn sum_add(t: &mut Sum, b: &[u8]) {
    let mut r = Rd(b);
    t.runs += r.n();
    t.sim_us += r.n();
    t.steps += r.n();
    t.switches += r.n();
    t.events += r.n();
    t.rechecks += r.n();
    t.obligations += r.n();
    t.relevant += r.n();
    for m in [&mut t.stats, &mut t.scen] {
        for _ in 0..r.n() {
            let k = r.s();
            *m.entry(k).or_insert(0) += r.n();
        }
    }
    for _ in 0..r.n() {
        let k = r.s();
        let v = r.s();
        t.known.entry(k).or_insert(v);
    }
    for _ in 0..r.n() {
        let s = r.s();
        t.samples.push(s);
    }
    let nd = r.s();
    if !nd.is_empty() {
        t.nondet.get_or_insert(nd);
    }
    for _ in 0..r.n() {
        let x = r.n();
        t.sigs.insert(x);
    }
}

/// One run of the search. Returns whether it breaks the property, and its trace hash.
fn one(p: &str, seed: u64, i: u64, want_sample: bool, recheck: bool, kn: &[Known], s: &mut Sum) -> (bool, u64) {
    let (sc, rs) = pick_run(p, seed, i);
    limit_cpu(sc);
    let o = run(sc, Tape::seeded(rs), want_sample);
    s.runs += 1;
    s.sim_us += o.sim_us;
    s.steps += o.steps;
    s.switches += o.switches;
    s.events += o.events;
    for (k, v) in &o.stats {
        *s.stats.entry(k.to_string()).or_insert(0) += v;
    }
    *s.scen.entry(scen::name(sc).into()).or_insert(0) += 1;
    let ob = o.rep.ob.get(p).copied().unwrap_or(0);
    s.obligations += ob;
    if ob > 0 {
        s.relevant += 1;
        s.sigs.insert(o.sig);
        if want_sample {
            let mut x = format!("run {i}, scenario {}, seed {rs}: {} choices, {} events, {} obligations of {p}; begins:\n", scen::name(sc), o.rec.iter().map(|r| r.len()).sum::<usize>(), o.events, ob);
            let mut t = o.trace.clone();
            t.truncate(40);
            x += &t.join("\n");
            x.truncate(x.char_indices().nth(4000).map_or(x.len(), |c| c.0));
            s.samples.push(x);
        }
    }
    if verdict(&o, p, kn, &mut s.known).is_some() {
        return (true, o.hash);
    }
    if recheck {
        limit_cpu(sc);
        s.rechecks += 1;
        let h = o.hash;
        let a = run(sc, Tape::replay(o.rec), false).hash;
        if a != h {
            s.nondet = Some(format!("run {i} ({}, seed {rs}) replays differently: {h:016x} against {a:016x}", scen::name(sc)));
        }
    }
    (false, o.hash)
}

/// The same in a process of its own; `None` if that failed.
fn one_apart(p: &str, seed: u64, i: u64, want_sample: bool, kn: &[Known], s: &mut Sum) -> Option<(bool, u64)> {
    unsafe {
        let mut fds = [0; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            libc::close(fds[0]);
            let mut s = Sum::default();
            let (bad, h) = one(p, seed, i, want_sample, false, kn, &mut s);
            let mut b = vec![bad as u8];
            b.extend(h.to_le_bytes());
            b.extend(sum_bytes(&s));
            let mut f = fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&b);
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut b = Vec::new();
        let _ = fs::File::from_raw_fd(fds[0]).read_to_end(&mut b);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            // whatever ended the run ends this worker
            libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
            libc::raise(libc::WTERMSIG(st));
            return None;
        }
        if b.len() < 9 {
            return None;
        }
        sum_add(s, &b[9..]);
        Some((b[0] != 0, u64::from_le_bytes(b[1..9].try_into().unwrap())))
    }
}

fn worker(w: usize, p: &str, seed: u64, n: u64, sh: &Shared, out: &Path, kn: &[Known], wall_s: f64, apart: bool) {
    limit_mem();
    quiet_stderr();
    let t0 = Instant::now();
    let mut s = Sum::default();
    let mut i = w as u64;
    while i < n && i < sh.min_bad.load(Ordering::Relaxed) && sh.stop.load(Ordering::Relaxed) == 0 {
        if t0.elapsed().as_secs_f64() > wall_s {
            break;
        }
        sh.cur[w].store(i, Ordering::Relaxed);
        let want_sample = w == 0 && s.samples.len() < 3 && i % 64 == 0;
        let recheck = (i / WORKERS as u64) % 50 == 7;
        let bad = if apart {
            let (bad, h) = one_apart(p, seed, i, want_sample, kn, &mut s).expect("run in a process of its own");
            if recheck && !bad {
                s.rechecks += 1;
                let (_, a) = one_apart(p, seed, i, false, kn, &mut Sum::default()).expect("run in a process of its own");
                if a != h {
                    s.nondet = Some(format!("run {i} ends differently: {h:016x} against {a:016x}"));
                }
            }
            bad
        } else {
            one(p, seed, i, want_sample, recheck, kn, &mut s).0
        };
        if bad {
            sh.min_bad.fetch_min(i, Ordering::Relaxed);
            break;
        }
        if s.nondet.is_some() {
            sh.stop.store(1, Ordering::Relaxed);
            break;
        }
        i += WORKERS as u64;
        sh.done[w].store(i, Ordering::Relaxed);
    }
    fs::write(out, sum_bytes(&s)).unwrap();
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn search(p: &str, seed: u64, n: u64, sh: &Shared, tmp: &Path, kn: &[Known], wall: f64, apart: bool) -> Result<Sum, String> {
    sh.min_bad.store(u64::MAX, Ordering::Relaxed);
    sh.stop.store(0, Ordering::Relaxed);
    let mut pids = Vec::new();
    for w in 0..WORKERS {
        let f = tmp.join(format!("w{w}"));
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(w, p, seed, n, sh, &f, kn, wall, apart)));
            unsafe { libc::_exit(if r.is_ok() { 0 } else { 9 }) };
        }
        if pid < 0 {
            return Err("fork failed".into());
        }
        pids.push(pid);
    }
    let mut dead: Vec<(u64, i32)> = Vec::new();
    let mut harness = None;
    for _ in 0..WORKERS {
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        let Some(w) = pids.iter().position(|x| *x == pid) else { continue };
        let i = sh.cur[w].load(Ordering::Relaxed);
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if matches!(s, libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP) {
                harness = Some(format!("worker {w} was ended by signal {s} in run {i}"));
            } else {
                dead.push((i, s));
                sh.min_bad.fetch_min(i, Ordering::Relaxed);
            }
        } else if libc::WEXITSTATUS(st) != 0 {
            harness = Some(format!("the harness itself failed in run {i} (worker {w})"));
            sh.stop.store(1, Ordering::Relaxed);
        }
    }
    let mut s = Sum::default();
    for w in 0..WORKERS {
        let f = tmp.join(format!("w{w}"));
        if let Ok(b) = fs::read(&f) {
            sum_add(&mut s, &b);
            let _ = fs::remove_file(&f);
        }
    }
    match harness {
        Some(h) => Err(h),
        None => Ok(s),
    }
}

fn check(p: &str, tier: &str, seed: u64, runs: Option<u64>) -> i32 {
    let Some((scs, quick)) = plan(p) else {
        eprintln!("unknown property {p}");
        return 2;
    };
    let t0 = Instant::now();
    let base = base();
    let kn = known(&base);
    let out = base.join("out");
    let tmp = out.join(format!("work-{}-{}", p, std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let thorough = tier == "thorough";
    let n = runs.unwrap_or(if thorough { quick * 20 } else { quick });
    let wall = if thorough { 780.0 } else { 300.0 };
    let sh: &Shared = unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(m != libc::MAP_FAILED);
        &*(m as *const Shared)
    };
    // Runs share processes, which is fast. If the code under test carries something from one run to the
    // next (a static, a cache), they are made again, each in a process of its own.
    let mut apart = false;
    let mut s;
    let bad;
    let mut first;
    loop {
        s = match search(p, seed, n, sh, &tmp, &kn, (wall - t0.elapsed().as_secs_f64()).max(10.0), apart) {
            Ok(s) => s,
            Err(e) => {
                let _ = fs::remove_dir_all(&tmp);
                eprintln!("ERROR: {e}");
                return 3;
            }
        };
        let b = sh.min_bad.load(Ordering::Relaxed);
        first = Ok(None);
        let mut odd = s.nondet.as_ref().map(|h| format!("not deterministic: {h}"));
        if b != u64::MAX {
            let (sc, rs) = pick_run(p, seed, b);
            first = attempt(p, sc, Tape::seeded(rs), false, &kn);
            if let Ok(None) = first {
                odd = Some(format!("run {b} failed in the search but not on its own"));
            } else {
                odd = None;
            }
        }
        if let Some(h) = odd {
            if apart {
                let _ = fs::remove_dir_all(&tmp);
                eprintln!("ERROR: {h}");
                return 3;
            }
            eprintln!("note: {h}; trying again with a process for each run");
            apart = true;
            continue;
        }
        bad = b;
        break;
    }
    let _ = fs::remove_dir_all(&tmp);
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viol = String::new();
    if bad != u64::MAX {
        let (sc, rs) = pick_run(p, seed, bad);
        let path = out.join(format!("{p}-{seed}-{bad}.replay"));
        match first {
            Ok(Some(f)) => {
                let before = f.tape.as_ref().map(|t| cost(t).0);
                let (mut f, tries) = minimise(p, sc, f, &kn, if thorough { 60.0 } else { 20.0 });
                let full = f.tape.is_none();
                let tape = |f: &Failure| f.tape.clone().map_or_else(|| Tape::seeded(rs), Tape::replay);
                if let Ok(Some(g)) = attempt(p, sc, tape(&f), true, &kn) {
                    f.trace = g.trace;
                    f.msg = g.msg;
                    f.hash = g.hash;
                }
                write_replay(&path, p, sc, rs, bad, &f, full);
                viol = format!("{}: {}", f.class, f.msg);
                println!("{viol}");
                println!(
                    "run {bad}, scenario {}, seed {rs}; minimised from {:?} to {:?} non-trivial choices in {tries} runs",
                    scen::name(sc),
                    before.unwrap_or(0),
                    f.tape.as_ref().map_or(0, |t| cost(t).0)
                );
                println!("VIOLATION property={p} replay={}", path.display());
                code = 1;
            }
            Ok(None) => {
                eprintln!("ERROR: run {bad} failed in the search but not on its own");
                return 3;
            }
            Err(e) => {
                eprintln!("ERROR: {e}");
                return 3;
            }
        }
    }
    for (k, m) in &s.known {
        println!("KNOWN-FINDING: property={p} {k} ({m})");
    }
    if code == 0 && s.relevant == 0 {
        eprintln!("ERROR: nothing explored bears on {p}");
        return 3;
    }
    // evidence
    let faults: Vec<String> = s.stats.iter().filter(|x| x.0.starts_with("fault_")).map(|(k, v)| format!("{}:{v}", json(&k[6..]))).collect();
    let other: Vec<String> = s.stats.iter().filter(|x| !x.0.starts_with("fault_")).map(|(k, v)| format!("{}:{v}", json(k))).collect();
    let scen: Vec<String> = s.scen.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect();
    let samples: Vec<String> = s.samples.iter().map(|x| json(x)).collect();
    let names: Vec<&str> = scs.iter().map(|x| scen::name(x.0)).collect();
    let rule = format!(
        "Run i of scenario mix {names:?} is the simulation decided by mix(seed, property, i): configuration, plans, peers, network, scheduling and faults all come from that one number. A run is non-trivial if it reached at least one obligation of {p} (a point where the property's oracle had something to decide); runs are distinct if their event signature (order and kind of every kernel event, per task, with scheduling choices; no times or payloads) differs."
    );
    let mut e = String::from("{");
    let _ = write!(
        e,
        "\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],",
        json(p),
        json(tier),
        s.runs,
        s.sigs.len(),
        json(&rule),
        samples.join(",")
    );
    let _ = write!(
        e,
        "\"nontrivial_runs\":{},\"obligations_checked\":{},\"runs_per_hour\":{},\"simulated_seconds\":{},\"kernel_steps\":{},\"task_switches\":{},\"recorded_events\":{},\"determinism_rechecks\":{},\"scenarios\":{{{}}},\"faults_injected\":{{{}}},\"other_counts\":{{{}}},",
        s.relevant,
        s.obligations,
        (s.runs as f64 / search_s.max(1e-3) * 3600.0) as u64,
        s.sim_us / 1_000_000,
        s.steps,
        s.switches,
        s.events,
        s.rechecks,
        scen.join(","),
        faults.join(","),
        other.join(",")
    );
    let _ = write!(
        e,
        "\"real_components\":[\"uwuhi and uwuhi-async, unmodified, compiled from /repo\",\"std::net, socket2 and futures-lite\"],\"stub_components\":[\"libc socket and clock calls: kernel model in sim/src/kernel.rs\",\"async-io: reactor stand-in in sim/async-io-stub\",\"remote DNS servers and responders: scripted peers\"]}},"
    );
    let _ = write!(
        e,
        "\"assumptions\":[\"the kernel model behaves like Linux UDP for the calls the library makes\",\"exploration: absence of a violation is evidence for the runs made, not a proof\"],\"wall_s\":{:.2},\"violations\":{}",
        t0.elapsed().as_secs_f64(),
        code
    );
    if code == 1 {
        let _ = write!(e, ",\"violation\":{}", json(&viol));
    }
    e.push_str("}\n");
    let ev = base.join("evidence");
    let _ = fs::create_dir_all(&ev);
    if fs::write(ev.join(format!("{p}.json")), e).is_err() {
        eprintln!("ERROR: cannot write evidence");
        return 3;
    }
    println!(
        "{p}: {} runs ({} non-trivial, {} distinct), {} obligations, {} s simulated, {:.1} s",
        s.runs,
        s.relevant,
        s.sigs.len(),
        s.obligations,
        s.sim_us / 1_000_000,
        t0.elapsed().as_secs_f64()
    );
    code
}

/// All scenarios, all properties: where do violations show up? (for development)
fn survey(n: u64, seed: u64, only: Option<Sc>) -> i32 {
    let mut seen: BTreeMap<(String, String), (u64, String)> = BTreeMap::new();
    for (si, (sc, name)) in scen::ALL.iter().enumerate() {
        if only.is_some_and(|o| o != *sc) {
            continue;
        }
        let t0 = Instant::now();
        let (mut ob, mut sim, mut steps): (BTreeMap<&str, u64>, u64, u64) = Default::default();
        let mut sigs = HashSet::default();
        let n = if scen::is_long(*sc) { n.div_ceil(200) } else { n };
        for i in 0..n {
            let s = mix(mix(seed, si as u64 + 1), i);
            let o = run(*sc, Tape::seeded(s), false);
            sim += o.sim_us;
            steps += o.steps;
            sigs.insert(o.sig);
            for (p, c) in &o.rep.ob {
                *ob.entry(p).or_insert(0) += c;
            }
            for v in &o.rep.v {
                let e = seen.entry((format!("{}", v.props.join(",")), v.class.clone())).or_insert((0, format!("{name} {s}: {}", v.msg)));
                e.0 += 1;
            }
        }
        println!("{name}: {:.2} ms/run, {} distinct, {} sim s, {} steps/run, {:?}", t0.elapsed().as_secs_f64() * 1000.0 / n as f64, sigs.len(), sim / 1_000_000, steps / n, ob);
    }
    for ((p, c), (n, m)) in seen {
        println!("{n:6} [{p}] {c}\n        {m}");
    }
    0
}

fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for (si, (sc, name)) in scen::ALL.iter().enumerate() {
        let n = if scen::is_long(*sc) { n.div_ceil(200) } else { n };
        for i in 0..n {
            let s = mix(4711, i * 100 + si as u64);
            let a = run(*sc, Tape::seeded(s), false);
            let b = run(*sc, Tape::seeded(s), true);
            let c = run(*sc, Tape::replay(a.rec.clone()), false);
            if a.hash != b.hash || a.hash != c.hash || a.rec != b.rec {
                println!("{name} {s}: {:x} {:x} {:x}", a.hash, b.hash, c.hash);
                bad += 1;
            }
        }
    }
    println!("selftest: {bad} nondeterministic runs");
    (bad > 0) as i32
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned());
    let seed = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1], &tier, seed, opt("--runs").and_then(|s| s.parse().ok())),
        Some("replay") => replay(&a[1]),
        Some("run") => {
            let sc = by_name(&a[1]).expect("scenario");
            let s: u64 = a[2].parse().expect("seed");
            let o = run(sc, Tape::seeded(s), true);
            if !a.iter().any(|x| x == "--quiet") {
                println!("{}", o.trace.join("\n"));
            }
            for v in &o.rep.v {
                println!("{:?} {} at {:.3} ms: {}", v.props, v.class, v.t as f64 / 1e6, v.msg);
            }
            println!("hash {:016x}, obligations {:?}, stats {:?}", o.hash, o.rep.ob, o.stats);
            0
        }
        Some("survey") => survey(opt("-n").and_then(|s| s.parse().ok()).unwrap_or(200), seed, a.get(1).and_then(|s| by_name(s))),
        Some("selftest") => selftest(opt("-n").and_then(|s| s.parse().ok()).unwrap_or(30)),
        Some("props") => {
            for i in 1..=21 {
                let p = format!("C{i:02}");
                if plan(&p).is_some() {
                    println!("{p}");
                }
            }
            0
        }
        _ => {
            eprintln!("usage: uwusim check <property> [--tier quick|thorough] [--seed n] [--runs n] | replay <file> | run <scenario> <seed> | survey [scenario] [-n n] | selftest");
            2
        }
    }
}
