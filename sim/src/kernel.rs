//! The simulated kernel: time, tasks, UDP sockets, network, faults, and the recorded history.

use std::any::Any;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::future::Future;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use crate::coro::{switch, Stack};
use crate::tape::{mix, Tape, S};

pub type TaskId = usize;
pub type HostId = usize;
pub type ActorId = usize;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub const MDNS4: Ipv4Addr = Ipv4Addr::new(224, 0, 0, 251);
pub const MDNS6: Ipv6Addr = Ipv6Addr::new(0xff02, 0, 0, 0, 0, 0, 0, 0xfb);

/// First descriptor number of simulated sockets (far above anything real).
pub const FD0: i32 = 1_000_000;
const IP_MULTICAST_ALL: i32 = 49;

static mut KPTR: *mut Kernel = std::ptr::null_mut();

pub fn k() -> &'static mut Kernel {
    unsafe {
        debug_assert!(!KPTR.is_null());
        &mut *KPTR
    }
}
/// The kernel, if simulated code is running right now.
pub fn in_sim() -> Option<&'static mut Kernel> {
    unsafe {
        if KPTR.is_null() {
            return None;
        }
        let k = &mut *KPTR;
        if k.cur.is_some() {
            Some(k)
        } else {
            None
        }
    }
}

#[derive(Clone, Debug)]
pub struct Pkt {
    pub id: u32,
    pub from: SocketAddr,
    pub to: SocketAddr,
    pub data: Rc<[u8]>,
    pub delivered: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Wait {
    None,
    Recv(usize),
    /// The thread sleeps, or is not scheduled.
    Sleep,
    /// Nothing to do: the executor is free for others.
    Idle,
    Async,
    Futex(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Normal,
    Panic(String),
    Livelock,
}

pub struct Task {
    pub name: String,
    pub host: HostId,
    sp: *mut u8,
    stack: Option<Stack>,
    entry: Option<Box<dyn FnOnce()>>,
    runnable: bool,
    wait: Wait,
    gen: u64,
    timed_out: bool,
    interrupted: bool,
    pub dying: bool,
    woken: bool,
    pub exit: Option<Exit>,
    pub exit_t: u64,
    /// Extra time this task was delayed by injected stalls.
    pub stall: u64,
    /// Whether system-call failures may be injected into this task.
    pub faulty: bool,
    /// Asynchronous tasks with the same non-zero number share one single-threaded executor.
    pub exec: u32,
    /// The library's future is being polled.
    polling: bool,
    poll_no: u64,
    spins: u32,
    spin_t: u64,
    dying_calls: u32,
    mdns_ok: bool,
    last_timeout: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
    V4,
    V6,
}

pub struct Sock {
    pub host: HostId,
    pub task: TaskId,
    pub fam: Fam,
    pub bound: Option<SocketAddr>,
    pub peer: Option<SocketAddr>,
    pub reuse: bool,
    pub reuseport: bool,
    pub joined: bool,
    /// IP_MULTICAST_LOOP, IP_MULTICAST_ALL, IP_MULTICAST_TTL.
    pub mloop: bool,
    pub mall: bool,
    pub mttl: u8,
    last_delivery: u64,
    pub rcvtimeo: Option<u64>,
    pub nonblock: bool,
    pub queue: VecDeque<Pkt>,
    pub refs: u32,
    pub bind_seq: u64,
    wakers: Vec<Waker>,
    full: bool,
}

pub struct Host {
    pub ip4: Ipv4Addr,
    pub ip6: Ipv6Addr,
    pub group: u8,
    next_port: u16,
}

/// A scripted peer: harness code that reacts to packets and timers.
pub trait Actor {
    fn on_packet(&mut self, me: ActorId, p: &Pkt);
    fn on_timer(&mut self, _me: ActorId, _tag: u64) {}
}

struct ActorSlot {
    host: HostId,
    port: u16,
    multicast: bool,
    act: Option<Box<dyn Actor>>,
}

enum EvQ {
    Deliver { dst: Dst, pkt: Pkt, from_host: Option<HostId> },
    Timeout { task: TaskId, gen: u64 },
    Interrupt { task: TaskId, gen: u64 },
    WakeTimer { id: u64 },
    ActorTimer { a: ActorId, tag: u64 },
    Call(Box<dyn FnOnce()>),
}

#[derive(Clone, Copy, Debug)]
enum Dst {
    Sock(usize, u64),
    Actor(ActorId),
}

struct QItem {
    at: u64,
    seq: u64,
    ev: EvQ,
}
impl PartialEq for QItem {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for QItem {}
impl PartialOrd for QItem {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for QItem {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

/// Fault rates in per mille; only applied before `until`.
#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub until: u64,
    pub drop: u32,
    pub dup: u32,
    pub corrupt: u32,
    pub trunc: u32,
    pub delay_min_us: u64,
    pub delay_max_us: u64,
    /// Occasional long delay (reordering past timeouts).
    pub late_pm: u32,
    pub late_max_us: u64,
    pub stall_pm: u32,
    pub stall_max_us: u64,
    pub yield_pm: u32,
    pub eintr_pm: u32,
    pub recv_err_pm: u32,
    pub send_err_pm: u32,
    /// Non-blocking sends that would block (full send buffer), writable again shortly after.
    pub eagain_pm: u32,
    pub setup_err_pm: u32,
    pub spurious_pm: u32,
    /// Futures polled with a new waker every time.
    pub move_pm: u32,
    /// A node woken by a datagram runs on late: (key, chance, longest), drawn from key and time, so
    /// that both halves of a pair are held up alike.
    pub late_wake: Option<(u64, u32, u64)>,
    pub rcvbuf: usize,
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// The application received a datagram (`len` bytes of it fit its buffer).
    Recv { sock: usize, pkt: Pkt, len: usize },
    RecvErr { sock: usize, errno: i32, injected: bool },
    Send { sock: usize, from: SocketAddr, to: SocketAddr, data: Rc<[u8]>, err: Option<i32> },
    /// A failed socket set-up call (socket, bind, setsockopt, ioctl, fcntl).
    SetupErr { what: &'static str, errno: i32, injected: bool },
    Bound { sock: usize, addr: SocketAddr },
    Log { level: log::Level, text: String },
    App(Rc<dyn Any>),
    Started,
    Killed,
    Exited,
}

#[derive(Clone, Debug)]
pub struct Hist {
    pub t: u64,
    pub task: TaskId,
    pub ev: Ev,
    /// Total injected stall of the task so far.
    pub stall: u64,
}

pub struct Kernel {
    pub tape: Tape,
    pub now: u64,
    seq: u64,
    q: BinaryHeap<Reverse<QItem>>,
    pub tasks: Vec<Task>,
    pub socks: Vec<Option<Sock>>,
    pub hosts: Vec<Host>,
    actors: Vec<ActorSlot>,
    pub cur: Option<TaskId>,
    sched_sp: *mut u8,
    pub f: Faults,
    pub partition: bool,
    pub hist: Vec<Hist>,
    pub trace: Option<Vec<String>>,
    pub stats: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub sig: u64,
    pub steps: u64,
    pub switches: u64,
    pkt_id: u32,
    timer_id: u64,
    timers: BTreeMap<u64, (TaskId, Waker)>,
    pub wall_skew: i64,
    /// Steps of the wall clock: when, and by how much.
    pub wall_jumps: Vec<(u64, i64)>,
    pub livelock: bool,
    /// Limit of one run.
    pub max_steps: u64,
    /// A delivery and a deadline of the same socket fell on the same instant.
    pub tie: bool,
    pub capture_logs: bool,
    pub overrun: bool,
    /// The run is over; what follows is only clean-up.
    pub ended: bool,
    /// Live tasks with unread datagrams at the end: task, number, delivery time of the first.
    pub left_unread: Vec<(TaskId, usize, u64)>,
    pub rand_seed: u64,
    pub rand_ctr: u64,
    /// Number of executors asynchronous nodes are placed on; 0: each has its own.
    pub execs: u32,
    /// Memory held and peak memory in bytes, sockets: per task, at the points where nothing is in progress.
    pub mem: Option<BTreeMap<TaskId, Vec<(u64, i64, i64, usize)>>>,
    /// Which task each executor's thread is busy with.
    busy: BTreeMap<u32, TaskId>,
    /// A future that blocked its thread: task, since when, for how long, where.
    pub blocked: Vec<(TaskId, u64, u64, &'static str)>,
}

static mut POOL: Vec<Stack> = Vec::new();

#[macro_export]
macro_rules! tr {
    ($k:expr, $($a:tt)*) => {
        if $k.trace.is_some() {
            let s = format!($($a)*);
            let t = $k.now;
            $k.trace.as_mut().unwrap().push(format!("[{:>12.3}us] {}", t as f64 / 1000.0, s));
        }
    };
}

impl Kernel {
    /// Installs a fresh kernel as the current one.
    pub fn install(tape: Tape, trace: bool) -> &'static mut Kernel {
        crate::mem::reset();
        let kn = Box::new(Kernel {
            tape,
            now: 0,
            seq: 0,
            q: BinaryHeap::new(),
            tasks: Vec::new(),
            socks: Vec::new(),
            hosts: Vec::new(),
            actors: Vec::new(),
            cur: None,
            sched_sp: std::ptr::null_mut(),
            f: Faults { delay_min_us: 50, delay_max_us: 500, rcvbuf: 256, ..Default::default() },
            partition: false,
            hist: Vec::new(),
            trace: if trace { Some(Vec::new()) } else { None },
            stats: BTreeMap::new(),
            hash: 0x1234,
            sig: 0x4321,
            steps: 0,
            switches: 0,
            pkt_id: 0,
            timer_id: 0,
            timers: BTreeMap::new(),
            wall_skew: 0,
            wall_jumps: vec![],
            livelock: false,
            max_steps: 400_000,
            tie: false,
            capture_logs: false,
            overrun: false,
            ended: false,
            left_unread: Vec::new(),
            rand_seed: 0,
            rand_ctr: 0,
            execs: 0,
            mem: None,
            busy: BTreeMap::new(),
            blocked: Vec::new(),
        });
        unsafe {
            assert!(KPTR.is_null());
            KPTR = Box::into_raw(kn);
            &mut *KPTR
        }
    }

    pub fn uninstall() -> Box<Kernel> {
        unsafe {
            let b = Box::from_raw(KPTR);
            KPTR = std::ptr::null_mut();
            b
        }
    }

    pub fn stat(&mut self, s: &'static str) {
        *self.stats.entry(s).or_insert(0) += 1;
    }
    pub fn stat_n(&mut self, s: &'static str, n: u64) {
        *self.stats.entry(s).or_insert(0) += n;
    }

    pub fn add_host(&mut self) -> HostId {
        let i = self.hosts.len();
        self.hosts.push(Host {
            ip4: Ipv4Addr::new(10, 0, (i / 200) as u8, (i % 200 + 1) as u8),
            ip6: Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, i as u16 + 1),
            group: 0,
            next_port: 40000,
        });
        i
    }

    pub fn faults_on(&self) -> bool {
        self.now < self.f.until
    }

    // ---- history -------------------------------------------------------------------------------

    fn absorb(&mut self, a: u64, b: u64) {
        self.hash = mix(self.hash ^ a, b ^ self.now.rotate_left(17));
        self.sig = mix(self.sig, a);
    }

    pub fn log_ev(&mut self, task: TaskId, ev: Ev) {
        if self.ended {
            return;
        }
        let (tag, x) = match &ev {
            Ev::Recv { pkt, len, .. } => (1, fnv(&pkt.data) ^ *len as u64),
            Ev::RecvErr { errno, .. } => (2, *errno as u64),
            Ev::Send { data, to, err, .. } => (3, fnv(data) ^ addr_hash(to) ^ err.unwrap_or(0) as u64),
            Ev::SetupErr { errno, .. } => (4, *errno as u64),
            Ev::Bound { addr, .. } => (5, addr_hash(addr)),
            Ev::Log { text, .. } => (6, fnv(text.as_bytes())),
            Ev::App(_) => (7, 0),
            Ev::Started => (8, 0),
            Ev::Killed => (9, 0),
            Ev::Exited => (10, 0),
        };
        self.absorb(tag + 16 * (task as u64 + 1), x);
        if self.trace.is_some() {
            let n = self.tasks[task].name.clone();
            match &ev {
                Ev::Recv { pkt, len, .. } => {
                    tr!(self, "{n}: recv pkt#{} {} bytes (kept {}) from {}: {}", pkt.id, pkt.data.len(), len, pkt.from, crate::wire::summary(&pkt.data))
                }
                Ev::RecvErr { errno, injected, .. } => tr!(self, "{n}: recv fails errno={errno} injected={injected}"),
                Ev::Send { to, data, err, .. } => {
                    tr!(self, "{n}: send {} bytes to {to} err={err:?}: {}", data.len(), crate::wire::summary(data))
                }
                Ev::SetupErr { what, errno, injected } => tr!(self, "{n}: {what} fails errno={errno} injected={injected}"),
                Ev::Bound { addr, .. } => tr!(self, "{n}: bound {addr}"),
                Ev::Log { level, text } => tr!(self, "{n}: log {level} {text}"),
                Ev::App(_) => {}
                Ev::Started => tr!(self, "{n}: started"),
                Ev::Killed => tr!(self, "{n}: killed"),
                Ev::Exited => tr!(self, "{n}: exited {:?}", self.tasks[task].exit),
            }
        }
        let stall = self.tasks[task].stall;
        self.hist.push(Hist { t: self.now, task, ev, stall });
    }

    /// Absorbs an application-level observation into the event hash.
    pub fn absorb_app(&mut self, x: u64) {
        self.absorb(1001, x);
    }

    // ---- events --------------------------------------------------------------------------------

    fn push(&mut self, at: u64, ev: EvQ) {
        self.seq += 1;
        self.q.push(Reverse(QItem { at: at.max(self.now), seq: self.seq, ev }));
    }
    pub fn at(&mut self, t: u64, f: impl FnOnce() + 'static) {
        self.push(t, EvQ::Call(Box::new(f)));
    }
    pub fn actor_timer(&mut self, a: ActorId, at: u64, tag: u64) {
        self.push(at, EvQ::ActorTimer { a, tag });
    }

    // ---- tasks ---------------------------------------------------------------------------------

    pub fn spawn(&mut self, name: impl Into<String>, host: HostId, f: impl FnOnce() + 'static) -> TaskId {
        let stack = unsafe {
            #[allow(static_mut_refs)]
            POOL.pop().unwrap_or_else(Stack::new)
        };
        let sp = stack.prepare(task_entry);
        let id = self.tasks.len();
        self.tasks.push(Task {
            name: name.into(),
            host,
            sp,
            stack: Some(stack),
            entry: Some(Box::new(f)),
            runnable: true,
            wait: Wait::None,
            gen: 0,
            timed_out: false,
            interrupted: false,
            dying: false,
            woken: false,
            exit: None,
            exit_t: 0,
            stall: 0,
            faulty: false,
            exec: 0,
            polling: false,
            poll_no: 0,
            spins: 0,
            spin_t: 0,
            dying_calls: 0,
            mdns_ok: false,
            last_timeout: 0,
        });
        self.log_ev(id, Ev::Started);
        id
    }

    pub fn spawn_at(&mut self, t: u64, name: impl Into<String>, host: HostId, f: impl FnOnce() + 'static) {
        let name = name.into();
        self.at(t, move || {
            k().spawn(name, host, f);
        });
    }

    /// Simulated kill -9: from now on nothing the task does has an effect.
    pub fn kill(&mut self, id: TaskId) {
        if self.tasks[id].exit.is_some() || self.tasks[id].dying {
            return;
        }
        self.tasks[id].dying = true;
        self.log_ev(id, Ev::Killed);
        // its sockets vanish at once
        for i in 0..self.socks.len() {
            if let Some(s) = &mut self.socks[i] {
                if s.task == id {
                    s.bound = None;
                    s.joined = false;
                    s.queue.clear();
                }
            }
        }
        let t = &mut self.tasks[id];
        t.gen += 1;
        t.wait = Wait::None;
        t.runnable = true;
    }

    fn resume(id: TaskId) {
        let kk = k();
        kk.switches += 1;
        kk.cur = Some(id);
        kk.tasks[id].runnable = false;
        let exec = kk.tasks[id].exec;
        if exec != 0 {
            kk.busy.insert(exec, id);
        }
        let to = kk.tasks[id].sp;
        let save = &mut kk.sched_sp as *mut *mut u8;
        unsafe { switch(save, to) };
        let k = k();
        k.cur = None;
        if exec != 0 && (k.tasks[id].exit.is_some() || matches!(k.tasks[id].wait, Wait::Async | Wait::Idle)) {
            k.busy.remove(&exec);
        }
        if k.tasks[id].exit.is_some() && k.tasks[id].stack.is_some() {
            let st = k.tasks[id].stack.take().unwrap();
            if k.tasks[id].exit != Some(Exit::Livelock) {
                unsafe {
                    #[allow(static_mut_refs)]
                    POOL.push(st);
                }
            } else {
                std::mem::forget(st);
            }
        }
    }

    /// Leaves the current task until something makes it runnable.
    fn suspend() {
        let kk = k();
        let id = kk.cur.unwrap();
        let to = kk.sched_sp;
        let save = &mut kk.tasks[id].sp as *mut *mut u8;
        let lib = crate::mem::set(false);
        // `switch` stores through `save` before anything else can run.
        unsafe { switch(save, to) };
        crate::mem::set(lib);
    }

    fn block(&mut self, w: Wait, deadline: Option<u64>) -> (bool, bool) {
        let id = self.cur.unwrap();
        let t0 = self.now;
        let gen = {
            let t = &mut self.tasks[id];
            t.gen += 1;
            t.wait = w;
            t.timed_out = false;
            t.interrupted = false;
            t.gen
        };
        if let Some(d) = deadline {
            self.push(d, EvQ::Timeout { task: id, gen });
        }
        Kernel::suspend();
        let now = k().now;
        let t = &mut k().tasks[id];
        t.wait = Wait::None;
        t.gen += 1;
        let r = (t.timed_out, t.interrupted);
        if t.polling && now > t0 && !t.dying {
            match w {
                Wait::Recv(_) => k().blocked.push((id, t0, now - t0, "receiving")),
                Wait::Sleep => k().blocked.push((id, t0, now - t0, "sleeping")),
                _ => {}
            }
        }
        r
    }

    fn make_runnable(&mut self, id: TaskId) {
        let t = &mut self.tasks[id];
        if t.exit.is_none() {
            t.runnable = true;
            t.wait = Wait::None;
            t.gen += 1;
        }
    }

    /// Can run now: its executor's thread is not busy with another task.
    fn ready(&self, id: TaskId) -> bool {
        let t = &self.tasks[id];
        t.runnable && t.exit.is_none() && (t.exec == 0 || self.busy.get(&t.exec).is_none_or(|b| *b == id))
    }

    /// Runs until nothing is left to do or `end` is reached.
    pub fn run_until(end: u64) {
        let max_steps = k().steps + k().max_steps;
        loop {
            k().steps += 1;
            if k().steps > max_steps {
                k().overrun = true;
                return;
            }
            let n = (0..k().tasks.len()).filter(|&i| k().ready(i)).count();
            if n > 0 {
                let pick = if n == 1 { 0 } else { k().tape.choose(S::Sched, n as u64) as usize };
                let id = (0..k().tasks.len())
                    .filter(|&i| k().ready(i))
                    .nth(pick)
                    .unwrap();
                if n > 1 {
                    k().sig = mix(k().sig, 77 + pick as u64);
                }
                Kernel::resume(id);
                continue;
            }
            match k().q.peek() {
                None => return,
                Some(Reverse(it)) if it.at > end => {
                    k().now = end;
                    return;
                }
                _ => {}
            }
            let Reverse(it) = k().q.pop().unwrap();
            debug_assert!(it.at >= k().now);
            k().now = it.at;
            Kernel::handle(it.ev);
        }
    }

    /// Kills every task and lets them unwind.
    pub fn shutdown() {
        for i in 0..k().socks.len() {
            if let Some(s) = &k().socks[i] {
                if let Some(p) = s.queue.front() {
                    let x = (s.task, s.queue.len(), p.delivered);
                    k().left_unread.push(x);
                }
            }
        }
        k().ended = true;
        for i in 0..k().tasks.len() {
            k().kill(i);
        }
        k().f.until = 0;
        let now = k().now;
        Kernel::run_until(now);
    }

    fn handle(ev: EvQ) {
        match ev {
            EvQ::Deliver { dst, pkt, from_host } => Kernel::deliver(dst, pkt, from_host),
            EvQ::Timeout { task, gen } => {
                let t = &mut k().tasks[task];
                if t.gen == gen && t.exit.is_none() {
                    if let Wait::Recv(s) = t.wait {
                        let now = k().now;
                        if let Some(Some(sk)) = k().socks.get(s) {
                            if sk.last_delivery > 0 && now - sk.last_delivery < 3 * US {
                                k().tie = true;
                            }
                        }
                    }
                    let now = k().now;
                    let t = &mut k().tasks[task];
                    t.last_timeout = now;
                    t.timed_out = true;
                    t.runnable = true;
                    t.wait = Wait::None;
                    t.gen += 1;
                }
            }
            EvQ::Interrupt { task, gen } => {
                let t = &mut k().tasks[task];
                if t.gen == gen && t.exit.is_none() {
                    t.interrupted = true;
                    t.runnable = true;
                    t.wait = Wait::None;
                    t.gen += 1;
                }
            }
            EvQ::WakeTimer { id } => {
                if let Some((t, w)) = k().timers.remove(&id) {
                    let now = k().now;
                    k().tasks[t].last_timeout = now;
                    if k().socks.iter().flatten().any(|s| s.task == t && s.last_delivery > 0 && now - s.last_delivery < 3 * US) {
                        k().tie = true;
                    }
                    w.wake();
                }
            }
            EvQ::ActorTimer { a, tag } => {
                if let Some(mut act) = k().actors[a].act.take() {
                    act.on_timer(a, tag);
                    k().actors[a].act = Some(act);
                }
            }
            EvQ::Call(f) => f(),
        }
    }

    // ---- actors --------------------------------------------------------------------------------

    pub fn add_actor(&mut self, host: HostId, port: u16, multicast: bool, a: Box<dyn Actor>) -> ActorId {
        self.actors.push(ActorSlot { host, port, multicast, act: Some(a) });
        self.actors.len() - 1
    }
    pub fn actor_addr(&self, a: ActorId) -> SocketAddr {
        let s = &self.actors[a];
        (self.hosts[s.host].ip4, s.port).into()
    }
    pub fn actor_addr6(&self, a: ActorId) -> SocketAddr {
        let s = &self.actors[a];
        (self.hosts[s.host].ip6, s.port).into()
    }
    /// Sends from an actor with an arbitrary (possibly spoofed) source address.
    pub fn actor_send(&mut self, a: ActorId, from: SocketAddr, to: SocketAddr, data: &[u8]) {
        let h = self.actors[a].host;
        tr!(self, "peer{a}@{from}: send {} bytes to {to}: {}", data.len(), crate::wire::summary(data));
        self.absorb(2001 + a as u64, fnv(data));
        self.net_send(Some(h), from, to, data.into(), true, 1);
    }

    // ---- network -------------------------------------------------------------------------------

    fn dests(&self, from_host: Option<HostId>, to: SocketAddr, mloop: bool, mttl: u8) -> Vec<Dst> {
        let mut v = Vec::new();
        let reaches = |s: &Sock| s.bound.is_some_and(|b| b.port() == to.port() && (b.ip().is_unspecified() || b.ip() == to.ip())) && fam_of(&to) == s.fam;
        if to.ip().is_multicast() {
            let group = to.ip() == IpAddr::V4(MDNS4) || to.ip() == IpAddr::V6(MDNS6);
            if !group {
                return v;
            }
            for h in 0..self.hosts.len() {
                if (!mloop && Some(h) == from_host) || (mttl == 0 && Some(h) != from_host) {
                    continue;
                }
                // A host takes in group traffic if any of its sockets joined the group; then every
                // socket bound to the port gets a copy (IP_MULTICAST_ALL).
                let host_joined = self.socks.iter().flatten().any(|s| s.host == h && s.joined)
                    || self.actors.iter().any(|a| a.host == h && a.multicast);
                if !host_joined {
                    continue;
                }
                for (i, s) in self.socks.iter().enumerate() {
                    if let Some(s) = s {
                        if s.host == h && reaches(s) && (s.mall || s.joined) {
                            v.push(Dst::Sock(i, s.bind_seq));
                        }
                    }
                }
            }
            for (i, a) in self.actors.iter().enumerate() {
                if a.multicast && a.port == to.port() && !(!mloop && Some(a.host) == from_host) && !(mttl == 0 && Some(a.host) != from_host) {
                    v.push(Dst::Actor(i));
                }
            }
        } else {
            for h in 0..self.hosts.len() {
                if to.ip() != IpAddr::V4(self.hosts[h].ip4) && to.ip() != IpAddr::V6(self.hosts[h].ip6) {
                    continue;
                }
                let mut best: Option<(u64, usize)> = None;
                for (i, s) in self.socks.iter().enumerate() {
                    if let Some(s) = s {
                        if s.host == h
                            && reaches(s)
                            && best.map_or(true, |b| s.bind_seq > b.0)
                        {
                            best = Some((s.bind_seq, i));
                        }
                    }
                }
                if let Some((q, i)) = best {
                    v.push(Dst::Sock(i, q));
                } else {
                    for (i, a) in self.actors.iter().enumerate() {
                        if a.host == h && a.port == to.port() {
                            v.push(Dst::Actor(i));
                            break;
                        }
                    }
                }
            }
        }
        v
    }

    pub fn net_send(&mut self, from_host: Option<HostId>, from: SocketAddr, to: SocketAddr, data: Rc<[u8]>, mloop: bool, mttl: u8) {
        self.stat("datagrams_sent");
        let ds = self.dests(from_host, to, mloop, mttl);
        if ds.is_empty() {
            self.stat("datagrams_unroutable");
            tr!(self, "net: nobody listens on {to}");
        }
        for d in ds {
            let f = self.f.clone();
            let on = self.faults_on();
            if on && self.tape.chance(S::Net, f.drop) {
                self.stat("fault_loss");
                tr!(self, "net: lost on the way to {}", self.dst_name(d));
                self.absorb(3001, 0);
                continue;
            }
            let mut copies = 1;
            if on && self.tape.chance(S::Net, f.dup) {
                copies += self.tape.range(S::Net, 1, 2);
                self.stat("fault_duplication");
                self.absorb(3002, copies);
            }
            for _ in 0..copies {
                let mut delay = f.delay_min_us + self.tape.choose(S::Net, f.delay_max_us.saturating_sub(f.delay_min_us) + 1);
                if on && f.late_pm > 0 && self.tape.chance(S::Net, f.late_pm) {
                    delay += self.tape.range(S::Net, 1, f.late_max_us.max(1));
                    self.stat("fault_long_delay");
                }
                let mut data = data.clone();
                if on && data.len() > 0 && self.tape.chance(S::Net, f.corrupt) {
                    let mut v = data.to_vec();
                    for _ in 0..self.tape.range(S::Net, 1, 3) {
                        let n = v.len() as u64;
                        let i = match self.tape.choose(S::Net, 3) {
                            0 => self.tape.choose(S::Net, n),
                            1 => self.tape.choose(S::Net, n.min(12)),
                            _ => n.min(12) - 1 + self.tape.choose(S::Net, n - (n.min(12) - 1)),
                        } as usize;
                        match self.tape.choose(S::Net, 4) {
                            0 => v[i] ^= 1 << self.tape.choose(S::Net, 8),
                            1 => v[i] = self.tape.choose(S::Net, 256) as u8,
                            2 => v[i] = 0xc0,
                            _ => v[i] = *self.tape.pick(S::Net, &[0u8, 0xff, 0x3f, 0x40, 1]),
                        }
                    }
                    self.stat("fault_corruption");
                    self.absorb(3003, 0);
                    data = v.into();
                }
                if on && data.len() > 0 && self.tape.chance(S::Net, f.trunc) {
                    let n = self.tape.choose(S::Net, data.len() as u64) as usize;
                    // simplest: cut nothing but the last byte
                    data = data[..data.len() - 1 - n].into();
                    self.stat("fault_truncation");
                    self.absorb(3004, n as u64);
                }
                self.pkt_id += 1;
                let id = self.pkt_id;
                // distinct sub-microsecond offsets keep arrivals off the timers' instants
                let at = self.now + delay * US + 1 + (id as u64 * 7) % 997;
                let pkt = Pkt { id, from, to, data, delivered: at };
                tr!(self, "net: pkt#{id} {} bytes {from} -> {} arrives at {:.3}us", pkt.data.len(), self.dst_name(d), at as f64 / 1000.0);
                self.push(at, EvQ::Deliver { dst: d, pkt, from_host });
            }
        }
    }

    fn dst_name(&self, d: Dst) -> String {
        match d {
            Dst::Sock(s, _) => match &self.socks[s] {
                Some(x) => format!("{}/sock{}", self.tasks[x.task].name, s),
                None => format!("sock{s}"),
            },
            Dst::Actor(a) => format!("peer{a}"),
        }
    }

    fn deliver(dst: Dst, pkt: Pkt, from_host: Option<HostId>) {
        let to_host = match dst {
            Dst::Sock(s, q) => match &k().socks[s] {
                Some(x) if x.bind_seq == q && x.bound.is_some() => x.host,
                _ => {
                    k().stat("datagrams_to_closed_socket");
                    return;
                }
            },
            Dst::Actor(a) => k().actors[a].host,
        };
        if k().partition {
            if let Some(fh) = from_host {
                if k().hosts[fh].group != k().hosts[to_host].group {
                    k().stat("fault_partition_drop");
                    tr!(k(), "net: pkt#{} lost in the partition", pkt.id);
                    k().absorb(3005, 0);
                    return;
                }
            }
        }
        match dst {
            Dst::Sock(s, _) => {
                let cap = k().f.rcvbuf;
                let sk = k().socks[s].as_mut().unwrap();
                if let Some(p) = sk.peer {
                    if p != pkt.from {
                        return;
                    }
                }
                if sk.queue.len() >= cap {
                    k().stat("fault_rcvbuf_overflow");
                    return;
                }
                let now = pkt.delivered;
                sk.last_delivery = now;
                sk.queue.push_back(pkt);
                let owner = k().socks[s].as_ref().unwrap().task;
                let lt = k().tasks[owner].last_timeout;
                if lt > 0 && now - lt < 3 * US {
                    k().tie = true;
                }
                let sk = k().socks[s].as_mut().unwrap();
                let ws = std::mem::take(&mut sk.wakers);
                k().stat("datagrams_delivered");
                for i in 0..k().tasks.len() {
                    if k().tasks[i].wait == Wait::Recv(s) {
                        k().make_runnable(i);
                        break;
                    }
                }
                for w in ws {
                    w.wake();
                }
            }
            Dst::Actor(a) => {
                k().stat("datagrams_delivered");
                if let Some(mut act) = k().actors[a].act.take() {
                    act.on_packet(a, &pkt);
                    k().actors[a].act = Some(act);
                }
            }
        }
    }

    // ---- system calls --------------------------------------------------------------------------

    fn sock_of(&mut self, fd: i32) -> Option<usize> {
        let i = (fd - FD0) as usize;
        if fd >= FD0 && matches!(self.socks.get(i), Some(Some(_))) {
            Some(i)
        } else {
            None
        }
    }

    /// Common entry: kills, stalls, yields, livelock detection. `Err` carries an errno.
    fn enter(&mut self) -> Result<(), i32> {
        let id = self.cur.unwrap();
        self.dying_check(id)?;
        {
            let now = self.now;
            let t = &mut self.tasks[id];
            if t.spin_t != now {
                t.spin_t = now;
                t.spins = 0;
            }
            t.spins += 1;
            if t.spins > 20_000 {
                self.abandon(id);
            }
        }
        if self.faults_on() {
            let (sp, sm, yp) = (self.f.stall_pm, self.f.stall_max_us, self.f.yield_pm);
            if sp > 0 && self.tape.chance(S::Fault, sp) {
                let d = self.tape.range(S::Fault, 1, sm.max(1)) * US;
                self.stall(d);
            } else if yp > 0 && self.tape.chance(S::Sched, yp) {
                self.stat("sched_yields");
                self.tasks[id].runnable = true;
                Kernel::suspend();
            }
            k().dying_check(id)?;
        }
        Ok(())
    }

    fn dying_check(&mut self, id: TaskId) -> Result<(), i32> {
        let t = &mut self.tasks[id];
        if t.dying {
            t.dying_calls += 1;
            if t.dying_calls > 2_000 {
                self.abandon(id);
            }
            return Err(libc::ESHUTDOWN);
        }
        Ok(())
    }

    /// Gives up on a task that spins without letting time pass.
    fn abandon(&mut self, id: TaskId) {
        tr!(self, "{}: abandoned, spins without progress", self.tasks[id].name);
        self.tasks[id].exit = Some(Exit::Livelock);
        self.tasks[id].exit_t = self.now;
        if !self.tasks[id].dying {
            self.livelock = true;
        }
        self.log_ev(id, Ev::Exited);
        Kernel::suspend();
        unreachable!();
    }

    pub fn stall(&mut self, d: u64) {
        let id = self.cur.unwrap();
        self.stat("fault_stall");
        self.absorb(3006, d);
        tr!(self, "{}: stalled for {}us", self.tasks[id].name, d / US);
        let t0 = self.now;
        let until = self.now.saturating_add(d);
        let polling = std::mem::take(&mut self.tasks[id].polling);
        self.block(Wait::Sleep, Some(until));
        let kk = k();
        kk.tasks[id].polling = polling;
        let d = kk.now - t0;
        let exec = kk.tasks[id].exec;
        kk.tasks[id].stall += d;
        if exec != 0 {
            // the thread was stalled, and with it every task it runs
            for (_, t) in kk.tasks.iter_mut().enumerate().filter(|(i, t)| *i != id && t.exec == exec) {
                t.stall += d;
            }
        }
    }

    fn late_wake(&mut self) {
        let Some((key, pm, max)) = self.f.late_wake else { return };
        if !self.faults_on() || self.tasks[self.cur.unwrap()].dying {
            return;
        }
        let mut x = key ^ self.now;
        if crate::tape::splitmix(&mut x) % 1000 < pm as u64 {
            let d = (1 + crate::tape::splitmix(&mut x) % max.max(1)) * US;
            self.stall(d);
        }
    }

    /// A pause of a node's program; an executor runs its other tasks meanwhile.
    pub fn sleep(&mut self, d: u64) {
        if self.tasks[self.cur.unwrap()].dying {
            return;
        }
        let until = self.now.saturating_add(d);
        self.block(Wait::Idle, Some(until));
    }

    /// The thread sleeps.
    pub fn nap(&mut self, d: u64) {
        if self.tasks[self.cur.unwrap()].dying {
            return;
        }
        let until = self.now.saturating_add(d);
        self.block(Wait::Sleep, Some(until));
    }

    // ---- locks ---------------------------------------------------------------------------------

    pub fn futex_wait(&mut self, addr: *const u32, val: u32, deadline: Option<u64>) -> Result<(), i32> {
        let id = self.cur.unwrap();
        self.dying_check(id)?;
        if unsafe { std::ptr::read_volatile(addr) } != val {
            return Err(libc::EAGAIN);
        }
        self.stat("lock_waits");
        let (timed_out, _) = self.block(Wait::Futex(addr as usize), deadline);
        if timed_out {
            return Err(libc::ETIMEDOUT);
        }
        Ok(())
    }

    pub fn futex_wake(&mut self, addr: usize, n: u32) -> u32 {
        let mut woken = 0;
        for i in 0..self.tasks.len() {
            if woken < n && self.tasks[i].wait == Wait::Futex(addr) && self.tasks[i].exit.is_none() {
                self.make_runnable(i);
                woken += 1;
            }
        }
        woken
    }

    fn inject(&mut self, pm: u32, errs: &[i32], stat: &'static str) -> Option<i32> {
        let id = self.cur.unwrap();
        if pm == 0 || !self.tasks[id].faulty || !self.faults_on() {
            return None;
        }
        if self.tape.chance(S::Fault, pm) {
            let e = *self.tape.pick(S::Fault, errs);
            self.stat(stat);
            return Some(e);
        }
        None
    }

    /// How far the wall clock is off by now.
    pub fn wall(&self) -> i64 {
        self.wall_skew + self.wall_jumps.iter().filter(|j| j.0 <= self.now).map(|j| j.1).sum::<i64>()
    }

    fn setup_fault(&mut self, what: &'static str, errs: &[i32]) -> Result<(), i32> {
        let id = self.cur.unwrap();
        if let Some(e) = self.inject(self.f.setup_err_pm, errs, "fault_setup_error") {
            self.log_ev(id, Ev::SetupErr { what, errno: e, injected: true });
            return Err(e);
        }
        Ok(())
    }

    pub fn sys_socket(&mut self, domain: i32, ty: i32) -> Result<i32, i32> {
        self.enter()?;
        let kk = k();
        kk.setup_fault("socket", &[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::EACCES])?;
        let id = kk.cur.unwrap();
        let fam = match domain {
            libc::AF_INET => Fam::V4,
            libc::AF_INET6 => Fam::V6,
            _ => return Err(libc::EAFNOSUPPORT),
        };
        kk.socks.push(Some(Sock {
            host: kk.tasks[id].host,
            task: id,
            fam,
            bound: None,
            peer: None,
            reuse: false,
            reuseport: false,
            joined: false,
            mloop: true,
            mall: true,
            mttl: 1,
            last_delivery: 0,
            rcvtimeo: None,
            nonblock: ty & libc::SOCK_NONBLOCK != 0,
            queue: VecDeque::new(),
            refs: 1,
            bind_seq: 0,
            wakers: Vec::new(),
            full: false,
        }));
        Ok(FD0 + (kk.socks.len() - 1) as i32)
    }

    fn port_free(&self, me: usize, port: u16) -> bool {
        let h = self.socks[me].as_ref().unwrap().host;
        let fam = self.socks[me].as_ref().unwrap().fam;
        let reuse = self.socks[me].as_ref().unwrap().reuse;
        let reuseport = self.socks[me].as_ref().unwrap().reuseport;
        self.socks.iter().enumerate().all(|(i, s)| match s {
            Some(s) if i != me && s.host == h && s.fam == fam => s.bound.map(|b| b.port()) != Some(port) || (s.reuse && reuse) || (s.reuseport && reuseport),
            _ => true,
        })
    }

    pub fn sys_bind(&mut self, fd: i32, mut addr: SocketAddr) -> Result<(), i32> {
        self.enter()?;
        let kk = k();
        let s = kk.sock_of(fd).ok_or(libc::EBADF)?;
        kk.setup_fault("bind", &[libc::EADDRINUSE, libc::EACCES, libc::ENOBUFS, libc::EADDRNOTAVAIL])?;
        let id = kk.cur.unwrap();
        let h = kk.socks[s].as_ref().unwrap().host;
        if kk.socks[s].as_ref().unwrap().bound.is_some() {
            return Err(libc::EINVAL);
        }
        if fam_of(&addr) != kk.socks[s].as_ref().unwrap().fam {
            return Err(libc::EAFNOSUPPORT);
        }
        if addr.port() == 0 {
            loop {
                let p = kk.hosts[h].next_port;
                kk.hosts[h].next_port = p.wrapping_add(1).max(40000);
                if kk.port_free(s, p) {
                    addr.set_port(p);
                    break;
                }
            }
        } else if !kk.port_free(s, addr.port()) {
            kk.log_ev(id, Ev::SetupErr { what: "bind", errno: libc::EADDRINUSE, injected: false });
            return Err(libc::EADDRINUSE);
        }
        kk.seq += 1;
        let q = kk.seq;
        let sk = kk.socks[s].as_mut().unwrap();
        sk.bound = Some(addr);
        sk.bind_seq = q;
        if addr.port() == 5353 {
            kk.tasks[id].mdns_ok = true;
        }
        kk.log_ev(id, Ev::Bound { sock: s, addr });
        Ok(())
    }

    fn autobind(&mut self, s: usize) {
        let sk = self.socks[s].as_ref().unwrap();
        if sk.bound.is_none() {
            let any: IpAddr = match sk.fam {
                Fam::V4 => Ipv4Addr::UNSPECIFIED.into(),
                Fam::V6 => Ipv6Addr::UNSPECIFIED.into(),
            };
            let h = sk.host;
            let p = self.hosts[h].next_port;
            self.hosts[h].next_port = p.wrapping_add(1).max(40000);
            self.seq += 1;
            let q = self.seq;
            let sk = self.socks[s].as_mut().unwrap();
            sk.bound = Some((any, p).into());
            sk.bind_seq = q;
        }
    }

    pub fn sys_setopt(&mut self, fd: i32, level: i32, name: i32, val: &[u8]) -> Result<(), i32> {
        self.enter()?;
        let kk = k();
        let s = kk.sock_of(fd).ok_or(libc::EBADF)?;
        kk.setup_fault("setsockopt", &[libc::ENOBUFS, libc::ENODEV, libc::EPERM, libc::ENOMEM])?;
        let as_int = || val.get(..4).map(|b| i32::from_ne_bytes(b.try_into().unwrap())).unwrap_or(0);
        let sk = kk.socks[s].as_mut().unwrap();
        match (level, name) {
            (libc::SOL_SOCKET, libc::SO_REUSEADDR) => sk.reuse = as_int() != 0,
            (libc::SOL_SOCKET, libc::SO_REUSEPORT) => sk.reuseport = as_int() != 0,
            (libc::IPPROTO_IP, libc::IP_MULTICAST_LOOP) => sk.mloop = val.first().is_some_and(|b| *b != 0),
            (libc::IPPROTO_IP, IP_MULTICAST_ALL) => sk.mall = val.first().is_some_and(|b| *b != 0),
            (libc::IPPROTO_IP, libc::IP_MULTICAST_TTL) => sk.mttl = val.first().copied().unwrap_or(1),
            (libc::SOL_SOCKET, libc::SO_RCVTIMEO) => {
                if val.len() < 16 {
                    return Err(libc::EINVAL);
                }
                let sec = i64::from_ne_bytes(val[..8].try_into().unwrap());
                let us = i64::from_ne_bytes(val[8..16].try_into().unwrap());
                let ns = (sec as u64).saturating_mul(SEC).saturating_add((us as u64).saturating_mul(US));
                sk.rcvtimeo = if ns == 0 { None } else { Some(ns) };
            }
            (libc::IPPROTO_IP, libc::IP_ADD_MEMBERSHIP) => {
                if sk.fam != Fam::V4 || val.len() < 8 {
                    return Err(libc::EINVAL);
                }
                let own = kk.hosts[sk.host].ip4.octets();
                if val[4..8] != [0; 4] && val[4..8] != own {
                    return Err(libc::ENODEV);
                }
                if val[..4] == MDNS4.octets() {
                    sk.joined = true;
                }
            }
            (libc::IPPROTO_IP, libc::IP_DROP_MEMBERSHIP) => sk.joined = false,
            _ => {}
        }
        Ok(())
    }

    pub fn sys_getopt(&mut self, fd: i32, level: i32, name: i32) -> Result<Vec<u8>, i32> {
        let s = self.sock_of(fd).ok_or(libc::EBADF)?;
        let sk = self.socks[s].as_ref().unwrap();
        Ok(match (level, name) {
            (libc::SOL_SOCKET, libc::SO_RCVTIMEO) => {
                let ns = sk.rcvtimeo.unwrap_or(0);
                let mut v = ((ns / SEC) as i64).to_ne_bytes().to_vec();
                v.extend(((ns % SEC / US) as i64).to_ne_bytes());
                v
            }
            (libc::SOL_SOCKET, libc::SO_REUSEADDR) => (sk.reuse as i32).to_ne_bytes().to_vec(),
            _ => 0i32.to_ne_bytes().to_vec(),
        })
    }

    pub fn sys_nonblock(&mut self, fd: i32, on: bool) -> Result<(), i32> {
        self.enter()?;
        let kk = k();
        let s = kk.sock_of(fd).ok_or(libc::EBADF)?;
        kk.setup_fault("fcntl", &[libc::EPERM, libc::EINVAL])?;
        kk.socks[s].as_mut().unwrap().nonblock = on;
        Ok(())
    }
    pub fn is_nonblock(&mut self, fd: i32) -> Result<bool, i32> {
        let s = self.sock_of(fd).ok_or(libc::EBADF)?;
        Ok(self.socks[s].as_ref().unwrap().nonblock)
    }
    pub fn sys_dup(&mut self, fd: i32) -> Result<i32, i32> {
        let s = self.sock_of(fd).ok_or(libc::EBADF)?;
        self.socks[s].as_mut().unwrap().refs += 1;
        Ok(fd)
    }
    pub fn sys_close(&mut self, fd: i32) -> Result<(), i32> {
        let s = self.sock_of(fd).ok_or(libc::EBADF)?;
        let sk = self.socks[s].as_mut().unwrap();
        sk.refs -= 1;
        if sk.refs == 0 {
            self.socks[s] = None;
        }
        Ok(())
    }
    pub fn sys_name(&mut self, fd: i32, peer: bool) -> Result<SocketAddr, i32> {
        let s = self.sock_of(fd).ok_or(libc::EBADF)?;
        let sk = self.socks[s].as_ref().unwrap();
        if peer {
            return sk.peer.ok_or(libc::ENOTCONN);
        }
        Ok(sk.bound.unwrap_or(match sk.fam {
            Fam::V4 => (Ipv4Addr::UNSPECIFIED, 0).into(),
            Fam::V6 => (Ipv6Addr::UNSPECIFIED, 0).into(),
        }))
    }
    pub fn sys_connect(&mut self, fd: i32, to: Option<SocketAddr>) -> Result<(), i32> {
        self.enter()?;
        let kk = k();
        let s = kk.sock_of(fd).ok_or(libc::EBADF)?;
        kk.setup_fault("connect", &[libc::ENETUNREACH, libc::EACCES])?;
        kk.autobind(s);
        kk.socks[s].as_mut().unwrap().peer = to;
        Ok(())
    }

    pub fn sys_send(&mut self, fd: i32, data: &[u8], to: Option<SocketAddr>) -> Result<usize, i32> {
        self.enter()?;
        let kk = k();
        let s = kk.sock_of(fd).ok_or(libc::EBADF)?;
        let id = kk.cur.unwrap();
        let to = match to.or(kk.socks[s].as_ref().unwrap().peer) {
            Some(t) => t,
            None => return Err(libc::EDESTADDRREQ),
        };
        kk.autobind(s);
        let sk = kk.socks[s].as_ref().unwrap();
        let h = sk.host;
        let ip: IpAddr = match sk.fam {
            Fam::V4 => kk.hosts[h].ip4.into(),
            Fam::V6 => kk.hosts[h].ip6.into(),
        };
        let from = SocketAddr::new(ip, sk.bound.unwrap().port());
        if kk.faults_on() && kk.socks[s].as_ref().unwrap().nonblock {
            let pm = kk.f.eagain_pm;
            if kk.tape.chance(S::Fault, pm) {
                kk.stat("fault_send_would_block");
                kk.socks[s].as_mut().unwrap().full = true;
                return Err(libc::EAGAIN);
            }
        }
        let sk = kk.socks[s].as_ref().unwrap();
        let natural = if fam_of(&to) != sk.fam {
            Some(libc::EAFNOSUPPORT)
        } else if to.port() == 0 {
            Some(libc::EINVAL)
        } else if data.len() > 65507 {
            Some(libc::EMSGSIZE)
        } else if to.ip() == IpAddr::V4(Ipv4Addr::BROADCAST) {
            Some(libc::EACCES)
        } else {
            None
        };
        let err = match natural {
            Some(e) => Some(e),
            None => {
                let pm = kk.f.send_err_pm;
                kk.inject(pm, &[libc::ENETUNREACH, libc::ENOBUFS, libc::EPERM, libc::EHOSTUNREACH, libc::EINTR, libc::ENOMEM, libc::ECONNREFUSED, libc::EACCES, libc::EMSGSIZE, libc::ENETDOWN, libc::EIO, libc::EADDRNOTAVAIL, libc::EINVAL, libc::ECONNRESET], "fault_send_error")
            }
        };
        let data: Rc<[u8]> = data.into();
        kk.log_ev(id, Ev::Send { sock: s, from, to, data: data.clone(), err });
        if let Some(e) = err {
            return Err(e);
        }
        let n = data.len();
        let (ml, mt) = kk.socks[s].as_ref().map_or((true, 1), |x| (x.mloop, x.mttl));
        kk.net_send(Some(h), from, to, data, ml, mt);
        Ok(n)
    }

    /// Receives into `buf`; returns (bytes stored, full datagram length, sender).
    /// Notes what the current task holds.
    pub fn sample(&mut self) {
        if self.mem.is_none() {
            return;
        }
        let id = self.cur.unwrap();
        let u = crate::mem::take(id);
        let n = self.socks.iter().flatten().filter(|s| s.task == id).map(|s| s.refs as usize).sum();
        let now = self.now;
        self.mem.as_mut().unwrap().entry(id).or_default().push((now, u.live, u.peak, n));
    }

    pub fn sys_recv(&mut self, fd: i32, buf: &mut [u8], flags: i32) -> Result<(usize, usize, SocketAddr), i32> {
        self.enter()?;
        if self.mem.is_some() && matches!(self.tasks[self.cur.unwrap()].name.as_bytes(), [b'a', b'd', b'v', ..] | [b't', b'a', b'p', ..]) {
            self.sample();
        }
        let kk = k();
        let s = kk.sock_of(fd).ok_or(libc::EBADF)?;
        let id = kk.cur.unwrap();
        let pm = kk.f.recv_err_pm;
        if let Some(e) = kk.inject(pm, &[libc::ENOMEM, libc::ENOBUFS, libc::EIO, libc::ECONNREFUSED, libc::ENETDOWN, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::ECONNRESET, libc::EINVAL, libc::ENOTCONN, libc::EPERM], "fault_recv_error") {
            kk.log_ev(id, Ev::RecvErr { sock: s, errno: e, injected: true });
            return Err(e);
        }
        let deadline = kk.socks[s].as_ref().unwrap().rcvtimeo.map(|d| kk.now.saturating_add(d));
        loop {
            let kk = k();
            kk.dying_check(id)?;
            let Some(sk) = kk.socks[s].as_mut() else { return Err(libc::EBADF) };
            if let Some(p) = sk.queue.front().cloned() {
                if flags & libc::MSG_PEEK == 0 {
                    sk.queue.pop_front();
                }
                let n = p.data.len().min(buf.len());
                buf[..n].copy_from_slice(&p.data[..n]);
                let full = p.data.len();
                let from = p.from;
                if flags & libc::MSG_PEEK == 0 {
                    kk.log_ev(id, Ev::Recv { sock: s, pkt: p, len: n });
                }
                return Ok((n, full, from));
            }
            if sk.nonblock || flags & libc::MSG_DONTWAIT != 0 {
                return Err(libc::EAGAIN);
            }
            if deadline.is_some_and(|d| kk.now >= d) {
                kk.log_ev(id, Ev::RecvErr { sock: s, errno: libc::EAGAIN, injected: false });
                return Err(libc::EAGAIN);
            }
            if kk.faults_on() && kk.tasks[id].faulty && kk.f.eintr_pm > 0 && kk.tape.chance(S::Fault, kk.f.eintr_pm) {
                let d = kk.tape.range(S::Fault, 1, 200_000) * US;
                let gen = kk.tasks[id].gen + 1;
                let at = kk.now + d;
                kk.push(at, EvQ::Interrupt { task: id, gen });
            }
            let (_, intr) = kk.block(Wait::Recv(s), deadline);
            let kk = k();
            if kk.readable(fd) {
                kk.late_wake();
            }
            let kk = k();
            if intr {
                kk.stat("fault_eintr");
                kk.log_ev(id, Ev::RecvErr { sock: s, errno: libc::EINTR, injected: true });
                return Err(libc::EINTR);
            }
        }
    }

    pub fn readable(&mut self, fd: i32) -> bool {
        self.sock_of(fd).is_some_and(|s| !self.socks[s].as_ref().unwrap().queue.is_empty())
    }
    pub fn wait_readable(&mut self, fd: i32, deadline: Option<u64>) -> Result<(), i32> {
        self.enter()?;
        let kk = k();
        let s = kk.sock_of(fd).ok_or(libc::EBADF)?;
        if kk.readable(fd) {
            return Ok(());
        }
        kk.block(Wait::Recv(s), deadline);
        Ok(())
    }

    // ---- async ---------------------------------------------------------------------------------

    pub fn reg_readable(fd: i32, w: Waker) {
        match k().sock_of(fd) {
            Some(s) => {
                let sk = k().socks[s].as_mut().unwrap();
                if !sk.queue.is_empty() {
                    w.wake();
                } else {
                    sk.wakers.push(w);
                }
            }
            None => w.wake(),
        }
    }
    pub fn reg_writable(fd: i32, w: Waker) {
        if let Some(s) = k().sock_of(fd) {
            let sk = k().socks[s].as_mut().unwrap();
            if std::mem::take(&mut sk.full) {
                let us = k().tape.range(S::Fault, 1, 3000);
                let id = k().cur.unwrap_or(0);
                k().tasks[id].stall += us * US;
                k().reg_timer(Duration::from_micros(us), w);
                return;
            }
        }
        w.wake();
    }
    pub fn reg_timer(&mut self, after: Duration, w: Waker) -> u64 {
        self.timer_id += 1;
        let id = self.timer_id;
        let owner = self.cur.unwrap_or(0);
        self.timers.insert(id, (owner, w));
        let at = self.now.saturating_add(after.as_nanos().min(u64::MAX as u128 / 4) as u64);
        self.push(at, EvQ::WakeTimer { id });
        id
    }
    pub fn cancel_timer(&mut self, id: u64) {
        self.timers.remove(&id);
    }
}

pub fn fam_of(a: &SocketAddr) -> Fam {
    if a.is_ipv4() {
        Fam::V4
    } else {
        Fam::V6
    }
}

fn addr_hash(a: &SocketAddr) -> u64 {
    match a.ip() {
        IpAddr::V4(i) => mix(u32::from(i) as u64, a.port() as u64),
        IpAddr::V6(i) => mix(u128::from(i) as u64, a.port() as u64 ^ 1 << 20),
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

extern "C" fn task_entry() -> ! {
    let id = k().cur.unwrap();
    let f = k().tasks[id].entry.take().unwrap();
    let r = catch_unwind(AssertUnwindSafe(f));
    let kk = k();
    kk.tasks[id].exit = Some(match r {
        Ok(()) => Exit::Normal,
        // killed tasks run into errors they could never see otherwise
        Err(_) if kk.tasks[id].dying => Exit::Normal,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            Exit::Panic(m)
        }
    });
    kk.tasks[id].exit_t = kk.now;
    kk.log_ev(id, Ev::Exited);
    Kernel::suspend();
    unreachable!()
}

// ---- helpers used by node code running inside tasks -------------------------------------------------

/// The second field tells which poll the waker was made for; `u64::MAX`: for all.
struct TaskWaker(TaskId, u64);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        let kk = k();
        let t = &mut kk.tasks[self.0];
        if self.1 != t.poll_no && self.1 != u64::MAX {
            // the future has since been polled with another waker
            return;
        }
        t.woken = true;
        if t.wait == Wait::Async && t.exit.is_none() {
            kk.make_runnable(self.0);
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cancel {
    pub after_polls: Option<u32>,
    pub after_ns: Option<u64>,
}

/// Drives `fut` on the current task; `None` if it was cancelled or the task was killed.
pub fn drive<F: Future>(fut: F, cancel: Cancel) -> Option<F::Output> {
    let _off = crate::mem::off();
    let id = k().cur.unwrap();
    let mut fut = pin!(fut);
    let mut waker: Waker = Arc::new(TaskWaker(id, u64::MAX)).into();
    let start = k().now;
    let mut polls = 0;
    let mut spurious = 0;
    if let Some(d) = cancel.after_ns {
        let w = waker.clone();
        k().reg_timer(Duration::from_nanos(d), w);
    }
    // polled as part of something that moves it from task to task: only the latest waker counts
    let kk = k();
    let moves = kk.f.move_pm > 0 && kk.tape.chance(S::Sched, kk.f.move_pm);
    if moves {
        kk.stat("sched_moving_futures");
    }
    loop {
        if k().tasks[id].dying {
            return None;
        }
        if cancel.after_polls.is_some_and(|n| polls >= n) || cancel.after_ns.is_some_and(|d| k().now >= start + d) {
            k().stat("fault_cancelled_future");
            return None;
        }
        k().tasks[id].woken = false;
        polls += 1;
        k().tasks[id].polling = true;
        if moves {
            let t = &mut k().tasks[id];
            t.poll_no += 1;
            waker = Arc::new(TaskWaker(id, t.poll_no)).into();
        }
        let p = crate::mem::lib(|| fut.as_mut().poll(&mut Context::from_waker(&waker)));
        k().tasks[id].polling = false;
        if let Poll::Ready(v) = p {
            return Some(v);
        }
        {
            let kk = k();
            let t = &mut kk.tasks[id];
            if t.spin_t != kk.now {
                t.spin_t = kk.now;
                t.spins = 0;
            }
            t.spins += 1;
            if t.spins > 20_000 {
                kk.abandon(id);
            }
        }
        let kk = k();
        if kk.tasks[id].dying {
            return None;
        }
        if kk.faults_on() && kk.f.spurious_pm > 0 && spurious < 3 && kk.tape.chance(S::Sched, kk.f.spurious_pm) {
            spurious += 1;
            kk.stat("fault_spurious_wakeup");
            continue;
        }
        spurious = 0;
        if !kk.tasks[id].woken {
            kk.block(Wait::Async, None);
            let kk = k();
            if kk.socks.iter().flatten().any(|s| s.task == id && !s.queue.is_empty()) {
                kk.late_wake();
            }
        }
        let kk = k();
        if kk.faults_on() && kk.f.stall_pm > 0 && !kk.tasks[id].dying && kk.tape.chance(S::Fault, kk.f.stall_pm) {
            let d = kk.tape.range(S::Fault, 1, kk.f.stall_max_us.max(1)) * US;
            kk.stall(d);
        }
    }
}

pub fn me() -> TaskId {
    k().cur.unwrap()
}
pub fn dying() -> bool {
    k().tasks[me()].dying
}
pub fn app<T: Any + std::fmt::Debug>(x: T) {
    let _off = crate::mem::off();
    let kk = k();
    let id = kk.cur.unwrap();
    if kk.tasks[id].dying {
        return;
    }
    tr!(kk, "{}: {:?}", kk.tasks[id].name, x);
    let h = fnv(format!("{x:?}").as_bytes());
    kk.log_ev(id, Ev::App(Rc::new(x)));
    kk.absorb_app(h);
}
