//! Real library objects running as simulated nodes, and the plans that drive them.

use std::io;
use std::net::{IpAddr, SocketAddr};
use std::ops::ControlFlow;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

use uwuhi::name::{DomainName, Label};
use uwuhi::packet::records::TXT as LibTxt;
use uwuhi::resolver::SyncResolver;
use uwuhi::service::advertising::{Advertiser, SyncAdvertiser};
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue, TxtRecords};
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::advertising::AsyncAdvertiser;
use uwuhi_async::service::discovery::AsyncDiscoverer;

use crate::kernel::{app, drive, dying, k, me, Cancel};
use crate::mem::{lib, off};
use crate::wire::{nm, Data, Name};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Sync,
    Async,
    /// `Advertiser::handle_packet` driven by the caller.
    SansIo,
}

#[derive(Clone, Debug)]
pub struct InstCfg {
    pub inst: Vec<u8>,
    pub svc: Vec<u8>,
    pub tcp: bool,
    pub host: Name,
    pub port: u16,
    pub txt: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}

impl InstCfg {
    pub fn svc_name(&self) -> Name {
        vec![self.svc.clone(), tr_label(self.tcp), b"local".to_vec()]
    }
    pub fn full_name(&self) -> Name {
        let mut n = vec![self.inst.clone()];
        n.extend(self.svc_name());
        n
    }
    pub fn txt_strings(&self) -> Vec<Vec<u8>> {
        if self.txt.is_empty() {
            return vec![vec![]];
        }
        self.txt
            .iter()
            .map(|(k, v)| {
                let mut s = k.clone();
                if let Some(v) = v {
                    s.push(b'=');
                    s.extend(v);
                }
                s
            })
            .collect()
    }
}

pub fn tr_label(tcp: bool) -> Vec<u8> {
    if tcp {
        b"_tcp".to_vec()
    } else {
        b"_udp".to_vec()
    }
}

#[derive(Clone, Debug)]
pub struct AdvCfg {
    pub names: Vec<(Vec<u8>, IpAddr)>,
    pub insts: Vec<InstCfg>,
    /// Registered while it is in use: between listen calls, or between packets if the caller drives it.
    pub late: Vec<Late>,
}

#[derive(Clone, Debug)]
pub enum Late {
    Name(Vec<u8>, IpAddr),
    Inst(InstCfg),
}
impl Late {
    pub fn records(&self) -> Vec<(Name, Data)> {
        match self {
            Late::Name(n, ip) => vec![(vec![n.clone(), b"local".to_vec()], ip_data(*ip))],
            Late::Inst(x) => inst_records(x),
        }
    }
}

fn inst_records(x: &InstCfg) -> Vec<(Name, Data)> {
    vec![
        (x.full_name(), Data::Srv(0, 0, x.port, x.host.clone())),
        (x.full_name(), Data::Txt(x.txt_strings())),
        (x.svc_name(), Data::Ptr(x.full_name())),
        (nm("_services._dns-sd._udp.local"), Data::Ptr(x.svc_name())),
    ]
}

pub fn ip_data(ip: IpAddr) -> Data {
    match ip {
        IpAddr::V4(a) => Data::A(a.octets()),
        IpAddr::V6(a) => Data::Aaaa(a.octets()),
    }
}

impl AdvCfg {
    /// Everything this advertiser is configured to serve; `skip` lists rejected instances.
    pub fn records(&self, skip: &[usize]) -> Vec<(Name, Data)> {
        let mut v = Vec::new();
        for (n, ip) in &self.names {
            v.push((vec![n.clone(), b"local".to_vec()], ip_data(*ip)));
        }
        for (i, x) in self.insts.iter().enumerate() {
            if skip.contains(&i) {
                continue;
            }
            v.extend(inst_records(x));
        }
        v
    }
    /// The same and everything that may be registered later.
    pub fn all_records(&self) -> Vec<(Name, Data)> {
        let mut v = self.records(&[]);
        v.extend(self.late.iter().flat_map(|l| l.records()));
        v
    }
}

// ---- observations -----------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ips(Vec<IpAddr>),
    Unit,
    Details {
        host: Name,
        port: u16,
        txt: Vec<(String, Option<Vec<u8>>)>,
        /// A key for which looking it up contradicts `txt`.
        odd: Option<String>,
    },
    Err { kind: io::ErrorKind, errno: Option<i32> },
    Cancelled,
    /// A documented panic was caught.
    Panicked,
}

pub fn err(e: io::Error) -> Res {
    Res::Err { kind: e.kind(), errno: e.raw_os_error() }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Resolve { name: Name, text: Option<String> },
    AddServer(SocketAddr),
    SetTimeout(u64),
    Types { brk: Option<u32> },
    Browse { svc: Vec<u8>, tcp: bool, brk: Option<u32> },
    Load { inst: Vec<u8>, svc: Vec<u8>, tcp: bool },
    SetRetransmit(u64),
    SetDiscovery(u64),
    /// Drops the object and creates a new one.
    Recreate,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub mode: Mode,
    pub resolver: bool,
    pub server: SocketAddr,
    pub domain: Name,
    /// Use the `new_multicast_*` constructors.
    pub multicast_ctor: bool,
}

#[derive(Clone, Debug)]
pub enum A {
    New(Spec),
    NewEnd(Res),
    Start(Op),
    /// `unread`: when the oldest datagram still unread was delivered.
    End { res: Res, unread: Option<u64> },
    Cb(Vec<Vec<u8>>),
    /// Number of sockets this task has open, at a point where it should hold `want`.
    Socks { have: usize, want: usize },
    Adv { cfg: Rc<AdvCfg>, mode: Mode },
    Rejected(usize),
    /// Registered the given number of `late` items so far.
    Added(usize),
    AdvNewEnd(Res),
    Listen,
    ListenEnd(Res),
    /// create_socket() returned a socket; is it in blocking mode?
    SockMode { nonblock: bool },
    /// A coexisting responder of the harness tried to share port 5353.
    Coexist(Result<(), i32>),
    Tap,
    TapEnd(Res),
    Note(String),
}

fn open_socks() -> usize {
    let id = me();
    k().socks.iter().flatten().filter(|s| s.task == id).count()
}
fn unread() -> Option<u64> {
    let id = me();
    k().socks.iter().flatten().filter(|s| s.task == id).filter_map(|s| s.queue.front().map(|p| p.delivered)).min()
}

pub fn dn(n: &Name) -> DomainName {
    n.iter().map(Label::new).collect()
}
pub fn labels(d: &DomainName) -> Name {
    d.labels().iter().map(|l| l.as_bytes().to_vec()).collect()
}
fn transport(tcp: bool) -> ServiceTransport {
    if tcp {
        ServiceTransport::TCP
    } else {
        ServiceTransport::Other
    }
}

// ---- advertisers ------------------------------------------------------------------------------------

fn lib_details(c: &InstCfg) -> InstanceDetails {
    let mut d = InstanceDetails::new(dn(&c.host), c.port);
    if c.txt.iter().all(|(k, v)| v.is_none() && std::str::from_utf8(k).is_ok()) {
        for (key, _) in &c.txt {
            d.txt_records_mut().add_flag(String::from_utf8(key.clone()).unwrap());
        }
    } else {
        let strs = c.txt_strings();
        *d.txt_records_mut() = TxtRecords::from_txt(&LibTxt::new(strs));
    }
    d
}

fn add_all(cfg: &AdvCfg, mut add_name: impl FnMut(Label, IpAddr), mut add_inst: impl FnMut(ServiceInstance, InstanceDetails)) {
    for (n, ip) in &cfg.names[1..] {
        lib(|| add_name(Label::new(n), *ip));
    }
    for (i, c) in cfg.insts.iter().enumerate() {
        // An over-long TXT entry may be refused here (documented), but not accepted and fail later.
        let r = catch_unwind(AssertUnwindSafe(|| {
            let inst = ServiceInstance::new(Label::new(&c.inst), Label::new(&c.svc), transport(c.tcp));
            let d = lib_details(c);
            lib(|| add_inst(inst, d));
        }));
        if r.is_err() {
            app(A::Rejected(i));
        }
    }
}

/// Registers the next late item.
fn add_late(cfg: &AdvCfg, done: &mut usize, add_name: impl FnOnce(Label, IpAddr), add_inst: impl FnOnce(ServiceInstance, InstanceDetails)) {
    let Some(l) = cfg.late.get(*done) else { return };
    match l {
        Late::Name(n, ip) => lib(|| add_name(Label::new(n), *ip)),
        Late::Inst(c) => lib(|| add_inst(ServiceInstance::new(Label::new(&c.inst), Label::new(&c.svc), transport(c.tcp)), lib_details(c))),
    }
    *done += 1;
    app(A::Added(*done));
}

/// Runs an advertiser until it is killed. `cancels` drops the async listen future at the given points.
pub fn adv_main(cfg: Rc<AdvCfg>, mode: Mode, cancels: Vec<Cancel>) {
    app(A::Adv { cfg: cfg.clone(), mode });
    let (host, ip) = cfg.names[0].clone();
    let host = Label::new(host);
    let (mut late, mut packets) = (0usize, 0u32);
    match mode {
        Mode::Sync => {
            let adv = lib(|| SyncAdvertiser::new(host, ip));
            let mut adv = match adv {
                Ok(a) => a,
                Err(e) => {
                    app(A::AdvNewEnd(err(e)));
                    return;
                }
            };
            app(A::AdvNewEnd(Res::Unit));
            let cell = std::cell::RefCell::new(&mut adv);
            add_all(&cfg, |n, i| cell.borrow_mut().add_name(n, i), |s, d| cell.borrow_mut().add_instance(s, d));
            for _ in 0..=cancels.len().max(3) {
                app(A::Listen);
                let r = lib(|| adv.listen_blocking());
                if dying() {
                    return;
                }
                app(A::ListenEnd(r.map_or_else(err, |_| Res::Unit)));
                app(A::Socks { have: open_socks(), want: 0 });
                let cell = std::cell::RefCell::new(&mut adv);
                add_late(&cfg, &mut late, |n, i| cell.borrow_mut().add_name(n, i), |s, d| cell.borrow_mut().add_instance(s, d));
            }
        }
        Mode::Async => {
            let mut adv = None;
            for _ in 0..4 {
                match lib(|| AsyncAdvertiser::new(host.clone(), ip)) {
                    Ok(a) => {
                        adv = Some(a);
                        break;
                    }
                    Err(e) => {
                        if dying() {
                            return;
                        }
                        app(A::AdvNewEnd(err(e)));
                        app(A::Socks { have: open_socks(), want: 0 });
                    }
                }
            }
            let Some(mut adv) = adv else { return };
            app(A::AdvNewEnd(Res::Unit));
            {
                let cell = std::cell::RefCell::new(&mut adv);
                add_all(&cfg, |n, i| cell.borrow_mut().add_name(n, i), |s, d| cell.borrow_mut().add_instance(s, d));
            }
            let mut cs = cancels.into_iter();
            for _ in 0..12 {
                app(A::Listen);
                let c = cs.next().unwrap_or_default();
                let r = drive(adv.listen(), c);
                if dying() {
                    return;
                }
                match r {
                    None => {
                        app(A::ListenEnd(Res::Cancelled));
                        k().sleep(3 * crate::kernel::MS);
                    }
                    Some(r) => app(A::ListenEnd(r.map_or_else(err, |_| Res::Unit))),
                }
                let cell = std::cell::RefCell::new(&mut adv);
                add_late(&cfg, &mut late, |n, i| cell.borrow_mut().add_name(n, i), |s, d| cell.borrow_mut().add_instance(s, d));
            }
            drop(adv);
            app(A::Socks { have: open_socks(), want: 0 });
        }
        Mode::SansIo => {
            let mut adv = lib(|| Advertiser::new(host, ip)).unwrap();
            app(A::AdvNewEnd(Res::Unit));
            {
                let cell = std::cell::RefCell::new(&mut adv);
                add_all(&cfg, |n, i| cell.borrow_mut().add_name(n, i), |s, d| cell.borrow_mut().add_instance(s, d));
            }
            for _ in 0..4 {
                app(A::Listen);
                let r = (|| -> io::Result<()> {
                    let sock = lib(|| adv.create_socket())?;
                    let id = me();
                    let nb = k().socks.iter().flatten().filter(|s| s.task == id).any(|s| s.nonblock);
                    app(A::SockMode { nonblock: nb });
                    let mut buf = [0; uwuhi::MDNS_BUFFER_SIZE];
                    loop {
                        let (n, from) = sock.recv_from(&mut buf)?;
                        if let Ok(Some(resp)) = lib(|| adv.handle_packet(&buf[..n])) {
                            let _ = sock.send_to(resp, from);
                        }
                        packets += 1;
                        if packets % 3 == 0 && !dying() {
                            let cell = std::cell::RefCell::new(&mut adv);
                            add_late(&cfg, &mut late, |n, i| cell.borrow_mut().add_name(n, i), |s, d| cell.borrow_mut().add_instance(s, d));
                        }
                    }
                })();
                if dying() {
                    return;
                }
                app(A::ListenEnd(r.map_or_else(err, |_| Res::Unit)));
                app(A::Socks { have: open_socks(), want: 0 });
            }
        }
    }
}

// ---- clients ----------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Step {
    /// Earliest start, relative to the previous step's end.
    pub gap: u64,
    pub op: Op,
    pub cancel: Cancel,
}

enum Obj {
    SR(SyncResolver),
    AR(AsyncResolver),
    SD(SyncDiscoverer),
    AD(AsyncDiscoverer),
}

fn create(s: &Spec) -> io::Result<Obj> {
    let v6 = s.server.is_ipv6();
    Ok(match (s.resolver, s.mode == Mode::Async) {
        (true, false) => Obj::SR(match (s.multicast_ctor, v6) {
            (true, false) => SyncResolver::new_multicast_v4()?,
            (true, true) => SyncResolver::new_multicast_v6()?,
            _ => SyncResolver::new(s.server)?,
        }),
        (true, true) => {
            let f = async {
                match (s.multicast_ctor, v6) {
                    (true, false) => AsyncResolver::new_multicast_v4().await,
                    (true, true) => AsyncResolver::new_multicast_v6().await,
                    _ => AsyncResolver::new(s.server).await,
                }
            };
            Obj::AR(drive(f, Cancel::default()).unwrap_or_else(|| Err(io::Error::from_raw_os_error(libc::ESHUTDOWN)))?)
        }
        (false, false) => Obj::SD(if s.multicast_ctor {
            SyncDiscoverer::new_multicast_v4()?
        } else {
            SyncDiscoverer::new(s.server, dn(&s.domain))?
        }),
        (false, true) => {
            let f = async {
                if s.multicast_ctor {
                    AsyncDiscoverer::new_multicast_v4().await
                } else {
                    AsyncDiscoverer::new(s.server, dn(&s.domain)).await
                }
            };
            Obj::AD(drive(f, Cancel::default()).unwrap_or_else(|| Err(io::Error::from_raw_os_error(libc::ESHUTDOWN)))?)
        }
    })
}

fn inst_labels(i: &ServiceInstance) -> Vec<Vec<u8>> {
    vec![
        i.instance_name().as_bytes().to_vec(),
        i.service_name().as_bytes().to_vec(),
        i.service_transport().to_label().as_bytes().to_vec(),
    ]
}
fn svc_labels(s: &Service) -> Vec<Vec<u8>> {
    vec![s.name().as_bytes().to_vec(), s.transport().to_label().as_bytes().to_vec()]
}
fn txt_value(v: TxtRecordValue<'_>) -> Option<Vec<u8>> {
    match v {
        TxtRecordValue::NoValue => None,
        TxtRecordValue::Value(v) => Some(v.to_vec()),
    }
}
/// Keys are found in whatever case they are asked for.
fn odd_key(t: &TxtRecords) -> Option<String> {
    if t.is_empty() != (t.iter().count() == 0) {
        return Some("is_empty".into());
    }
    let odd = |k: &str, v: &Option<Vec<u8>>| t.get(k).map(txt_value).as_ref() != Some(v);
    for (k, v) in t.iter() {
        let v = txt_value(v);
        for k in [k.to_string(), k.to_ascii_uppercase(), k.to_ascii_lowercase()] {
            if odd(&k, &v) {
                return Some(k);
            }
        }
    }
    t.get("no such key").map(|_| "no such key".into())
}
fn lib_res(d: InstanceDetails) -> Res {
    Res::Details {
        odd: odd_key(d.txt_records()),
        host: labels(d.host()),
        port: d.port(),
        txt: d
            .txt_records()
            .iter()
            .map(|(k, v)| (k.to_string(), txt_value(v)))
            .collect(),
    }
}

fn unit(r: io::Result<()>) -> Res {
    r.map_or_else(err, |_| Res::Unit)
}
fn catch_unit(f: impl FnOnce()) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Res::Unit,
        Err(_) => Res::Panicked,
    }
}

fn run_op(o: &mut Obj, op: &Op, c: Cancel) -> Res {
    // u64::MAX stands for the longest there is
    let dur = |ns: u64| if ns == u64::MAX { Duration::MAX } else { Duration::from_nanos(ns) };
    let mut n = 0u32;
    let mut flow = |l: Vec<Vec<u8>>, brk: Option<u32>| {
        app(A::Cb(l));
        n += 1;
        if brk.is_some_and(|b| n >= b) {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    };
    match (o, op) {
        (Obj::SR(r), Op::Resolve { name, text }) => {
            let x = match text {
                Some(t) => lib(|| r.resolve(t)).map(|i| i.collect::<Vec<_>>()),
                None => {
                    let d = dn(name);
                    lib(|| r.resolve_domain(&d)).map(|i| i.collect())
                }
            };
            x.map_or_else(err, Res::Ips)
        }
        (Obj::AR(r), Op::Resolve { name, text }) => {
            let x = match text {
                Some(t) => drive(async { r.resolve(t).await.map(|i| i.collect::<Vec<_>>()) }, c),
                None => {
                    let d = dn(name);
                    drive(async { r.resolve_domain(&d).await.map(|i| i.collect::<Vec<_>>()) }, c)
                }
            };
            x.map_or(Res::Cancelled, |r| r.map_or_else(err, |v| Res::Ips(v.clone())))
        }
        (Obj::SR(r), Op::AddServer(a)) => catch_unit(|| lib(|| r.add_server(*a))),
        (Obj::AR(r), Op::AddServer(a)) => catch_unit(|| lib(|| r.add_server(*a))),
        (Obj::SR(r), Op::SetTimeout(t)) => unit(lib(|| r.set_timeout(dur(*t)))),
        (Obj::AR(r), Op::SetTimeout(t)) => unit(lib(|| r.set_timeout(dur(*t)))),
        (Obj::SD(d), Op::SetRetransmit(t)) => unit(lib(|| d.set_retransmit_timeout(dur(*t)))),
        (Obj::AD(d), Op::SetRetransmit(t)) => unit(lib(|| d.set_retransmit_timeout(dur(*t)))),
        (Obj::SD(d), Op::SetDiscovery(t)) => unit(lib(|| d.set_discovery_timeout(dur(*t)))),
        (Obj::AD(d), Op::SetDiscovery(t)) => unit(lib(|| d.set_discovery_timeout(dur(*t)))),
        (Obj::SD(d), Op::Types { brk }) => unit(lib(|| {
            d.discover_service_types(|s| {
                let _off = off();
                flow(svc_labels(s), *brk)
            })
        })),
        (Obj::AD(d), Op::Types { brk }) => {
            let f = d.discover_service_types(|s| {
                let _off = off();
                flow(svc_labels(s), *brk)
            });
            drive(f, c).map_or(Res::Cancelled, unit)
        }
        (Obj::SD(d), Op::Browse { svc, tcp, brk }) => {
            let s = Service::new(Label::new(svc), transport(*tcp));
            unit(lib(|| {
                d.discover_instances(&s, |i| {
                    let _off = off();
                    flow(inst_labels(i), *brk)
                })
            }))
        }
        (Obj::AD(d), Op::Browse { svc, tcp, brk }) => {
            let s = Service::new(Label::new(svc), transport(*tcp));
            let f = d.discover_instances(&s, |i| {
                let _off = off();
                flow(inst_labels(i), *brk)
            });
            drive(f, c).map_or(Res::Cancelled, unit)
        }
        (Obj::SD(d), Op::Load { inst, svc, tcp }) => {
            let i = ServiceInstance::new(Label::new(inst), Label::new(svc), transport(*tcp));
            lib(|| d.load_instance_details(&i)).map_or_else(err, lib_res)
        }
        (Obj::AD(d), Op::Load { inst, svc, tcp }) => {
            let i = ServiceInstance::new(Label::new(inst), Label::new(svc), transport(*tcp));
            drive(d.load_instance_details(&i), c).map_or(Res::Cancelled, |r| r.map_or_else(err, lib_res))
        }
        _ => Res::Unit,
    }
}

fn make(spec: &Spec) -> Option<Obj> {
    for _ in 0..5 {
        app(A::New(spec.clone()));
        match lib(|| create(spec)) {
            Ok(o) => {
                app(A::NewEnd(Res::Unit));
                return Some(o);
            }
            Err(e) => {
                if dying() {
                    return None;
                }
                app(A::NewEnd(err(e)));
                app(A::Socks { have: open_socks(), want: 0 });
            }
        }
    }
    None
}

/// Runs a client through its plan. With `align`, every step starts on a whole 10 ms.
pub fn client_main(spec: Spec, steps: Vec<Step>, align: bool) {
    let Some(mut obj) = make(&spec) else { return };
    for s in steps {
        if s.gap > 0 {
            k().sleep(s.gap);
        }
        if align {
            let g = 10 * crate::kernel::MS;
            let now = k().now;
            k().sleep((now / g + 1) * g - now);
        }
        if dying() {
            return;
        }
        if s.op == Op::Recreate {
            drop(obj);
            app(A::Socks { have: open_socks(), want: 0 });
            match make(&spec) {
                Some(o) => obj = o,
                None => return,
            }
            continue;
        }
        app(A::Start(s.op.clone()));
        let res = run_op(&mut obj, &s.op, s.cancel);
        if dying() {
            return;
        }
        app(A::End { res, unread: unread() });
        k().sample();
    }
    drop(obj);
    app(A::Socks { have: open_socks(), want: 0 });
}

// ---- others -----------------------------------------------------------------------------------------

pub fn tap_main() {
    for _ in 0..4 {
        app(A::Tap);
        let r = lib(|| uwuhi::tap::SyncTap::new().and_then(|t| t.listen()));
        if dying() {
            return;
        }
        app(A::TapEnd(unit(r)));
        app(A::Socks { have: open_socks(), want: 0 });
    }
}

/// Another mDNS responder on the same host, as in avahi or systemd-resolved: shares port 5353 properly.
pub fn responder_main() {
    use std::net::{Ipv4Addr, SocketAddrV4};
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = crate::interpose::socket(libc::AF_INET, libc::SOCK_DGRAM, 0);
        if fd < 0 {
            return;
        }
        let one: i32 = 1;
        crate::interpose::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEADDR, &one as *const _ as *const _, 4);
        let a = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353);
        let r = k().sys_bind(fd, a.into());
        app(A::Coexist(r));
        if r.is_err() {
            return;
        }
        let s = std::net::UdpSocket::from_raw_fd(fd);
        let _ = s.join_multicast_v4(&crate::kernel::MDNS4, &Ipv4Addr::UNSPECIFIED);
        let mut b = [0u8; 2000];
        while !dying() {
            if s.recv_from(&mut b).is_err() {
                return;
            }
        }
    }
}
