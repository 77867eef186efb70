//! Stand-in for `async-io` 2.x, used through `[patch.crates-io]`.
//!
//! Same observable behaviour as the real crate for the API below: an operation is tried first, and
//! only when it would block the task waits for readiness; timers fire no earlier than their deadline.
//! Readiness and timers are supplied by the simulator through [`sim::install`].

use std::future::Future;
use std::io;
use std::net::{SocketAddr, UdpSocket};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

use futures_lite::stream::Stream;

pub mod sim {
    use std::sync::OnceLock;
    use std::task::Waker;
    use std::time::Duration;

    pub struct Hooks {
        /// Wake `waker` once `fd` is (or already is) readable.
        pub readable: fn(fd: i32, waker: Waker),
        pub writable: fn(fd: i32, waker: Waker),
        /// Wake `waker` after `after`; returns an id for `cancel_timer`.
        pub timer: fn(after: Duration, waker: Waker) -> u64,
        pub cancel_timer: fn(id: u64),
        /// Whether what is allocated from now on counts as the caller's; returns the previous setting.
        pub account: fn(bool) -> bool,
    }
    pub(crate) static HOOKS: OnceLock<Hooks> = OnceLock::new();
    pub fn install(h: Hooks) {
        let _ = HOOKS.set(h);
    }
    pub(crate) fn hooks() -> &'static Hooks {
        HOOKS.get().expect("async-io stand-in used outside the simulator")
    }
}

fn set_nonblocking(fd: RawFd) -> io::Result<()> {
    unsafe {
        let fl = libc::fcntl(fd, libc::F_GETFL, 0);
        if fl < 0 {
            return Err(io::Error::last_os_error());
        }
        if libc::fcntl(fd, libc::F_SETFL, fl | libc::O_NONBLOCK) < 0 {
            return Err(io::Error::last_os_error());
        }
    }
    Ok(())
}

/// Async adapter for I/O types.
#[derive(Debug)]
pub struct Async<T> {
    io: Option<T>,
    fd: RawFd,
    /// Notifications asked for through `poll_readable` and `poll_writable`.
    polled: [std::sync::Mutex<Option<Ready>>; 2],
}

impl<T> Unpin for Async<T> {}

impl<T: AsFd> Async<T> {
    pub fn new(io: T) -> io::Result<Async<T>> {
        set_nonblocking(io.as_fd().as_raw_fd())?;
        Self::new_nonblocking(io)
    }
    pub fn new_nonblocking(io: T) -> io::Result<Async<T>> {
        let fd = io.as_fd().as_raw_fd();
        Ok(Async { io: Some(io), fd, polled: Default::default() })
    }
}

impl<T: AsRawFd> AsRawFd for Async<T> {
    fn as_raw_fd(&self) -> RawFd {
        self.get_ref().as_raw_fd()
    }
}
impl<T: AsFd> AsFd for Async<T> {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.get_ref().as_fd()
    }
}
impl<T: AsFd + From<OwnedFd>> TryFrom<OwnedFd> for Async<T> {
    type Error = io::Error;
    fn try_from(value: OwnedFd) -> Result<Self, Self::Error> {
        Async::new(value.into())
    }
}
impl<T> AsRef<T> for Async<T> {
    fn as_ref(&self) -> &T {
        self.get_ref()
    }
}
impl TryFrom<UdpSocket> for Async<UdpSocket> {
    type Error = io::Error;
    fn try_from(s: UdpSocket) -> io::Result<Self> {
        Async::new(s)
    }
}

#[derive(Debug, Clone, Copy)]
enum Dir {
    Read,
    Write,
}

/// Resolves at the next readiness notification.
#[derive(Debug)]
pub struct Ready {
    fd: RawFd,
    dir: Dir,
    armed: Option<Arc<Flag>>,
}
pub type Readable<'a, T> = ReadyRef<'a, T>;
pub type Writable<'a, T> = ReadyRef<'a, T>;
pub struct ReadyRef<'a, T> {
    inner: Ready,
    _p: std::marker::PhantomData<&'a T>,
}
impl<T> Future for ReadyRef<'_, T> {
    type Output = io::Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.inner).poll(cx)
    }
}

pub type ReadableOwned<T> = ReadyOwned<T>;
pub type WritableOwned<T> = ReadyOwned<T>;
pub struct ReadyOwned<T> {
    inner: Ready,
    _io: Arc<Async<T>>,
}
impl<T> Future for ReadyOwned<T> {
    type Output = io::Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.inner).poll(cx)
    }
}

#[derive(Debug)]
struct Flag {
    fired: std::sync::atomic::AtomicBool,
    waker: std::sync::Mutex<Waker>,
}
impl std::task::Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.fired.store(true, std::sync::atomic::Ordering::SeqCst);
        self.waker.lock().unwrap().wake_by_ref();
    }
}

impl Future for Ready {
    type Output = io::Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(f) = &self.armed {
            if f.fired.load(std::sync::atomic::Ordering::SeqCst) {
                return Poll::Ready(Ok(()));
            }
            *f.waker.lock().unwrap() = cx.waker().clone();
            return Poll::Pending;
        }
        let was = (sim::hooks().account)(false);
        let f = Arc::new(Flag {
            fired: false.into(),
            waker: std::sync::Mutex::new(cx.waker().clone()),
        });
        (sim::hooks().account)(was);
        self.armed = Some(f.clone());
        match self.dir {
            Dir::Read => (sim::hooks().readable)(self.fd, f.into()),
            Dir::Write => (sim::hooks().writable)(self.fd, f.into()),
        }
        Poll::Pending
    }
}

impl<T> Async<T> {
    pub fn get_ref(&self) -> &T {
        self.io.as_ref().unwrap()
    }
    /// # Safety
    /// Same contract as the real crate.
    pub unsafe fn get_mut(&mut self) -> &mut T {
        self.io.as_mut().unwrap()
    }
    pub fn into_inner(mut self) -> io::Result<T> {
        Ok(self.io.take().unwrap())
    }
    fn ready(&self, dir: Dir) -> Ready {
        Ready { fd: self.fd, dir, armed: None }
    }
    fn poll_ready(&self, dir: Dir, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut slot = self.polled[dir as usize].lock().unwrap();
        let res = Pin::new(slot.get_or_insert_with(|| self.ready(dir))).poll(cx);
        if res.is_ready() {
            *slot = None;
        }
        res
    }
    pub fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_ready(Dir::Read, cx)
    }
    pub fn poll_writable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_ready(Dir::Write, cx)
    }
    pub fn readable_owned(self: Arc<Self>) -> ReadableOwned<T> {
        ReadyOwned { inner: self.ready(Dir::Read), _io: self }
    }
    pub fn writable_owned(self: Arc<Self>) -> WritableOwned<T> {
        ReadyOwned { inner: self.ready(Dir::Write), _io: self }
    }
    /// # Safety
    /// Same contract as the real crate.
    pub async unsafe fn read_with_mut<R>(&mut self, mut op: impl FnMut(&mut T) -> io::Result<R>) -> io::Result<R> {
        loop {
            match op(self.io.as_mut().unwrap()) {
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            self.readable().await?;
        }
    }
    /// # Safety
    /// Same contract as the real crate.
    pub async unsafe fn write_with_mut<R>(&mut self, mut op: impl FnMut(&mut T) -> io::Result<R>) -> io::Result<R> {
        loop {
            match op(self.io.as_mut().unwrap()) {
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            self.writable().await?;
        }
    }
    pub fn readable(&self) -> Readable<'_, T> {
        ReadyRef {
            inner: self.ready(Dir::Read),
            _p: std::marker::PhantomData,
        }
    }
    pub fn writable(&self) -> Writable<'_, T> {
        ReadyRef {
            inner: self.ready(Dir::Write),
            _p: std::marker::PhantomData,
        }
    }
    pub async fn read_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            self.readable().await?;
        }
    }
    pub async fn write_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            self.writable().await?;
        }
    }
}

impl Async<UdpSocket> {
    pub fn bind<A: Into<SocketAddr>>(addr: A) -> io::Result<Async<UdpSocket>> {
        Async::new(UdpSocket::bind(addr.into())?)
    }
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.read_with(|io| io.recv_from(buf)).await
    }
    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.read_with(|io| io.peek_from(buf)).await
    }
    pub async fn send_to<A: Into<SocketAddr>>(&self, buf: &[u8], addr: A) -> io::Result<usize> {
        let addr = addr.into();
        self.write_with(|io| io.send_to(buf, addr)).await
    }
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_with(|io| io.recv(buf)).await
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_with(|io| io.peek(buf)).await
    }
    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        self.write_with(|io| io.send(buf)).await
    }
}

/// A future or stream that emits timed events.
#[derive(Debug)]
pub struct Timer {
    when: Option<Instant>,
    period: Duration,
    reg: Option<(u64, Waker)>,
}

impl Timer {
    pub fn never() -> Timer {
        Timer { when: None, period: Duration::MAX, reg: None }
    }
    pub fn after(duration: Duration) -> Timer {
        Timer { when: Instant::now().checked_add(duration), period: Duration::MAX, reg: None }
    }
    pub fn at(instant: Instant) -> Timer {
        Timer { when: Some(instant), period: Duration::MAX, reg: None }
    }
    pub fn interval(period: Duration) -> Timer {
        Timer { when: Instant::now().checked_add(period), period, reg: None }
    }
    pub fn interval_at(start: Instant, period: Duration) -> Timer {
        Timer { when: Some(start), period, reg: None }
    }
    pub fn will_fire(&self) -> bool {
        self.when.is_some()
    }
    fn reset(&mut self, when: Option<Instant>, period: Duration) {
        self.clear_reg();
        self.when = when;
        self.period = period;
    }
    pub fn set_after(&mut self, duration: Duration) {
        self.reset(Instant::now().checked_add(duration), Duration::MAX)
    }
    pub fn set_at(&mut self, instant: Instant) {
        self.reset(Some(instant), Duration::MAX)
    }
    pub fn set_interval(&mut self, period: Duration) {
        self.reset(Instant::now().checked_add(period), period)
    }
    pub fn set_interval_at(&mut self, start: Instant, period: Duration) {
        self.reset(Some(start), period)
    }
    pub fn clear(&mut self) {
        self.reset(None, Duration::MAX)
    }
    fn clear_reg(&mut self) {
        if let Some((id, _)) = self.reg.take() {
            (sim::hooks().cancel_timer)(id);
        }
    }
    fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        let Some(when) = self.when else { return Poll::Pending };
        let now = Instant::now();
        if now >= when {
            self.clear_reg();
            self.when = if self.period == Duration::MAX { None } else { when.checked_add(self.period) };
            return Poll::Ready(when);
        }
        if let Some((_, w)) = &self.reg {
            if w.will_wake(cx.waker()) {
                return Poll::Pending;
            }
        }
        self.clear_reg();
        let id = (sim::hooks().timer)(when - now, cx.waker().clone());
        self.reg = Some((id, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        self.clear_reg();
    }
}
impl Future for Timer {
    type Output = Instant;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Instant> {
        self.poll_tick(cx)
    }
}
impl Stream for Timer {
    type Item = Instant;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Instant>> {
        self.poll_tick(cx).map(Some)
    }
}

/// Minimal executor entry point (the simulator drives futures itself).
pub fn block_on<T>(future: impl Future<Output = T>) -> T {
    futures_lite::future::block_on(future)
}
