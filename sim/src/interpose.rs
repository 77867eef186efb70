//! The seam: the libc calls behind `std::net`, `socket2` and `std::time`. The binary defines these
//! symbols itself; descriptors the simulator handed out are served by the kernel model, everything else
//! goes to the real system call.

use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};

use libc::{c_int, c_long, c_ulong, c_void, iovec, msghdr, size_t, sockaddr, socklen_t, ssize_t, timespec};

use crate::kernel::{in_sim, k, Kernel, FD0, MS, SEC};

/// The real system call.
unsafe fn raw(a: [c_long; 7]) -> c_long {
    let r: c_long;
    #[cfg(target_arch = "x86_64")]
    std::arch::asm!("syscall", inlateout("rax") a[0] => r, in("rdi") a[1], in("rsi") a[2], in("rdx") a[3], in("r10") a[4], in("r8") a[5], in("r9") a[6],
        lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        return -1;
    }
    r
}
macro_rules! sysc {
    ($($a:expr),*) => {{
        let mut v = [0 as c_long; 7];
        let mut _i = 0;
        $( v[_i] = $a as usize as c_long; _i += 1; )*
        raw(v)
    }};
}

/// `std`'s locks wait through `syscall(SYS_futex, ..)`: between simulated tasks the wait is simulated.
/// (Variadic for C callers; integer and pointer arguments are passed the same way.)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let _off = crate::mem::off();
    if n == libc::SYS_futex {
        if let Some(kk) = in_sim() {
            let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            let ts = d as *const timespec;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let deadline = if ts.is_null() {
                        None
                    } else {
                        let v = (*ts).tv_sec as i128 * SEC as i128 + (*ts).tv_nsec as i128;
                        let mut zero: timespec = std::mem::zeroed();
                        if op == libc::FUTEX_WAIT_BITSET {
                            let clock = if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 { libc::CLOCK_REALTIME } else { libc::CLOCK_MONOTONIC };
                            clock_gettime(clock, &mut zero);
                        }
                        let left = v - (zero.tv_sec as i128 * SEC as i128 + zero.tv_nsec as i128);
                        Some(kk.now.saturating_add(left.clamp(0, u64::MAX as i128) as u64))
                    };
                    return match kk.futex_wait(a as *const u32, c as u32, deadline) {
                        Ok(()) => 0,
                        Err(e) => {
                            set_errno(e);
                            -1
                        }
                    };
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => return kk.futex_wake(a as usize, c as u32) as c_long,
                _ => {}
            }
        }
    }
    raw([n, a, b, c, d, e, f])
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: Result<i32, i32>) -> c_int {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
fn retn(r: Result<usize, i32>) -> ssize_t {
    match r {
        Ok(v) => v as ssize_t,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
fn mine(fd: c_int) -> Option<&'static mut Kernel> {
    if fd >= FD0 {
        in_sim()
    } else {
        None
    }
}

unsafe fn addr_in(a: *const sockaddr, len: socklen_t) -> Result<SocketAddr, i32> {
    if a.is_null() || (len as usize) < 2 {
        return Err(libc::EINVAL);
    }
    match (*a).sa_family as c_int {
        libc::AF_INET if len as usize >= std::mem::size_of::<libc::sockaddr_in>() => {
            let s = &*(a as *const libc::sockaddr_in);
            Ok((Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr)), u16::from_be(s.sin_port)).into())
        }
        libc::AF_INET6 if len as usize >= std::mem::size_of::<libc::sockaddr_in6>() => {
            let s = &*(a as *const libc::sockaddr_in6);
            Ok((Ipv6Addr::from(s.sin6_addr.s6_addr), u16::from_be(s.sin6_port)).into())
        }
        _ => Err(libc::EAFNOSUPPORT),
    }
}
unsafe fn addr_out(a: SocketAddr, out: *mut sockaddr, len: *mut socklen_t) {
    if out.is_null() || len.is_null() {
        return;
    }
    match a {
        SocketAddr::V4(v) => {
            let mut s: libc::sockaddr_in = std::mem::zeroed();
            s.sin_family = libc::AF_INET as u16;
            s.sin_port = v.port().to_be();
            s.sin_addr.s_addr = u32::from(*v.ip()).to_be();
            let n = std::mem::size_of_val(&s);
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n.min(*len as usize));
            *len = n as socklen_t;
        }
        SocketAddr::V6(v) => {
            let mut s: libc::sockaddr_in6 = std::mem::zeroed();
            s.sin6_family = libc::AF_INET6 as u16;
            s.sin6_port = v.port().to_be();
            s.sin6_addr.s6_addr = v.ip().octets();
            let n = std::mem::size_of_val(&s);
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n.min(*len as usize));
            *len = n as socklen_t;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    let _off = crate::mem::off();
    match in_sim() {
        Some(kk) => ret(kk.sys_socket(domain, ty)),
        None => sysc!(libc::SYS_socket, domain as c_long, ty as c_long, proto as c_long) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => ret(addr_in(a, len).and_then(|a| kk.sys_bind(fd, a)).map(|_| 0)),
        None => sysc!(libc::SYS_bind, fd as c_long, a, len as c_long) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => ret(kk.sys_connect(fd, addr_in(a, len).ok()).map(|_| 0)),
        None => sysc!(libc::SYS_connect, fd as c_long, a, len as c_long) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => {
            let v = std::slice::from_raw_parts(val as *const u8, len as usize);
            ret(kk.sys_setopt(fd, level, name, v).map(|_| 0))
        }
        None => sysc!(libc::SYS_setsockopt, fd as c_long, level as c_long, name as c_long, val, len as c_long) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => ret(kk.sys_getopt(fd, level, name).map(|v| {
            let n = v.len().min(*len as usize);
            std::ptr::copy_nonoverlapping(v.as_ptr(), val as *mut u8, n);
            *len = n as socklen_t;
            0
        })),
        None => sysc!(libc::SYS_getsockopt, fd as c_long, level as c_long, name as c_long, val, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => ret(kk.sys_name(fd, false).map(|x| {
            addr_out(x, a, len);
            0
        })),
        None => sysc!(libc::SYS_getsockname, fd as c_long, a, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => ret(kk.sys_name(fd, true).map(|x| {
            addr_out(x, a, len);
            0
        })),
        None => sysc!(libc::SYS_getpeername, fd as c_long, a, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, len: socklen_t) -> ssize_t {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => {
            let data = std::slice::from_raw_parts(b as *const u8, n);
            let to = if a.is_null() { Ok(None) } else { addr_in(a, len).map(Some) };
            retn(to.and_then(|to| kk.sys_send(fd, data, to)))
        }
        None => sysc!(libc::SYS_sendto, fd as c_long, b, n, flags as c_long, a, len as c_long) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    let _off = crate::mem::off();
    sendto(fd, b, n, flags, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => {
            let m = &*m;
            let mut data = Vec::new();
            for i in 0..m.msg_iovlen {
                let v: &iovec = &*m.msg_iov.add(i);
                data.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            let a = m.msg_name as *const sockaddr;
            let to = if a.is_null() { Ok(None) } else { addr_in(a, m.msg_namelen).map(Some) };
            retn(to.and_then(|to| kk.sys_send(fd, &data, to)))
        }
        None => sysc!(libc::SYS_sendmsg, fd as c_long, m, flags as c_long) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, len: *mut socklen_t) -> ssize_t {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => {
            let buf = std::slice::from_raw_parts_mut(b as *mut u8, n);
            retn(kk.sys_recv(fd, buf, flags).map(|(kept, full, from)| {
                addr_out(from, a, len);
                if flags & libc::MSG_TRUNC != 0 {
                    full
                } else {
                    kept
                }
            }))
        }
        None => sysc!(libc::SYS_recvfrom, fd as c_long, b, n, flags as c_long, a, len) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    let _off = crate::mem::off();
    recvfrom(fd, b, n, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => {
            let m = &mut *m;
            let mut total = 0;
            for i in 0..m.msg_iovlen {
                total += (*m.msg_iov.add(i)).iov_len;
            }
            let mut tmp = vec![0u8; total];
            retn(kk.sys_recv(fd, &mut tmp, flags).map(|(kept, full, from)| {
                let mut off = 0;
                for i in 0..m.msg_iovlen {
                    let v = &*m.msg_iov.add(i);
                    let n = v.iov_len.min(kept - off);
                    std::ptr::copy_nonoverlapping(tmp[off..].as_ptr(), v.iov_base as *mut u8, n);
                    off += n;
                }
                if !m.msg_name.is_null() {
                    addr_out(from, m.msg_name as *mut sockaddr, &mut m.msg_namelen);
                }
                m.msg_flags = if full > kept { libc::MSG_TRUNC } else { 0 };
                m.msg_controllen = 0;
                kept
            }))
        }
        None => sysc!(libc::SYS_recvmsg, fd as c_long, m, flags as c_long) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let _off = crate::mem::off();
    if n > 0 && in_sim().is_some() && (*fds).fd >= FD0 {
        let set = std::slice::from_raw_parts_mut(fds, n as usize);
        return ret(k().sys_poll(set, timeout));
    }
    sysc!(libc::SYS_poll, fds, n, timeout as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => ret(kk.sys_close(fd).map(|_| 0)),
        None if fd >= FD0 => 0,
        None => sysc!(libc::SYS_close, fd as c_long) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    let _off = crate::mem::off();
    match mine(fd) {
        Some(kk) => ret(if req == libc::FIONBIO {
            kk.sys_nonblock(fd, *(arg as *const c_int) != 0).map(|_| 0)
        } else {
            Err(libc::ENOTTY)
        }),
        None => sysc!(libc::SYS_ioctl, fd as c_long, req, arg) as c_int,
    }
}
unsafe fn fcntl_impl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    match mine(fd) {
        Some(kk) => ret(match cmd {
            libc::F_GETFL => kk.is_nonblock(fd).map(|b| libc::O_RDWR | if b { libc::O_NONBLOCK } else { 0 }),
            libc::F_SETFL => kk.sys_nonblock(fd, arg as c_int & libc::O_NONBLOCK != 0).map(|_| 0),
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => kk.sys_dup(fd),
            libc::F_GETFD => Ok(libc::FD_CLOEXEC),
            libc::F_SETFD => Ok(0),
            _ => Err(libc::EINVAL),
        }),
        None => sysc!(libc::SYS_fcntl, fd as c_long, cmd as c_long, arg) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let _off = crate::mem::off();
    fcntl_impl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let _off = crate::mem::off();
    fcntl_impl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut timespec) -> c_int {
    let _off = crate::mem::off();
    if let Some(kk) = in_sim() {
        // An arbitrary epoch, so that nothing depends on small values.
        let base: i64 = 1_000_000 * SEC as i64;
        let t = match id {
            libc::CLOCK_REALTIME => base + 1_600_000_000 * SEC as i64 + kk.now as i64 + kk.wall(),
            _ => base + kk.now as i64,
        };
        (*ts).tv_sec = t / SEC as i64;
        (*ts).tv_nsec = t % SEC as i64;
        return 0;
    }
    sysc!(libc::SYS_clock_gettime, id as c_long, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    let _off = crate::mem::off();
    if let Some(kk) = in_sim() {
        kk.nap((*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64);
        return 0;
    }
    sysc!(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    let _off = crate::mem::off();
    if let Some(kk) = in_sim() {
        let mut d = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            let mut ts: timespec = std::mem::zeroed();
            clock_gettime(id, &mut ts);
            d = d.saturating_sub(ts.tv_sec as u64 * SEC + ts.tv_nsec as u64);
        }
        kk.nap(d);
        return 0;
    }
    let r = sysc!(libc::SYS_clock_nanosleep, id as c_long, flags as c_long, req, rem) as c_int;
    if r < 0 {
        *libc::__errno_location()
    } else {
        0
    }
}
/// Randomness is the simulator's too.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, flags: libc::c_uint) -> ssize_t {
    let _off = crate::mem::off();
    if let Some(kk) = in_sim() {
        let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
        kk.sys_random(s);
        return n as ssize_t;
    }
    sysc!(libc::SYS_getrandom, b, n, flags as c_long) as ssize_t
}

impl Kernel {
    pub fn sys_random(&mut self, s: &mut [u8]) {
        self.rand_ctr += 1;
        let mut x = self.rand_seed ^ self.rand_ctr.wrapping_mul(0x9E3779B97F4A7C15);
        for b in s {
            *b = (crate::tape::splitmix(&mut x) >> 32) as u8;
        }
    }
    fn sys_poll(&mut self, set: &mut [libc::pollfd], timeout: c_int) -> Result<i32, i32> {
        let deadline = if timeout < 0 { None } else { Some(self.now.saturating_add(timeout as u64 * MS)) };
        loop {
            let mut n = 0;
            for p in set.iter_mut() {
                p.revents = p.events & libc::POLLOUT;
                if k().readable(p.fd) {
                    p.revents |= p.events & libc::POLLIN;
                }
                if p.revents != 0 {
                    n += 1;
                }
            }
            if n > 0 || deadline.is_some_and(|d| k().now >= d) {
                return Ok(n);
            }
            k().wait_readable(set[0].fd, deadline)?;
        }
    }
}
