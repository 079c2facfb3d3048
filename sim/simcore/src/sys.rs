//! Link-time interposition of the system calls through which nondeterminism
//! would otherwise reach the code under test. `interpose!()` is expanded once
//! in the executable; its definitions take precedence over the C library's.
//! On a thread that executes no run every call goes to the kernel.

pub const MONO_BASE: u64 = 5_000 * 1_000_000_000;
pub const REAL_BASE: u64 = 1_600_000_000 * 1_000_000_000;

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

#[repr(C)]
pub struct SockaddrIn {
    pub family: u16,
    pub port_be: u16,
    pub addr: [u8; 4],
    pub zero: [u8; 8],
}

#[repr(C)]
pub struct SockaddrIn6 {
    pub family: u16,
    pub port_be: u16,
    pub flow: u32,
    pub addr: [u8; 16],
    pub scope: u32,
}

/// The real system call, C convention: -1 and errno on failure
pub unsafe fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        return -1;
    }
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

pub fn virtual_time(clk: i32) -> u64 {
    let now = crate::now();
    match clk {
        // realtime and its coarse variant
        0 | 5 => (REAL_BASE + now).wrapping_add(crate::realtime_offset() as u64),
        _ => MONO_BASE + now,
    }
}

pub unsafe fn parse_in(addr: *const SockaddrIn, len: u32) -> Option<std::net::SocketAddr> {
    if (len as usize) < std::mem::size_of::<SockaddrIn>() {
        return None;
    }
    let a = &*addr;
    match a.family {
        2 => Some(std::net::SocketAddr::from((
            a.addr,
            u16::from_be(a.port_be),
        ))),
        10 if len as usize >= std::mem::size_of::<SockaddrIn6>() => {
            let a = &*(addr as *const SockaddrIn6);
            Some(std::net::SocketAddr::from((
                a.addr,
                u16::from_be(a.port_be),
            )))
        }
        _ => None,
    }
}
pub unsafe fn store_in(a: std::net::SocketAddr, out: *mut SockaddrIn, len: *mut u32) {
    match a {
        std::net::SocketAddr::V4(v) => {
            *out = SockaddrIn {
                family: 2,
                port_be: v.port().to_be(),
                addr: v.ip().octets(),
                zero: [0; 8],
            };
            *len = std::mem::size_of::<SockaddrIn>() as u32;
        }
        std::net::SocketAddr::V6(v) => {
            *(out as *mut SockaddrIn6) = SockaddrIn6 {
                family: 10,
                port_be: v.port().to_be(),
                flow: 0,
                addr: v.ip().octets(),
                scope: 0,
            };
            *len = std::mem::size_of::<SockaddrIn6>() as u32;
        }
    }
}

#[macro_export]
macro_rules! interpose {
    () => {
        /// Every lock of the standard library ends here when it has to wait
        #[no_mangle]
        pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
            if n == 202 && $crate::coop::on() {
                let op = b as i32 & 0x7f;
                if op == 0 || op == 9 {
                    $crate::coop::blocked();
                    $crate::sys::set_errno(11);
                    return -1;
                }
            }
            $crate::sys::syscall(n, a, b, c, d, e, f)
        }
        #[no_mangle]
        pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
            if fd == 0 && $crate::active() && $crate::stdio::is_open() {
                return match $crate::stdio::read(std::slice::from_raw_parts_mut(buf, n)) {
                    Ok(n) => n as isize,
                    Err(e) => {
                        $crate::sys::set_errno(e);
                        -1
                    }
                };
            }
            $crate::sys::syscall(0, fd as i64, buf as i64, n as i64, 0, 0, 0) as isize
        }
        #[no_mangle]
        pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
            if (fd == 1 || fd == 2) && $crate::active() && $crate::stdio::is_open() {
                return match $crate::stdio::write(fd, std::slice::from_raw_parts(buf, n)) {
                    Ok(n) => n as isize,
                    Err(e) => {
                        $crate::sys::set_errno(e);
                        -1
                    }
                };
            }
            $crate::sys::syscall(1, fd as i64, buf as i64, n as i64, 0, 0, 0) as isize
        }
        #[no_mangle]
        pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut $crate::sys::Timespec) -> i32 {
            if $crate::active() {
                let t = $crate::sys::virtual_time(clk);
                (*ts).sec = (t / 1_000_000_000) as i64;
                (*ts).nsec = (t % 1_000_000_000) as i64;
                return 0;
            }
            $crate::sys::syscall(228, clk as i64, ts as i64, 0, 0, 0, 0) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn nanosleep(
            req: *const $crate::sys::Timespec,
            rem: *mut $crate::sys::Timespec,
        ) -> i32 {
            if $crate::active() {
                let d = (*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64;
                $crate::advance_to($crate::now() + d);
                return 0;
            }
            $crate::sys::syscall(35, req as i64, rem as i64, 0, 0, 0, 0) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn clock_nanosleep(
            clk: i32,
            flags: i32,
            req: *const $crate::sys::Timespec,
            rem: *mut $crate::sys::Timespec,
        ) -> i32 {
            if $crate::active() {
                let d = (*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64;
                if flags == 0 {
                    $crate::advance_to($crate::now() + d);
                }
                return 0;
            }
            let r = $crate::sys::syscall(230, clk as i64, flags as i64, req as i64, rem as i64, 0, 0);
            if r < 0 {
                4
            } else {
                0
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
            if $crate::fill_seeding(std::slice::from_raw_parts_mut(buf, len)) {
                return len as isize;
            }
            if $crate::active() {
                let s = std::slice::from_raw_parts_mut(buf, len);
                if $crate::fill_entropy(s) {
                    return len as isize;
                }
            }
            $crate::sys::syscall(318, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
        }
        /// The descriptor is only a placeholder, so that its family does not
        /// matter (there need not be an IPv6 stack)
        #[no_mangle]
        pub unsafe extern "C" fn socket(domain: i32, kind: i32, proto: i32) -> i32 {
            let d = if domain == 10 && $crate::active() { 2 } else { domain };
            $crate::sys::syscall(41, d as i64, kind as i64, proto as i64, 0, 0, 0) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn bind(
            fd: i32,
            addr: *const $crate::sys::SockaddrIn,
            len: u32,
        ) -> i32 {
            if $crate::active() {
                let r = match $crate::sys::parse_in(addr, len) {
                    Some(a) => $crate::net::fd_bind(fd, a),
                    None => Err(97),
                };
                return match r {
                    Ok(()) => 0,
                    Err(e) => {
                        $crate::sys::set_errno(e);
                        -1
                    }
                };
            }
            $crate::sys::syscall(49, fd as i64, addr as i64, len as i64, 0, 0, 0) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn connect(
            fd: i32,
            addr: *const $crate::sys::SockaddrIn,
            len: u32,
        ) -> i32 {
            if $crate::active() {
                let r = match $crate::sys::parse_in(addr, len) {
                    Some(a) => $crate::net::fd_connect(fd, a),
                    None => Err(97),
                };
                return match r {
                    Ok(()) => 0,
                    Err(e) => {
                        $crate::sys::set_errno(e);
                        -1
                    }
                };
            }
            $crate::sys::syscall(42, fd as i64, addr as i64, len as i64, 0, 0, 0) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn getsockname(
            fd: i32,
            addr: *mut $crate::sys::SockaddrIn,
            len: *mut u32,
        ) -> i32 {
            if $crate::active() {
                return match $crate::net::fd_local(fd) {
                    Some(a) => {
                        $crate::sys::store_in(a, addr, len);
                        0
                    }
                    None => {
                        $crate::sys::set_errno(9);
                        -1
                    }
                };
            }
            $crate::sys::syscall(51, fd as i64, addr as i64, len as i64, 0, 0, 0) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn getpeername(
            fd: i32,
            addr: *mut $crate::sys::SockaddrIn,
            len: *mut u32,
        ) -> i32 {
            if $crate::active() {
                return match $crate::net::fd_peer(fd) {
                    Some(a) => {
                        $crate::sys::store_in(a, addr, len);
                        0
                    }
                    None => {
                        $crate::sys::set_errno(107);
                        -1
                    }
                };
            }
            $crate::sys::syscall(52, fd as i64, addr as i64, len as i64, 0, 0, 0) as i32
        }
    };
}
