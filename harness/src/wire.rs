//! Stand-ins for the C library's name resolution and connect: hosts named `vx.*` have the scripted
//! addresses, and an attempt on one of them is logged and then refused or led to a loopback server.
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::Mutex;
use std::time::Duration;

#[repr(C)]
pub struct AddrInfo { flags: c_int, family: c_int, socktype: c_int, protocol: c_int, addrlen: u32, addr: *mut u8, canonname: *mut c_char, next: *mut AddrInfo }

#[derive(Clone, Debug, PartialEq)]
pub struct Target { pub six: bool, pub id: u8, pub accepts: bool, pub delay: u64 }

#[derive(Default)]
struct State { targets: Vec<Target>, port: u16, log: Vec<(bool, u8)>, over: Vec<(bool, u8)>, given: Vec<usize>, round: u8 }
static STATE: Mutex<State> = Mutex::new(State { targets: Vec::new(), port: 0, log: Vec::new(), over: Vec::new(), given: Vec::new(), round: 0 });

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
}
const SYS_CONNECT: c_long = 42;
const SYS_SOCKET: c_long = 41;
const SYS_DUP2: c_long = 33;
const SYS_CLOSE: c_long = 3;

/// attempts so far: begun, over
pub fn log() -> (Vec<(bool, u8)>, Vec<(bool, u8)>) { let s = STATE.lock().unwrap(); (s.log.clone(), s.over.clone()) }
/// the next case; attempts of an earlier one are not logged any more
pub fn script(targets: Vec<Target>, port: u16) {
    let mut s = STATE.lock().unwrap();
    s.round = s.round.wrapping_add(1);
    s.targets = targets;
    s.port = port;
    s.log.clear();
    s.over.clear();
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(host: *const c_char, service: *const c_char, hints: *const AddrInfo, res: *mut *mut AddrInfo) -> c_int {
    let name = if host.is_null() { String::new() } else { CStr::from_ptr(host).to_string_lossy().to_string() };
    if !name.starts_with("vx.") {
        let f: extern "C" fn(*const c_char, *const c_char, *const AddrInfo, *mut *mut AddrInfo) -> c_int = std::mem::transmute(dlsym(-1isize as *mut c_void, c"getaddrinfo".as_ptr()));
        return f(host, service, hints, res);
    }
    let mut s = STATE.lock().unwrap();
    if s.targets.is_empty() { return -2; }
    let round = s.round;
    let mut next: *mut AddrInfo = std::ptr::null_mut();
    for t in s.targets.clone().iter().rev() {
        let mut a = vec![0u8; if t.six { 28 } else { 16 }];
        if t.six {
            a[0] = 10;
            a[8..12].copy_from_slice(&[0xfd, 0x77, 0x76, 0x78]);
            a[22] = round;
            a[23] = t.id;
        } else {
            a[0] = 2;
            a[4..8].copy_from_slice(&[10, 77, round, t.id]);
        }
        let len = a.len() as u32;
        let addr = Box::leak(a.into_boxed_slice()).as_mut_ptr();
        next = Box::leak(Box::new(AddrInfo { flags: 0, family: if t.six { 10 } else { 2 }, socktype: 1, protocol: 6, addrlen: len, addr, canonname: std::ptr::null_mut(), next }));
    }
    s.given.push(next as usize);
    *res = next;
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(p: *mut AddrInfo) {
    let mut s = STATE.lock().unwrap();
    if let Some(i) = s.given.iter().position(|g| *g == p as usize) { s.given.swap_remove(i); return; }
    drop(s);
    let f: extern "C" fn(*mut AddrInfo) = std::mem::transmute(dlsym(-1isize as *mut c_void, c"freeaddrinfo".as_ptr()));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, kind: c_int, protocol: c_int) -> c_int {
    let r = syscall(SYS_SOCKET, domain as c_long, kind as c_long, protocol as c_long) as c_int;
    // without IPv6 the attempt is still made: it never leaves this process
    if r < 0 && domain == 10 { return syscall(SYS_SOCKET, 2 as c_long, kind as c_long, protocol as c_long) as c_int; }
    r
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const u8, len: u32) -> c_int {
    let b = std::slice::from_raw_parts(addr, len as usize);
    let hit = if len >= 28 && b[0] == 10 && b[8..12] == [0xfd, 0x77, 0x76, 0x78] { Some((true, b[22], b[23])) } else if len >= 16 && b[0] == 2 && b[4..6] == [10, 77] { Some((false, b[6], b[7])) } else { None };
    let Some((six, round, id)) = hit else { return syscall(SYS_CONNECT, fd as c_long, addr, len as c_long) as c_int };
    let (t, port) = {
        let mut s = STATE.lock().unwrap();
        if s.round == round { s.log.push((six, id)); }
        (s.targets.iter().find(|t| t.six == six && t.id == id && s.round == round).cloned(), s.port)
    };
    let Some(t) = t else { *__errno_location() = 111; return -1 };
    std::thread::sleep(Duration::from_millis(t.delay));
    let over = || { let mut s = STATE.lock().unwrap(); if s.round == round { s.over.push((six, id)); } };
    if !t.accepts { over(); *__errno_location() = 111; return -1; }
    let mut a = [0u8; 16];
    a[0] = 2;
    a[2..4].copy_from_slice(&port.to_be_bytes());
    a[4..8].copy_from_slice(&[127, 0, 0, 1]);
    let n = syscall(SYS_SOCKET, 2 as c_long, 0o2000001 as c_long, 0 as c_long);
    let r = syscall(SYS_CONNECT, n, a.as_ptr(), 16 as c_long) as c_int;
    syscall(SYS_DUP2, n, fd as c_long);
    syscall(SYS_CLOSE, n);
    over();
    r
}
