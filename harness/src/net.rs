//! A loopback server that answers the n-th connection as scripted and logs what it was sent.
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Default)]
pub struct Script {
    pub expect: usize,
    pub reply: Vec<u8>,
    /// pause before the reply, and in the middle of it
    pub pause: u64,
    pub chunk: usize,
    /// the connection is reset after the reply
    pub reset: bool,
    /// the reply is sent, and the connection given up, without reading anything
    pub early: bool,
}
extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const std::ffi::c_void, len: u32) -> i32;
}
/// closing it resets the connection
fn no_linger(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let v = [1i32, 0i32];
    unsafe { setsockopt(s.as_raw_fd(), 1, 13, v.as_ptr() as *const _, 8) };
}
pub struct Server {
    pub port: u16,
    queue: Arc<Mutex<VecDeque<Script>>>,
    log: Arc<(Mutex<Vec<Vec<u8>>>, Condvar)>,
}
fn serve(mut s: TcpStream, sc: Script) -> Vec<u8> {
    let _ = s.set_nodelay(true);
    if sc.early {
        let _ = s.write_all(&sc.reply);
        std::thread::sleep(Duration::from_millis(10));
        no_linger(&s);
        return Vec::new();
    }
    let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
    let mut got = Vec::new();
    let mut buf = [0u8; 65536];
    let end = Instant::now() + Duration::from_millis(1500);
    while got.len() < sc.expect && Instant::now() < end {
        match s.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => got.extend_from_slice(&buf[..n]),
            Err(_) => {}
        }
    }
    if sc.pause > 0 {
        std::thread::sleep(Duration::from_millis(sc.pause));
    }
    if sc.chunk > 0 {
        for c in sc.reply.chunks(sc.chunk) {
            let _ = s.write_all(c);
            let _ = s.flush();
            std::thread::sleep(Duration::from_micros(200));
        }
    } else {
        let _ = s.write_all(&sc.reply);
    }
    if sc.reset {
        std::thread::sleep(Duration::from_millis(2));
        no_linger(&s);
        return got;
    }
    let _ = s.shutdown(Shutdown::Write);
    let _ = s.set_read_timeout(Some(Duration::from_millis(3000)));
    while let Ok(n) = s.read(&mut buf) {
        if n == 0 {
            break;
        }
        got.extend_from_slice(&buf[..n]);
    }
    got
}
impl Server {
    /// with `reply`, every connection is answered with it, concurrently
    pub fn start(fixed: Option<Vec<u8>>) -> Server {
        Server::start_slow(fixed, 0)
    }
    /// answers after `pause` ms
    pub fn start_slow(fixed: Option<Vec<u8>>, pause: u64) -> Server {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let queue: Arc<Mutex<VecDeque<Script>>> = Default::default();
        let log: Arc<(Mutex<Vec<Vec<u8>>>, Condvar)> = Default::default();
        let (q, g) = (queue.clone(), log.clone());
        std::thread::spawn(move || {
            for s in l.incoming() {
                let s = match s { Ok(s) => s, Err(_) => continue };
                match &fixed {
                    Some(r) => {
                        let (r, g) = (r.clone(), g.clone());
                        std::thread::spawn(move || {
                            let got = serve(s, Script { expect: 1, reply: r, pause, ..Default::default() });
                            g.0.lock().unwrap().push(got);
                            g.1.notify_all();
                        });
                    }
                    None => {
                        let sc = q.lock().unwrap().pop_front().unwrap_or_default();
                        let got = serve(s, sc);
                        g.0.lock().unwrap().push(got);
                        g.1.notify_all();
                    }
                }
            }
        });
        Server { port, queue, log }
    }
    pub fn script(&self, s: Vec<Script>) {
        *self.queue.lock().unwrap() = s.into();
        self.log.0.lock().unwrap().clear();
    }
    /// what was sent, once `n` connections are over (or 4 s have passed)
    pub fn received(&self, n: usize) -> Vec<Vec<u8>> {
        let mut g = self.log.0.lock().unwrap();
        let end = Instant::now() + Duration::from_secs(4);
        while g.len() < n && Instant::now() < end {
            g = self.log.1.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
        }
        g.clone()
    }
}
