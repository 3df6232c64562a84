//! A simulated network for one case: name lookups and connects of the client
//! under test are answered by the case's plan, connections are socket pairs
//! whose other end is a TLS server driven by the case, time is tokio's paused
//! clock. Nothing in the client is replaced; the C functions it calls are.
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::os::fd::{FromRawFd, OwnedFd};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Poll, Waker};
use std::time::Duration;
use tokio::net::UnixStream;
use tokio::time::Instant;
use tokio_rustls::rustls::server::{NoClientAuth, ServerConnection};
use tokio_rustls::rustls::{self, Certificate, PrivateKey, ServerConfig};

// ---------------------------------------------------------------- world

#[derive(Clone, Debug, Default)]
pub struct Link {
  /// the client's send buffer; 0 for the system's default
  pub sndbuf: i32,
  /// after so many received bytes, receiving fails
  pub recv_fault: Option<(u64, i32)>,
  /// after so many send calls, sending fails
  pub send_fault: Option<(u64, i32)>,
}

#[derive(Clone, Debug)]
pub enum Plan {
  Accept(Link),
  Refuse(i32),
  /// never answers
  Pending,
}

pub struct Conn {
  pub idx: usize,
  pub fd: OwnedFd,
}

#[derive(Default)]
struct FdState {
  received: u64,
  sends: u64,
  link: Link,
}

#[derive(Default)]
struct Inner {
  start: Option<Instant>,
  dns: VecDeque<i32>,
  addrs: usize,
  plans: VecDeque<Plan>,
  lookups: Vec<(String, Duration)>,
  connects: Vec<(Option<SocketAddr>, Duration)>,
  accepted: VecDeque<Conn>,
  conns: usize,
  held: Vec<OwnedFd>,
  fds: HashMap<i32, FdState>,
  waker: Option<Waker>,
  over: bool,
  mute: bool,
}

pub struct World(Mutex<Inner>, Condvar);

impl World {
  pub fn new() -> Arc<Self> {
    Arc::new(World(Mutex::new(Inner { addrs: 1, ..Default::default() }), Condvar::new()))
  }
  /// What the next connects meet; once used up, everything is accepted.
  pub fn plan(&self, p: Plan) {
    self.0.lock().unwrap().plans.push_back(p);
  }
  /// Result of the next lookups (0 or an EAI code); once used up, all succeed.
  pub fn dns(&self, code: i32) {
    self.0.lock().unwrap().dns.push_back(code);
  }
  /// From now on lookups take until `answer`.
  pub fn hold_lookups(&self) {
    self.0.lock().unwrap().mute = true;
  }
  pub fn answer_lookups(&self) {
    self.0.lock().unwrap().mute = false;
    self.1.notify_all();
  }
  pub fn addresses(&self, n: usize) {
    self.0.lock().unwrap().addrs = n;
  }
  /// Forget what was planned.
  pub fn clear_plans(&self) {
    let mut i = self.0.lock().unwrap();
    i.plans.clear();
    i.dns.clear();
  }
  /// From now on, receiving fails on every connection there is.
  pub fn fault_all(&self, errno: i32) {
    for s in self.0.lock().unwrap().fds.values_mut() {
      s.link.recv_fault = Some((0, errno));
    }
  }
  pub fn lookups(&self) -> Vec<(String, Duration)> {
    self.0.lock().unwrap().lookups.clone()
  }
  pub fn connects(&self) -> Vec<(Option<SocketAddr>, Duration)> {
    self.0.lock().unwrap().connects.clone()
  }
  /// The next accepted connection.
  pub async fn accept(&self) -> Conn {
    std::future::poll_fn(|cx| {
      let mut i = self.0.lock().unwrap();
      match i.accepted.pop_front() {
        Some(c) => Poll::Ready(c),
        None => {
          i.waker = Some(cx.waker().clone());
          Poll::Pending
        }
      }
    })
    .await
  }
  fn elapsed(i: &Inner) -> Duration {
    i.start.map(|s| Instant::now() - s).unwrap_or_default()
  }
  pub fn now(&self) -> Duration {
    Self::elapsed(&self.0.lock().unwrap())
  }
}

thread_local! {
  static WORLD: RefCell<Option<Arc<World>>> = const { RefCell::new(None) };
}

fn world() -> Option<Arc<World>> {
  WORLD.try_with(|w| w.try_borrow().ok().and_then(|w| w.clone())).ok().flatten()
}

struct Enter;
impl Enter {
  fn new(w: &Arc<World>) -> Self {
    WORLD.with(|x| *x.borrow_mut() = Some(w.clone()));
    Enter
  }
}
impl Drop for Enter {
  fn drop(&mut self) {
    WORLD.with(|x| *x.borrow_mut() = None);
  }
}

/// Run a case in the given world; `limit` bounds its virtual time.
pub fn sim<T>(w: &Arc<World>, limit: Duration, f: impl Future<Output = T>) -> Result<T, String> {
  let _enter = Enter::new(w);
  let w2 = w.clone();
  let rt = tokio::runtime::Builder::new_current_thread()
    .enable_all()
    .start_paused(true)
    .max_blocking_threads(1)
    .on_thread_start(move || WORLD.with(|x| *x.borrow_mut() = Some(w2.clone())))
    .build()
    .map_err(|e| format!("harness: no runtime: {e}"))?;
  let r = rt.block_on(async {
    w.0.lock().unwrap().start = Some(Instant::now());
    tokio::time::timeout(limit, f).await.map_err(|_| "the case does not come to an end: something that must complete never does".to_string())
  });
  // the runtime knows the world and the waker knows the runtime
  w.0.lock().unwrap().waker = None;
  r
}

// ---------------------------------------------------------------- libc

fn set_errno(e: i32) -> i32 {
  unsafe { *libc::__errno_location() = e };
  -1
}

fn sys(r: libc::c_long) -> libc::c_long {
  // syscall() has set errno already
  r
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const libc::c_char, _service: *const libc::c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> libc::c_int {
  let Some(w) = world() else { return libc::EAI_FAIL };
  let name = if node.is_null() { String::new() } else { std::ffi::CStr::from_ptr(node).to_string_lossy().into_owned() };
  let mut i = w.0.lock().unwrap();
  let at = World::elapsed(&i);
  i.lookups.push((name, at));
  // should the case never say so, this is let go after a while
  let mut i = w.1.wait_timeout_while(i, Duration::from_secs(120), |i| i.mute).unwrap().0;
  let code = i.dns.pop_front().unwrap_or(0);
  if code != 0 {
    return code;
  }
  let socktype = if hints.is_null() { libc::SOCK_STREAM } else { (*hints).ai_socktype };
  let mut next: *mut libc::addrinfo = std::ptr::null_mut();
  for k in (0..i.addrs).rev() {
    let mut sa: libc::sockaddr_in = std::mem::zeroed();
    sa.sin_family = libc::AF_INET as u16;
    sa.sin_addr.s_addr = u32::from_ne_bytes([192, 0, 2, k as u8 + 1]);
    let sa = Box::into_raw(Box::new(sa));
    let mut ai: libc::addrinfo = std::mem::zeroed();
    ai.ai_family = libc::AF_INET;
    ai.ai_socktype = socktype;
    ai.ai_protocol = libc::IPPROTO_TCP;
    ai.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
    ai.ai_addr = sa as *mut libc::sockaddr;
    ai.ai_next = next;
    next = Box::into_raw(Box::new(ai));
  }
  *res = next;
  0
}

#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut res: *mut libc::addrinfo) {
  while !res.is_null() {
    let b = Box::from_raw(res);
    drop(Box::from_raw(b.ai_addr as *mut libc::sockaddr_in));
    res = b.ai_next;
  }
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
  crate::alloc::uncounted(|| connect_in_world(fd, addr, len))
}

unsafe fn connect_in_world(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
  let Some(w) = world() else { return sys(libc::syscall(libc::SYS_connect, fd, addr, len)) as i32 };
  let to = if (*addr).sa_family == libc::AF_INET as u16 {
    let a = &*(addr as *const libc::sockaddr_in);
    Some(SocketAddr::from((u32::from_be(a.sin_addr.s_addr).to_be_bytes(), u16::from_be(a.sin_port))))
  } else {
    None
  };
  let mut i = w.0.lock().unwrap();
  let at = World::elapsed(&i);
  i.connects.push((to, at));
  let plan = i.plans.pop_front().unwrap_or(Plan::Accept(Link::default()));
  if let Plan::Refuse(e) = plan {
    return set_errno(e);
  }
  let mut pair = [0i32; 2];
  if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0, pair.as_mut_ptr()) != 0 {
    return set_errno(libc::EMFILE);
  }
  libc::dup3(pair[0], fd, libc::O_CLOEXEC);
  libc::close(pair[0]);
  i.fds.remove(&pair[1]);
  i.fds.remove(&fd);
  let server = OwnedFd::from_raw_fd(pair[1]);
  match plan {
    Plan::Accept(link) => {
      if link.sndbuf > 0 {
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &link.sndbuf as *const i32 as *const libc::c_void, 4);
      }
      i.fds.insert(fd, FdState { link, ..Default::default() });
      let idx = i.conns;
      i.conns += 1;
      i.accepted.push_back(Conn { idx, fd: server });
      if let Some(wk) = i.waker.take() {
        wk.wake();
      }
      0
    }
    _ => {
      // never writable: fill its buffer
      let junk = [0u8; 4096];
      while libc::syscall(libc::SYS_sendto, fd, junk.as_ptr(), junk.len(), libc::MSG_NOSIGNAL, 0, 0) > 0 {}
      i.held.push(server);
      set_errno(libc::EINPROGRESS)
    }
  }
}

/// A connection of the case's, seen from its client.
fn simulated(fd: i32) -> bool {
  world().is_some_and(|w| w.0.lock().is_ok_and(|i| i.fds.contains_key(&fd)))
}

// What can be asked of and set on a TCP connection, and not on a socket pair.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: libc::c_int, level: libc::c_int, name: libc::c_int, value: *const libc::c_void, len: libc::socklen_t) -> libc::c_int {
  if matches!(level, libc::IPPROTO_TCP | libc::IPPROTO_IP) && simulated(fd) {
    return 0;
  }
  sys(libc::syscall(libc::SYS_setsockopt, fd, level, name, value, len)) as i32
}
unsafe fn address(addr: *mut libc::sockaddr, len: *mut libc::socklen_t, ip: [u8; 4], port: u16) -> libc::c_int {
  let mut sa: libc::sockaddr_in = std::mem::zeroed();
  sa.sin_family = libc::AF_INET as u16;
  sa.sin_addr.s_addr = u32::from_ne_bytes(ip);
  sa.sin_port = port.to_be();
  let size = std::mem::size_of::<libc::sockaddr_in>();
  std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, addr as *mut u8, size.min(*len as usize));
  *len = size as u32;
  0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: libc::c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> libc::c_int {
  if simulated(fd) {
    return address(addr, len, [192, 0, 2, 1], 6697);
  }
  sys(libc::syscall(libc::SYS_getpeername, fd, addr, len)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: libc::c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> libc::c_int {
  if simulated(fd) {
    return address(addr, len, [192, 0, 2, 200], 50000);
  }
  sys(libc::syscall(libc::SYS_getsockname, fd, addr, len)) as i32
}

/// The error to inject into a receive on this descriptor.
fn recv_fault(fd: i32) -> Option<i32> {
  let w = world()?;
  let mut i = w.0.lock().ok()?;
  let s = i.fds.get_mut(&fd)?;
  let (after, e) = s.link.recv_fault?;
  (s.received >= after).then_some(e)
}
fn recv_done(fd: i32, n: isize) {
  if n > 0 {
    if let Some(w) = world() {
      if let Some(s) = w.0.lock().unwrap().fds.get_mut(&fd) {
        s.received += n as u64;
      }
    }
  }
}
fn send_fault(fd: i32) -> Option<i32> {
  let w = world()?;
  let mut i = w.0.lock().ok()?;
  let s = i.fds.get_mut(&fd)?;
  let n = s.sends;
  s.sends += 1;
  let (after, e) = s.link.send_fault?;
  (n >= after).then_some(e)
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: libc::c_int, buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
  if let Some(e) = recv_fault(fd) {
    return set_errno(e) as isize;
  }
  let n = libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, 0, 0) as isize;
  recv_done(fd, n);
  n
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
  if let Some(e) = send_fault(fd) {
    return set_errno(e) as isize;
  }
  libc::syscall(libc::SYS_sendto, fd, buf, len, flags | libc::MSG_NOSIGNAL, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, iov: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
  if let Some(e) = send_fault(fd) {
    return set_errno(e) as isize;
  }
  libc::syscall(libc::SYS_writev, fd, iov, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: libc::c_int, iov: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
  if let Some(e) = recv_fault(fd) {
    return set_errno(e) as isize;
  }
  let n = libc::syscall(libc::SYS_readv, fd, iov, n) as isize;
  recv_done(fd, n);
  n
}

// ---------------------------------------------------------------- server

macro_rules! cert {
  ($n:literal) => {
    include_bytes!(concat!("../../certs/", $n, ".der"))
  };
}

/// (certificate, name, whether a client for irc.chat.twitch.tv must accept it)
pub const CERTS: &[(&[u8], &str, bool)] = &[
  (cert!("good"), "valid", true),
  (cert!("good2"), "valid, second name, second root", true),
  (cert!("wild"), "valid wildcard", true),
  (cert!("cnonly"), "name only as common name", false),
  (cert!("other"), "parent domain only", false),
  (cert!("evil"), "name as a prefix", false),
  (cert!("widewild"), "wildcard two labels up", false),
  (cert!("rogueleaf"), "unknown root", false),
  (cert!("expired"), "expired", false),
  (cert!("future"), "not valid yet", false),
];
const KEY: &[u8] = include_bytes!("../../certs/leaf.pk8");

pub fn server_config(cert: usize, tls12: bool) -> Arc<ServerConfig> {
  let versions: &[&rustls::SupportedProtocolVersion] = if tls12 { &[&rustls::version::TLS12] } else { &[&rustls::version::TLS13] };
  Arc::new(
    ServerConfig::builder()
      .with_safe_default_cipher_suites()
      .with_safe_default_kx_groups()
      .with_protocol_versions(versions)
      .unwrap()
      .with_client_cert_verifier(NoClientAuth::boxed())
      .with_single_cert(vec![Certificate(CERTS[cert].0.to_vec())], PrivateKey(KEY.to_vec()))
      .unwrap(),
  )
}

#[derive(Clone, Debug, PartialEq)]
pub enum Eof {
  /// orderly, with a TLS close
  Notify,
  /// the stream just ended
  Plain,
  Broken(String),
}

/// What one connection saw of the client.
#[derive(Default, Debug)]
pub struct Log {
  pub got: Vec<u8>,
  pub eof: Option<Eof>,
  pub tls: bool,
  pub sni: Option<String>,
}

pub struct Srv {
  pub io: UnixStream,
  pub tls: ServerConnection,
  pub log: Rc<RefCell<Log>>,
  pub out: Vec<u8>,
  /// how much of what came was searched for line ends, and how many there were
  counted: (usize, usize),
}

impl Srv {
  pub fn new(c: Conn, config: &Arc<ServerConfig>, log: Rc<RefCell<Log>>) -> Srv {
    let io = std::os::unix::net::UnixStream::from(c.fd);
    io.set_nonblocking(true).unwrap();
    let mut tls = ServerConnection::new(config.clone()).unwrap();
    tls.set_buffer_limit(None);
    Srv { io: UnixStream::from_std(io).unwrap(), tls, log, out: vec![], counted: (0, 0) }
  }

  pub fn ended(&self) -> bool {
    self.log.borrow().eof.is_some()
  }
  fn end(&mut self, e: Eof) {
    self.log.borrow_mut().eof.get_or_insert(e);
  }

  fn collect(&mut self) {
    while self.tls.wants_write() {
      if self.tls.write_tls(&mut self.out).unwrap_or(0) == 0 {
        break;
      }
    }
  }

  /// Take up to `max` bytes off the wire; false if there are none.
  pub fn ingest(&mut self, max: usize) -> bool {
    let mut buf = vec![0u8; max.clamp(1, 1 << 17)];
    match self.io.try_read(&mut buf) {
      Ok(0) => {
        self.end(Eof::Plain);
        true
      }
      Ok(n) => {
        let mut c = &buf[..n];
        while !c.is_empty() {
          if self.tls.read_tls(&mut c).is_err() {
            break;
          }
          match self.tls.process_new_packets() {
            Ok(s) => {
              let n = s.plaintext_bytes_to_read();
              if n > 0 {
                let mut log = self.log.borrow_mut();
                let at = log.got.len();
                log.got.resize(at + n, 0);
                io::Read::read_exact(&mut self.tls.reader(), &mut log.got[at..]).unwrap();
              }
              if s.peer_has_closed() {
                self.end(Eof::Notify);
              }
            }
            Err(e) => {
              self.end(Eof::Broken(e.to_string()));
              break;
            }
          }
        }
        self.collect();
        true
      }
      Err(e) if e.kind() == io::ErrorKind::WouldBlock => false,
      Err(e) => {
        self.end(Eof::Broken(format!("{:?}", e.kind())));
        true
      }
    }
  }

  /// Wait for something to arrive and take it.
  pub async fn more(&mut self, max: usize) {
    while !self.ended() {
      if self.io.readable().await.is_err() {
        self.end(Eof::Broken("readable".into()));
      }
      if !self.ended() && self.ingest(max) {
        return;
      }
    }
  }

  /// Put what is pending on the wire, at most `piece()` bytes at a time.
  pub async fn flush_in(&mut self, mut piece: impl FnMut() -> usize) {
    self.collect();
    while !self.out.is_empty() {
      if matches!(self.log.borrow().eof, Some(Eof::Plain | Eof::Broken(_))) {
        self.out.clear();
        return;
      }
      let n = piece().clamp(1, self.out.len());
      match self.io.try_write(&self.out[..n]) {
        Ok(k) => {
          self.out.drain(..k);
          if !self.out.is_empty() {
            tokio::task::yield_now().await;
          }
        }
        Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
          let readable = tokio::select! {
            _ = self.io.writable() => false,
            _ = self.io.readable(), if !self.ended() => true,
          };
          if readable {
            self.ingest(1 << 16);
          }
        }
        Err(e) => {
          // what came before is still there
          while !self.ended() && self.ingest(1 << 16) {}
          self.end(Eof::Broken(format!("{:?}", e.kind())));
          self.out.clear();
        }
      }
    }
  }
  pub async fn flush(&mut self) {
    self.flush_in(|| usize::MAX).await
  }

  /// TLS handshake; false if the client went away.
  pub async fn handshake(&mut self) -> bool {
    while self.tls.is_handshaking() && !self.ended() {
      self.more(1 << 16).await;
      self.flush().await;
    }
    self.flush().await;
    let mut log = self.log.borrow_mut();
    log.sni = self.tls.server_name().map(|s| s.to_string());
    log.tls = !self.tls.is_handshaking();
    log.tls
  }

  /// Encrypt `data` in records of the given sizes.
  pub fn encrypt(&mut self, mut data: &[u8], mut record: impl FnMut() -> usize) {
    while !data.is_empty() {
      let n = record().clamp(1, data.len());
      io::Write::write_all(&mut self.tls.writer(), &data[..n]).unwrap();
      self.collect();
      data = &data[n..];
    }
  }

  pub async fn say(&mut self, data: impl AsRef<[u8]>) {
    self.encrypt(data.as_ref(), || 16000);
    self.flush().await;
  }

  pub fn lines(&mut self) -> usize {
    let log = self.log.borrow();
    self.counted.1 += log.got[self.counted.0..].iter().filter(|b| **b == b'\n').count();
    self.counted.0 = log.got.len();
    self.counted.1
  }

  /// Read until `n` lines have come in all; false if the client went away first.
  pub async fn until_lines(&mut self, n: usize) -> bool {
    while self.lines() < n {
      if self.ended() {
        return false;
      }
      self.more(1 << 16).await;
    }
    true
  }

  pub async fn until_eof(&mut self) {
    while !self.ended() {
      self.more(1 << 16).await;
    }
  }

  /// Say goodbye properly.
  pub async fn close_notify(&mut self) {
    self.tls.send_close_notify();
    self.flush().await;
  }
}

// ---------------------------------------------------------------- helpers

/// Poll a future at most `n` times, letting everything else run in between.
/// None if it is not done by then (it is dropped).
pub async fn poll_n<F: Future>(f: F, n: usize) -> Option<F::Output> {
  let mut f = std::pin::pin!(f);
  let mut left = n;
  std::future::poll_fn(move |cx| {
    if left == 0 {
      return Poll::Ready(None);
    }
    left -= 1;
    match f.as_mut().poll(cx) {
      Poll::Ready(v) => Poll::Ready(Some(v)),
      Poll::Pending => {
        cx.waker().wake_by_ref();
        Poll::Pending
      }
    }
  })
  .await
}

// ---------------------------------------------------------------- scripted connections

/// Sizes used in turn.
#[derive(Clone, Debug)]
pub struct Sizes(pub Vec<usize>, usize);
impl Sizes {
  pub fn new(v: Vec<usize>) -> Self {
    Sizes(if v.is_empty() { vec![usize::MAX] } else { v }, 0)
  }
  pub fn whole() -> Self {
    Sizes::new(vec![])
  }
  pub fn next(&mut self) -> usize {
    self.1 += 1;
    self.0[(self.1 - 1) % self.0.len()]
  }
}

#[derive(Clone, Debug)]
pub enum Step {
  /// complete the TLS handshake
  Tls,
  /// take the client's hello and send only so much of the answer
  TlsPart(usize),
  /// wait until so many lines have come in all
  Lines(usize),
  Say(Vec<u8>),
  /// the same in records and packets of these sizes
  SayIn(Vec<u8>, Sizes, Sizes),
  /// one byte of this (again and again) every so often, for ever
  Trickle(Vec<u8>, Duration),
  /// do nothing for a while, not even read
  Stall(Duration),
  /// do nothing, not even read, until the client's part of the case is over
  Wedge,
  /// read once, at most so many bytes of ciphertext
  Read(usize),
  /// orderly TLS close
  Notify,
  /// drop the connection
  Drop,
  /// this, without its last bytes of ciphertext
  Torn(Vec<u8>, usize),
  /// bytes that are no TLS
  Junk(Vec<u8>),
  /// go on like this, given what has come in
  Then(Then),
}

#[derive(Clone)]
pub struct Then(pub Rc<dyn Fn(&[u8]) -> Vec<Step>>);
impl std::fmt::Debug for Then {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("..")
  }
}

pub async fn perform(srv: &mut Srv, steps: Vec<Step>) {
  let mut steps = VecDeque::from(steps);
  while let Some(s) = steps.pop_front() {
    match s {
      Step::Then(f) => {
        let more = (f.0)(&srv.log.borrow().got);
        for s in more.into_iter().rev() {
          steps.push_front(s);
        }
      }
      Step::Tls => {
        srv.handshake().await;
      }
      Step::TlsPart(n) => {
        srv.more(1 << 16).await;
        srv.out.truncate(n);
        srv.flush().await;
      }
      Step::Lines(n) => {
        srv.until_lines(n).await;
      }
      Step::Say(d) => srv.say(d).await,
      Step::SayIn(d, mut records, mut packets) => {
        srv.encrypt(&d, || records.next());
        srv.flush_in(|| packets.next()).await;
      }
      Step::Trickle(d, every) => {
        let mut i = 0;
        while !srv.ended() && !d.is_empty() {
          srv.say(&d[i % d.len()..i % d.len() + 1]).await;
          i += 1;
          let nap = tokio::time::sleep(every);
          tokio::select! {
            _ = nap => {}
            _ = srv.until_eof() => {}
          }
        }
      }
      Step::Stall(d) => tokio::time::sleep(d).await,
      Step::Wedge => {
        while !world().is_some_and(|w| w.0.lock().unwrap().over) {
          tokio::time::sleep(Duration::from_secs(10)).await;
        }
      }
      Step::Read(n) => srv.more(n).await,
      Step::Notify => srv.close_notify().await,
      Step::Drop => return,
      Step::Torn(d, n) => {
        srv.encrypt(&d, || 16000);
        let keep = srv.out.len().saturating_sub(n);
        srv.out.truncate(keep);
        srv.flush().await;
      }
      Step::Junk(d) => {
        srv.out.extend(d);
        srv.flush().await;
      }
    }
  }
  srv.until_eof().await;
}

pub type Logs = Rc<RefCell<Vec<Rc<RefCell<Log>>>>>;

/// Run `client` against a server whose n-th connection follows `script(n)`.
/// Ends when the client is done and has let go of every connection.
pub async fn against<T>(w: &Arc<World>, config: &Arc<ServerConfig>, logs: Logs, script: impl FnMut(usize) -> Vec<Step>, client: impl Future<Output = T>) -> T {
  against_each(w, |_| config, logs, script, client).await
}

/// The same with a configuration per connection.
pub async fn against_each<'a, T>(w: &Arc<World>, config: impl Fn(usize) -> &'a Arc<ServerConfig>, logs: Logs, mut script: impl FnMut(usize) -> Vec<Step>, client: impl Future<Output = T>) -> T {
  let mut client = std::pin::pin!(client);
  let mut result: Option<T> = None;
  let mut accept = Box::pin(w.accept());
  let mut running: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![];
  std::future::poll_fn(move |cx| {
    if result.is_none() {
      if let Poll::Ready(r) = client.as_mut().poll(cx) {
        result = Some(r);
        w.0.lock().unwrap().over = true;
      }
    }
    while let Poll::Ready(c) = accept.as_mut().poll(cx) {
      accept = Box::pin(w.accept());
      let log = Rc::new(RefCell::new(Log::default()));
      logs.borrow_mut().push(log.clone());
      let idx = c.idx;
      let steps = script(idx);
      let mut srv = Srv::new(c, config(idx), log);
      running.push(Box::pin(async move { perform(&mut srv, steps).await }));
    }
    running.retain_mut(|f| f.as_mut().poll(cx).is_pending());
    if running.is_empty() {
      if let Some(r) = result.take() {
        return Poll::Ready(r);
      }
    }
    Poll::Pending
  })
  .await
}
