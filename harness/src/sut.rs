//! Driving the code under test: the assembler library in a worker process (it
//! ends its process on malformed input), the at-asm command itself, and faulty
//! readers and writers.

use crate::engine::{sut, Fail};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{self, BufRead, BufReader, Read, Write};
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------ faulty endpoints

/// A reader that hands out the text in the given piece sizes (cycled); a size of
/// 0 is an interrupted read.
pub struct Pieces<'a> {
    data: &'a [u8],
    sizes: &'a [u32],
    i: usize,
    /// fails at the end of the text, once
    fail: Option<ReadFailure>,
}

/// How a reader fails.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum ReadFailure {
    UnexpectedEof,
    Device,
    Directory,
    Denied,
    WouldBlock,
    TimedOut,
    Reset,
    BrokenPipe,
    InvalidData,
    InvalidInput,
    NotFound,
    Other,
}

impl ReadFailure {
    pub const ALL: [ReadFailure; 12] = {
        use ReadFailure::*;
        [UnexpectedEof, Device, Directory, Denied, WouldBlock, TimedOut, Reset, BrokenPipe, InvalidData, InvalidInput, NotFound, Other]
    };

    fn error(self) -> io::Error {
        use io::ErrorKind as K;
        let kind = match self {
            ReadFailure::Device => return io::Error::from_raw_os_error(libc::EIO),
            ReadFailure::Directory => return io::Error::from_raw_os_error(libc::EISDIR),
            ReadFailure::UnexpectedEof => K::UnexpectedEof,
            ReadFailure::Denied => K::PermissionDenied,
            ReadFailure::WouldBlock => K::WouldBlock,
            ReadFailure::TimedOut => K::TimedOut,
            ReadFailure::Reset => K::ConnectionReset,
            ReadFailure::BrokenPipe => K::BrokenPipe,
            ReadFailure::InvalidData => K::InvalidData,
            ReadFailure::InvalidInput => K::InvalidInput,
            ReadFailure::NotFound => K::NotFound,
            ReadFailure::Other => K::Other,
        };
        io::Error::new(kind, "read failure")
    }
}

impl<'a> Pieces<'a> {
    pub fn new(f: &'a Feed) -> Self {
        Pieces { data: f.text.as_bytes(), sizes: &f.sizes, i: 0, fail: f.fail }
    }
}

impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.data.is_empty() && !buf.is_empty() {
            if let Some(f) = self.fail.take() {
                return Err(f.error());
            }
        }
        let mut n = buf.len().min(self.data.len());
        if !self.sizes.is_empty() {
            let s = self.sizes[self.i % self.sizes.len()] as usize;
            self.i += 1;
            if s == 0 && self.sizes.iter().any(|s| *s != 0) {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            if s != 0 {
                n = n.min(s);
            }
        }
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Failure {
    /// `write` returns Ok(0) from then on
    Full,
    Broken,
    NoSpace,
    Denied,
    WouldBlock,
    Other,
}

impl Failure {
    pub const ALL: [Failure; 6] = [
        Failure::Full,
        Failure::Broken,
        Failure::NoSpace,
        Failure::Denied,
        Failure::WouldBlock,
        Failure::Other,
    ];
}

/// How a sink treats what is written to it.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct SinkSpec {
    /// at most this many bytes per call, cycled; 0 = interrupted call; empty = all
    pub sizes: Vec<u32>,
    /// accept this many bytes in all, then fail
    pub fail: Option<(u64, Failure)>,
    /// fail just once and accept everything afterwards
    #[serde(default)]
    pub once: bool,
}

pub struct Sink<'a> {
    spec: &'a SinkSpec,
    i: usize,
    pub got: Vec<u8>,
    pub failed: bool,
    refused: u64,
    /// a sink that failed for good was tried again and again
    pub endless: bool,
}

impl<'a> Sink<'a> {
    pub fn new(spec: &'a SinkSpec) -> Self {
        Sink {
            spec,
            i: 0,
            got: vec![],
            failed: false,
            refused: 0,
            endless: false,
        }
    }
}

impl<'a> Write for Sink<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.spec.sizes.is_empty() {
            let s = self.spec.sizes[self.i % self.spec.sizes.len()] as usize;
            self.i += 1;
            if s == 0 && self.spec.sizes.iter().any(|s| *s != 0) {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            if s != 0 {
                n = n.min(s);
            }
        }
        if let Some((limit, kind)) = &self.spec.fail {
            let room = (*limit as usize).saturating_sub(self.got.len());
            let over = self.spec.once && self.failed;
            if room == 0 && !over {
                self.failed = true;
                self.refused += 1;
                if self.refused > 100_000 {
                    self.endless = true;
                    panic!("sink: endless retries");
                }
                let e = |k| Err(io::Error::new(k, "sink failure"));
                return match kind {
                    Failure::Full => Ok(0),
                    Failure::Broken => e(io::ErrorKind::BrokenPipe),
                    Failure::NoSpace => Err(io::Error::from_raw_os_error(libc::ENOSPC)),
                    Failure::Denied => e(io::ErrorKind::PermissionDenied),
                    Failure::WouldBlock => e(io::ErrorKind::WouldBlock),
                    Failure::Other => e(io::ErrorKind::Other),
                };
            }
            if !over {
                n = n.min(room);
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.failed && !self.spec.once {
            return Err(io::Error::new(io::ErrorKind::Other, "sink failure"));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------- worker

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Feed {
    pub text: String,
    pub sizes: Vec<u32>,
    #[serde(default)]
    pub fail: Option<ReadFailure>,
}

impl Feed {
    pub fn whole(text: &str) -> Feed {
        Feed {
            text: text.to_string(),
            sizes: vec![],
            fail: None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Request {
    pub feeds: Vec<Feed>,
    /// write into a sink after these numbers of feeds (0..=feeds.len()), in order
    pub writes: Vec<(usize, SinkSpec)>,
    /// another source, fed to a second assembler in turns with the first; its
    /// object is the last thing written
    #[serde(default)]
    pub twin: Vec<Feed>,
    /// every feed is a source of its own, all read and written at the same time by an
    /// assembler and a thread each; `writes` is not used
    #[serde(default)]
    pub at_once: bool,
}

/// Threads that take turns, as far as they can: one that does not take its turn soon
/// loses it.
struct Turns {
    state: std::sync::Mutex<(usize, Vec<bool>)>,
    changed: std::sync::Condvar,
}

impl Turns {
    fn pass(&self, me: usize, done: bool) {
        let mut s = self.state.lock().unwrap_or_else(|e| e.into_inner());
        s.1[me] |= done;
        let n = s.1.len();
        if let Some(next) = (1..n).map(|k| (me + k) % n).find(|k| !s.1[*k]) {
            s.0 = next;
        }
        self.changed.notify_all();
        let end = Instant::now() + Duration::from_millis(1);
        while !done && s.0 != me && s.1.iter().enumerate().any(|(k, d)| k != me && !d) {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                break;
            }
            s = self.changed.wait_timeout(s, left).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
}

/// A reader or sink that lets another thread go on at every call.
struct InTurn<'a, T>(T, &'a Turns, usize);

impl<T: Read> Read for InTurn<'_, T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.1.pass(self.2, false);
        self.0.read(buf)
    }
}

impl<T: Write> Write for InTurn<'_, T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.1.pass(self.2, false);
        self.0.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

fn serve_at_once(feeds: &[Feed]) -> Result<Vec<Written>, String> {
    let turns = Turns {
        state: std::sync::Mutex::new((0, vec![false; feeds.len()])),
        changed: std::sync::Condvar::new(),
    };
    let one = |k: usize, f: &Feed| {
        let r = sut(|| {
            let mut asm = at_asm::Assembler::new();
            asm.read_from(&mut InTurn(Pieces::new(f), &turns, k));
            let spec = SinkSpec::default();
            let mut s = InTurn(Sink::new(&spec), &turns, k);
            asm.write_into(&mut s);
            s.0.got
        });
        turns.pass(k, true);
        r.map(|bytes| Written {
            returned: true,
            sink_failed: false,
            endless: false,
            bytes,
        })
    };
    let one = &one;
    std::thread::scope(|s| {
        let all: Vec<_> = feeds.iter().enumerate().map(|(k, f)| s.spawn(move || one(k, f))).collect();
        all.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Written {
    /// the write returned normally
    pub returned: bool,
    pub bytes: Vec<u8>,
    pub sink_failed: bool,
    pub endless: bool,
}

#[derive(Clone, Debug)]
pub enum Reply {
    Done(Vec<Written>),
    /// reading panicked in the worker
    Panicked(String),
    /// the worker process ended
    Exited { code: Option<i32>, stderr: String },
}

fn serve(req: &Request) -> Result<Vec<Written>, String> {
    if req.at_once {
        return serve_at_once(&req.feeds);
    }
    let mut out = Vec::new();
    let mut asm = at_asm::Assembler::new();
    let mut other = at_asm::Assembler::new();
    let mut writes = req.writes.iter().peekable();
    for k in 0..=req.feeds.len() {
        while let Some((_, spec)) = writes.next_if(|w| w.0 == k) {
            let mut s = Sink::new(spec);
            let returned = sut(|| asm.write_into(&mut s)).is_ok();
            out.push(Written {
                returned,
                sink_failed: s.failed,
                endless: s.endless,
                bytes: s.got,
            });
        }
        // in turns; what is left of the twin follows at the end
        let last = k == req.feeds.len();
        let upto = if last { usize::MAX } else { k + 1 };
        for f in req.twin.iter().take(upto).skip(k) {
            sut(|| {
                other.read_from(&mut Pieces::new(f));
            })?;
        }
        if let Some(f) = req.feeds.get(k) {
            sut(|| {
                asm.read_from(&mut Pieces::new(f));
            })?;
        }
    }
    if !req.twin.is_empty() {
        let spec = SinkSpec::default();
        let mut s = Sink::new(&spec);
        let returned = sut(|| other.write_into(&mut s)).is_ok();
        out.push(Written {
            returned,
            sink_failed: s.failed,
                endless: s.endless,
            bytes: s.got,
        });
    }
    Ok(out)
}

pub fn worker_main() -> i32 {
    crate::engine::limit_memory(4 << 30);
    use std::os::unix::io::FromRawFd;
    let mut inp = io::stdin().lock();
    // replies go to a descriptor of their own, so that nothing the code under test
    // prints can get between them
    let fd = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        if fd < 0 || null < 0 || libc::dup2(null, 1) < 0 {
            return 9;
        }
        std::fs::File::from_raw_fd(fd)
    };
    let mut out = io::BufWriter::new(fd);
    loop {
        let mut len = [0u8; 8];
        if inp.read_exact(&mut len).is_err() {
            return 0;
        }
        let mut body = vec![0u8; u64::from_le_bytes(len) as usize];
        if inp.read_exact(&mut body).is_err() {
            return 0;
        }
        let req: Request = match serde_json::from_slice(&body) {
            Ok(r) => r,
            Err(_) => return 9,
        };
        let mut frame: Vec<u8> = Vec::new();
        match serve(&req) {
            Ok(ws) => {
                frame.push(0);
                frame.extend((ws.len() as u64).to_le_bytes());
                for w in ws {
                    frame.push(w.returned as u8);
                    frame.push(w.sink_failed as u8 | (w.endless as u8) << 1);
                    frame.extend((w.bytes.len() as u64).to_le_bytes());
                    frame.extend(&w.bytes);
                }
            }
            Err(m) => {
                frame.push(1);
                frame.extend(m.as_bytes());
            }
        }
        let ok = out.write_all(&(frame.len() as u64).to_le_bytes()).is_ok()
            && out.write_all(&frame).is_ok()
            && out.flush().is_ok();
        if !ok {
            return 0;
        }
    }
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    stdout: ChildStdout,
    /// collects the end of what the worker prints to stderr
    stderr: Option<std::thread::JoinHandle<Vec<u8>>>,
}

fn collect<R: Read + Send + 'static>(mut r: R) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::spawn(move || {
        let mut all = Vec::new();
        let mut chunk = [0u8; 8192];
        while let Ok(n) = r.read(&mut chunk) {
            if n == 0 {
                break;
            }
            all.extend_from_slice(&chunk[..n]);
            if all.len() > 1 << 17 {
                let cut = all.len() - (1 << 16);
                all.drain(..cut);
            }
        }
        all
    })
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = RefCell::new(None);
}

pub const TIMEOUT: Duration = Duration::from_secs(90);

thread_local! {
    static PATIENCE: std::cell::Cell<Duration> = const { std::cell::Cell::new(TIMEOUT) };
}

/// How long one call of the code under test may take on this thread.
fn timeout() -> Duration {
    PATIENCE.with(|p| p.get())
}

/// Runs something in which a single call may well take long.
pub fn patiently<T>(f: impl FnOnce() -> T) -> T {
    PATIENCE.with(|p| p.set(Duration::from_secs(300)));
    crate::engine::allow(Duration::from_secs(300));
    let r = f();
    PATIENCE.with(|p| p.set(TIMEOUT));
    r
}

fn machinery<T>(m: String) -> Result<T, Fail> {
    Err(Fail::Machinery(m))
}

pub enum Got {
    All(Vec<u8>),
    Eof,
    Late,
}

pub fn read_frame(out: &mut ChildStdout, deadline: Instant) -> io::Result<Got> {
    let mut need = 8usize;
    let mut buf: Vec<u8> = Vec::new();
    let mut head = true;
    loop {
        if buf.len() >= need {
            if head {
                head = false;
                need = 8 + u64::from_le_bytes(buf[..8].try_into().unwrap()) as usize;
                continue;
            }
            buf.drain(..8);
            return Ok(Got::All(buf));
        }
        let left = deadline.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return Ok(Got::Late);
        }
        let mut p = libc::pollfd {
            fd: out.as_raw_fd(),
            events: libc::POLLIN,
            revents: 0,
        };
        let r = unsafe { libc::poll(&mut p, 1, left.as_millis().min(1000) as i32) };
        if r <= 0 {
            continue;
        }
        let mut chunk = [0u8; 65536];
        let want = (need - buf.len()).min(chunk.len());
        match out.read(&mut chunk[..want]) {
            Ok(0) => return Ok(Got::Eof),
            Ok(n) => buf.extend_from_slice(&chunk[..n]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e),
        }
    }
}

/// Run one request in this thread's worker process.
pub fn ask(req: &Request) -> Result<Reply, Fail> {
    WORKER.with(|cell| {
        let mut cell = cell.borrow_mut();
        if cell.is_none() {
            let exe = std::env::current_exe().map_err(|e| Fail::Machinery(e.to_string()))?;
            let mut child = match Command::new(exe)
                .arg("worker")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
            {
                Ok(c) => c,
                Err(e) => return machinery(format!("cannot start a worker: {}", e)),
            };
            let stdin = child.stdin.take().unwrap();
            let stdout = child.stdout.take().unwrap();
            let stderr = child.stderr.take().map(collect);
            *cell = Some(Worker {
                child,
                stdin,
                stdout,
                stderr,
            });
        }
        let w = cell.as_mut().unwrap();
        let body = serde_json::to_vec(req).unwrap();
        let mut msg = (body.len() as u64).to_le_bytes().to_vec();
        msg.extend(body);
        let sent = w.stdin.write_all(&msg).and_then(|_| w.stdin.flush());
        let got = match &sent {
            Ok(()) => read_frame(&mut w.stdout, Instant::now() + timeout()),
            Err(_) => Ok(Got::Eof),
        };
        match got {
            Ok(Got::All(f)) => parse_reply(&f),
            Ok(Got::Late) => {
                *cell = None;
                Err(Fail::Violation(format!(
                    "assembling did not finish within {:?}",
                    timeout()
                )))
            }
            Ok(Got::Eof) => {
                let mut w = cell.take().unwrap();
                let status = w.child.wait();
                let mut err = String::new();
                if let Some(t) = w.stderr.take() {
                    err = String::from_utf8_lossy(&t.join().unwrap_or_default()).into_owned();
                }
                Ok(Reply::Exited {
                    code: status.ok().and_then(|s| s.code()),
                    stderr: err,
                })
            }
            Err(e) => machinery(format!("worker: {}", e)),
        }
    })
}

fn parse_reply(f: &[u8]) -> Result<Reply, Fail> {
    let bad = || Fail::Machinery("malformed worker reply".into());
    match f.first() {
        Some(1) => Ok(Reply::Panicked(String::from_utf8_lossy(&f[1..]).into_owned())),
        Some(0) => {
            let mut o = 1;
            let u64at = |o: usize| -> Result<u64, Fail> {
                Ok(u64::from_le_bytes(f.get(o..o + 8).ok_or_else(bad)?.try_into().unwrap()))
            };
            let n = u64at(o)?;
            o += 8;
            let mut v = Vec::new();
            for _ in 0..n {
                let returned = *f.get(o).ok_or_else(bad)? == 1;
                let flags = *f.get(o + 1).ok_or_else(bad)?;
                let (sink_failed, endless) = (flags & 1 != 0, flags & 2 != 0);
                let len = u64at(o + 2)? as usize;
                let bytes = f.get(o + 10..o + 10 + len).ok_or_else(bad)?.to_vec();
                o += 10 + len;
                v.push(Written {
                    returned,
                    bytes,
                    sink_failed,
                    endless,
                });
            }
            Ok(Reply::Done(v))
        }
        _ => Err(bad()),
    }
}

/// Assemble a source that must be accepted.
pub fn assemble(source: &str) -> Result<Vec<u8>, Fail> {
    assemble_feeds(vec![Feed::whole(source)])
}

/// Every fourth source as two or three inputs, to be read one after the other, the
/// others as one; and the number of inputs, if any, after which to write early. All
/// that follows from the source alone.
pub fn parts(source: &str) -> (Vec<Feed>, Option<usize>) {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in source.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    // the low bits of such a hash hardly depend on the high bits of the bytes
    h ^= h >> 32;
    h = h.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    h ^= h >> 29;
    if h & 3 != 0 {
        return (vec![Feed::whole(source)], None);
    }
    let ends: Vec<usize> = source.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1).collect();
    let mut cuts: Vec<usize> = [Some(h >> 8), (h & 4 != 0).then_some(h >> 24)]
        .into_iter()
        .flatten()
        .filter_map(|k| ends.get(k as usize % ends.len().max(1)).copied())
        .collect();
    cuts.push(source.len());
    cuts.sort_unstable();
    let mut from = 0;
    let mut feeds = Vec::new();
    for c in cuts {
        feeds.push(Feed::whole(&source[from..c]));
        from = c;
    }
    let early = (h & 8 != 0).then_some((h >> 40) as usize % feeds.len());
    (feeds, early)
}

/// The reply to a source handed over in `parts`; the last write is that of the whole.
pub fn ask_in_parts(source: &str) -> Result<Reply, Fail> {
    let (feeds, early) = parts(source);
    let n = feeds.len();
    ask(&Request {
        feeds,
        writes: early.into_iter().chain([n]).map(|k| (k, SinkSpec::default())).collect(),
        twin: vec![],
        at_once: false,
    })
}

/// Assemble a source that must be accepted, handed over in `parts`.
pub fn assemble_in_parts(source: &str) -> Result<Vec<u8>, Fail> {
    accepted(ask_in_parts(source)?).map_err(|e| match e {
        Fail::Violation(m) if parts(source).0.len() > 1 => Fail::Violation(format!("handed over as several inputs: {}", m)),
        e => e,
    })
}

pub fn assemble_feeds(feeds: Vec<Feed>) -> Result<Vec<u8>, Fail> {
    let n = feeds.len();
    accepted(ask(&Request {
        feeds,
        writes: vec![(n, SinkSpec::default())],
        twin: vec![],
        at_once: false,
    })?)
}

fn accepted(reply: Reply) -> Result<Vec<u8>, Fail> {
    match reply {
        Reply::Done(mut v) => {
            let w = v.pop().ok_or_else(|| Fail::Machinery("no output".into()))?;
            if w.returned {
                Ok(w.bytes)
            } else {
                Err(Fail::Violation(
                    "a valid program is refused (writing the object panics)".into(),
                ))
            }
        }
        Reply::Panicked(m) => Err(Fail::Violation(format!("a valid program is refused: {}", m))),
        Reply::Exited { code, stderr } => Err(Fail::Violation(format!(
            "a valid program is refused (status {:?}): {}",
            code,
            stderr.trim()
        ))),
    }
}

// ------------------------------------------------------------------- real CLI

pub fn cli_path() -> Result<PathBuf, Fail> {
    match std::env::var_os("ATCHECK_CLI") {
        Some(p) if Path::new(&p).exists() => Ok(PathBuf::from(p)),
        _ => machinery("ATCHECK_CLI does not name the at-asm binary".into()),
    }
}

static SCRATCH_NO: AtomicU64 = AtomicU64::new(0);

/// A private directory, removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Result<Scratch, Fail> {
        let base = if Path::new("/dev/shm").is_dir() {
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        let n = SCRATCH_NO.fetch_add(1, Ordering::SeqCst);
        for base in [base, std::env::temp_dir()] {
            let d = base.join(format!("atcheck-{}-{}", std::process::id(), n));
            if std::fs::create_dir(&d).is_ok() {
                return Ok(Scratch(d));
            }
        }
        machinery("cannot create a scratch directory".into())
    }
    pub fn path(&self, rel: &str) -> PathBuf {
        self.0.join(rel)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Ran {
    /// None: killed by a signal
    pub code: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
}

/// Run a command to its end with a time limit; a hang is reported as a violation
/// by the caller through `Fail`.
pub fn run(cmd: &mut Command) -> Result<Ran, Fail> {
    run_fed(cmd, None)
}

/// The same with this on standard input, written in pieces of these sizes.
pub fn run_fed(cmd: &mut Command, input: Option<(Vec<u8>, Vec<u32>)>) -> Result<Ran, Fail> {
    cmd.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return machinery(format!("cannot start {:?}: {}", cmd.get_program(), e)),
    };
    let mut out = child.stdout.take().unwrap();
    let mut err = child.stderr.take().unwrap();
    if let (Some((data, sizes)), Some(mut pipe)) = (input, child.stdin.take()) {
        std::thread::spawn(move || {
            let (mut at, mut i) = (0, 0);
            while at < data.len() {
                let n = match sizes.get(i % sizes.len().max(1)) {
                    Some(n) if *n > 0 => (*n as usize).min(data.len() - at),
                    Some(_) => 1,
                    None => data.len() - at,
                };
                i += 1;
                if pipe.write_all(&data[at..at + n]).is_err() {
                    return;
                }
                at += n;
                std::thread::yield_now();
            }
        });
    }
    let (a, b, late) = {
        let start = Instant::now();
        let mut a = Vec::new();
        let mut b = Vec::new();
        let (mut ao, mut bo) = (true, true);
        let mut late = false;
        while ao || bo {
            let mut ps = [
                libc::pollfd {
                    fd: if ao { out.as_raw_fd() } else { -1 },
                    events: libc::POLLIN,
                    revents: 0,
                },
                libc::pollfd {
                    fd: if bo { err.as_raw_fd() } else { -1 },
                    events: libc::POLLIN,
                    revents: 0,
                },
            ];
            unsafe { libc::poll(ps.as_mut_ptr(), 2, 500) };
            let mut chunk = [0u8; 16384];
            if ps[0].revents != 0 {
                match out.read(&mut chunk) {
                    Ok(0) | Err(_) => ao = false,
                    Ok(n) => a.extend_from_slice(&chunk[..n]),
                }
            }
            if ps[1].revents != 0 {
                match err.read(&mut chunk) {
                    Ok(0) | Err(_) => bo = false,
                    Ok(n) => b.extend_from_slice(&chunk[..n]),
                }
            }
            if start.elapsed() > timeout() {
                late = true;
                let _ = child.kill();
                break;
            }
        }
        (a, b, late)
    };
    let status = child
        .wait()
        .map_err(|e| Fail::Machinery(format!("wait: {}", e)))?;
    if late {
        return Err(Fail::Violation(format!(
            "{:?} did not finish within {:?}",
            cmd.get_program(),
            timeout()
        )));
    }
    Ok(Ran {
        code: status.code(),
        stdout: a,
        stderr: String::from_utf8_lossy(&b).into_owned(),
    })
}

/// Run at-asm with these arguments in `dir`.
pub fn cli(dir: &Path, args: &[String]) -> Result<Ran, Fail> {
    let mut c = Command::new(cli_path()?);
    c.current_dir(dir).args(args).env("RUST_BACKTRACE", "0");
    run(&mut c)
}

/// Is this tool there? (missing tools make a differential part impossible)
pub fn tool(names: &[&str]) -> Option<PathBuf> {
    let path = std::env::var_os("PATH")?;
    for n in names {
        for d in std::env::split_paths(&path) {
            let p = d.join(n);
            if p.is_file() {
                return Some(p);
            }
        }
    }
    None
}

#[allow(dead_code)]
pub fn lines(b: &[u8]) -> Vec<String> {
    BufReader::new(b).lines().map_while(Result::ok).collect()
}
