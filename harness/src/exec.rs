//! Machine code run on the processor, one instruction at a time.
//!
//! `atcheck runner` is a process of its own. For each job it maps the job's memory
//! and forks a child that shares it; the child is traced and only ever continued
//! with PTRACE_SYSEMU_SINGLESTEP: it executes one instruction, and a system call it
//! makes stops it before the kernel carries it out. So whatever the code under test
//! is, it reaches nothing but the memory of that child.
use crate::{
    engine::Fail,
    sut::{read_frame, Got},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub const RSP: usize = 4;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct State {
    pub rip: u64,
    /// by hardware number
    pub regs: [u64; 16],
}

#[derive(Serialize, Deserialize)]
enum Ask {
    /// forget the memory before, and map these bytes (and the rest of their pages)
    Memory(Vec<(u64, Vec<u8>)>),
    /// one instruction, with what it should write
    Step { state: State, writes: Vec<(u64, Vec<u8>)> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stepped {
    pub state: State,
    /// a signal other than that of the step
    pub signal: Option<i32>,
    /// the system call it was about to make
    pub syscall: Option<u64>,
    /// flags that differ from before
    pub flags: u64,
    /// the first place where memory is not as expected: found, expected
    pub memory: Option<(u64, Vec<u8>, Vec<u8>)>,
}

const PAGE: u64 = 4096;

/// Status flags and direction flag, all of them set before each step.
const FLAGS: u64 = 0x8d5;

// --------------------------------------------------------------- the runner

struct Run {
    start: u64,
    /// what the pages should hold
    want: Vec<u8>,
}

#[derive(Default)]
struct Machine {
    runs: Vec<Run>,
    child: i32,
}

impl Machine {
    fn end(&mut self) {
        unsafe {
            if self.child > 0 {
                libc::kill(self.child, libc::SIGKILL);
                libc::waitpid(self.child, std::ptr::null_mut(), 0);
                self.child = 0;
            }
            for r in self.runs.drain(..) {
                libc::munmap(r.start as *mut _, r.want.len());
            }
        }
    }

    fn memory(&mut self, parts: &[(u64, Vec<u8>)]) -> Result<(), String> {
        self.end();
        let mut pages: Vec<u64> = parts
            .iter()
            .flat_map(|(a, b)| a / PAGE..=(a + b.len().max(1) as u64 - 1) / PAGE)
            .collect();
        pages.sort();
        pages.dedup();
        for p in pages {
            match self.runs.last_mut() {
                Some(r) if r.start + r.want.len() as u64 == p * PAGE => r.want.resize(r.want.len() + PAGE as usize, 0),
                _ => self.runs.push(Run {
                    start: p * PAGE,
                    want: vec![0; PAGE as usize],
                }),
            }
        }
        for (a, b) in parts {
            self.expect(*a, b)?;
        }
        for r in &self.runs {
            unsafe {
                let at = libc::mmap(
                    r.start as *mut _,
                    r.want.len(),
                    libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                    libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
                    -1,
                    0,
                );
                if at as u64 != r.start {
                    return Err(format!("cannot map {:#x}: {}", r.start, std::io::Error::last_os_error()));
                }
                std::ptr::copy_nonoverlapping(r.want.as_ptr(), r.start as *mut u8, r.want.len());
            }
        }
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0);
                libc::raise(libc::SIGSTOP);
                libc::_exit(1);
            }
            self.child = pid;
            let mut status = 0;
            if libc::waitpid(pid, &mut status, 0) != pid || !libc::WIFSTOPPED(status) {
                return Err("the traced child does not stop".into());
            }
            let options = libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL;
            if libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, options) != 0 {
                return Err(format!("ptrace: {}", std::io::Error::last_os_error()));
            }
        }
        Ok(())
    }

    fn expect(&mut self, at: u64, b: &[u8]) -> Result<(), String> {
        for r in &mut self.runs {
            if let Some(o) = at.checked_sub(r.start) {
                if let Some(w) = r.want.get_mut(o as usize..o.saturating_add(b.len() as u64) as usize) {
                    w.copy_from_slice(b);
                    return Ok(());
                }
            }
        }
        Err(format!("{:#x} is outside the memory of the job", at))
    }

    fn step(&mut self, s: &State, writes: &[(u64, Vec<u8>)]) -> Result<Stepped, String> {
        const SYSEMU_SINGLESTEP: libc::c_uint = 32;
        let trouble = |what: &str| format!("ptrace ({}): {}", what, std::io::Error::last_os_error());
        unsafe {
            let mut u: libc::user_regs_struct = std::mem::zeroed();
            if libc::ptrace(libc::PTRACE_GETREGS, self.child, 0, &mut u) != 0 {
                return Err(trouble("registers"));
            }
            u.rip = s.rip;
            u.orig_rax = u64::MAX;
            u.eflags = u.eflags & !0xdd5 | FLAGS;
            for (n, v) in s.regs.iter().enumerate() {
                *reg(&mut u, n) = *v;
            }
            if libc::ptrace(libc::PTRACE_SETREGS, self.child, 0, &u) != 0 {
                return Err(trouble("setting registers"));
            }
            if libc::ptrace(SYSEMU_SINGLESTEP, self.child, 0, 0) != 0 {
                return Err(trouble("step"));
            }
            let mut status = 0;
            if libc::waitpid(self.child, &mut status, 0) != self.child || !libc::WIFSTOPPED(status) {
                return Err(format!("the traced child ended (status {:#x})", status));
            }
            let signal = libc::WSTOPSIG(status);
            if libc::ptrace(libc::PTRACE_GETREGS, self.child, 0, &mut u) != 0 {
                return Err(trouble("registers"));
            }
            for (a, b) in writes {
                self.expect(*a, b)?;
            }
            let mut memory = None;
            for r in &mut self.runs {
                let got = std::slice::from_raw_parts(r.start as *const u8, r.want.len());
                if got != r.want.as_slice() {
                    if memory.is_none() {
                        let i = (0..got.len()).find(|i| got[*i] != r.want[*i]).unwrap();
                        let end = (i + 16).min(got.len());
                        memory = Some((r.start + i as u64, got[i..end].to_vec(), r.want[i..end].to_vec()));
                    }
                    // reported once
                    r.want.copy_from_slice(got);
                }
            }
            let mut regs = [0; 16];
            for (n, v) in regs.iter_mut().enumerate() {
                *v = *reg(&mut u, n);
            }
            let syscall = (signal == libc::SIGTRAP | 0x80).then_some(u.orig_rax);
            Ok(Stepped {
                state: State { rip: u.rip, regs },
                signal: (signal & 0x7f != libc::SIGTRAP).then_some(signal),
                syscall,
                flags: (u.eflags ^ FLAGS) & 0xcd5 & !0x100,
                memory,
            })
        }
    }
}

fn reg(u: &mut libc::user_regs_struct, n: usize) -> &mut u64 {
    match n {
        0 => &mut u.rax,
        1 => &mut u.rcx,
        2 => &mut u.rdx,
        3 => &mut u.rbx,
        4 => &mut u.rsp,
        5 => &mut u.rbp,
        6 => &mut u.rsi,
        7 => &mut u.rdi,
        8 => &mut u.r8,
        9 => &mut u.r9,
        10 => &mut u.r10,
        11 => &mut u.r11,
        12 => &mut u.r12,
        13 => &mut u.r13,
        14 => &mut u.r14,
        _ => &mut u.r15,
    }
}

pub fn runner_main() -> i32 {
    let mut m = Machine::default();
    let (mut input, mut output) = (std::io::stdin(), std::io::stdout());
    loop {
        let mut len = [0; 8];
        if input.read_exact(&mut len).is_err() {
            m.end();
            return 0;
        }
        let mut body = vec![0; u64::from_le_bytes(len) as usize];
        if input.read_exact(&mut body).is_err() {
            return 1;
        }
        let body = match serde_json::from_slice(&body).unwrap() {
            Ask::Memory(parts) => serde_json::to_vec(&m.memory(&parts)),
            Ask::Step { state, writes } => serde_json::to_vec(&m.step(&state, &writes)),
        }
        .unwrap();
        let mut msg = (body.len() as u64).to_le_bytes().to_vec();
        msg.extend(body);
        if output.write_all(&msg).and_then(|_| output.flush()).is_err() {
            return 1;
        }
    }
}

// -------------------------------------------------------------- its client

struct Runner {
    child: Child,
    stdin: ChildStdin,
    stdout: ChildStdout,
}

impl Drop for Runner {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static RUNNER: RefCell<Option<Runner>> = const { RefCell::new(None) };
}

fn ask<T: DeserializeOwned>(a: &Ask) -> Result<T, Fail> {
    let trouble = |m: String| Fail::Machinery(format!("runner: {}", m));
    RUNNER.with(|cell| {
        let mut cell = cell.borrow_mut();
        if cell.is_none() {
            let exe = std::env::current_exe().map_err(|e| trouble(e.to_string()))?;
            let mut child = Command::new(exe)
                .arg("runner")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| trouble(e.to_string()))?;
            let (stdin, stdout) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
            *cell = Some(Runner { child, stdin, stdout });
        }
        let r = cell.as_mut().unwrap();
        let body = serde_json::to_vec(a).unwrap();
        let mut msg = (body.len() as u64).to_le_bytes().to_vec();
        msg.extend(body);
        let sent = r.stdin.write_all(&msg).and_then(|_| r.stdin.flush());
        let got = sent.and_then(|_| read_frame(&mut r.stdout, Instant::now() + Duration::from_secs(120)));
        let f = match got {
            Ok(Got::All(f)) => f,
            Ok(_) | Err(_) => {
                *cell = None;
                return Err(trouble("no answer".into()));
            }
        };
        let r: Result<T, String> = serde_json::from_slice(&f).map_err(|e| trouble(e.to_string()))?;
        r.map_err(|m| {
            *cell = None;
            trouble(m)
        })
    })
}

pub fn memory(parts: Vec<(u64, Vec<u8>)>) -> Result<(), Fail> {
    ask(&Ask::Memory(parts))
}

pub fn step(state: &State, writes: Vec<(u64, Vec<u8>)>) -> Result<Stepped, Fail> {
    ask(&Ask::Step {
        state: state.clone(),
        writes,
    })
}
