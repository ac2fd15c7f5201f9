//! Serves parse requests over stdin/stdout, through giron's public API only.
//!
//! request : u8 flags, u32le len, len bytes of UTF-8 source
//!   flags bit0: module goal; bit1: also return the `{:?}` text (carries the spans);
//!   flags bit2: no AST in the answer (cost only); bits 4..8: number of threads for a
//!   concurrent parse (0: parse on the main thread); bit3: parse several sources at the same
//!   time (see `together`).
//! response: u32le len, len bytes of JSON
//!   {"k":"ok","n":allocs,"b":bytes,"ast":..,"dbg":..}
//!   (with bit2: no ast, and "us": CPU time of the parse in microseconds)
//!   {"k":"err","n":..,"b":..,"line":..,"col":..,"type":"..","disp":".."}
//!   {"k":"panic","msg":".."}      the parser panicked
//!   {"k":"serr","msg":".."}       the tree could not be serialised
//!   {"k":"budget"}  then exit: one parse allocated more than the budget
//!   {"k":"hang"}    then exit: one parse used more CPU time than the limit
//! A crash (stack overflow, abort) shows as end-of-file on the response pipe.

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static COUNTING: AtomicBool = AtomicBool::new(false);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static CPU: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static REQUEST: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);

struct Counting;

extern "C" {
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn clock() -> i64;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

fn last_words(msg: &[u8]) -> ! {
    unsafe {
        let len = (msg.len() as u32).to_le_bytes();
        write(1, len.as_ptr(), 4);
        write(1, msg.as_ptr(), msg.len());
        _exit(3)
    }
}

#[inline]
fn count(n: usize) {
    if COUNTING.load(SeqCst) {
        ALLOCS.fetch_add(1, SeqCst);
        let b = BYTES.fetch_add(n as u64, SeqCst) + n as u64;
        if b > LIMIT.load(SeqCst) {
            last_words(b"{\"k\":\"budget\"}");
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(if n > l.size() { n } else { 0 }); // a larger block is a copy of the whole
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn parse(module: bool, src: String) -> Result<giron::EstreeNode, giron::GironError> {
    if module {
        giron::parse_module(src)
    } else {
        giron::parse_script(src)
    }
}

fn render(module: bool, dbg: bool, noast: bool, src: String) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        ALLOCS.store(0, SeqCst);
        BYTES.store(0, SeqCst);
        COUNTING.store(true, SeqCst);
        let t = unsafe { clock() };
        let r = parse(module, src);
        CPU.store((unsafe { clock() } - t) as u64, SeqCst);
        COUNTING.store(false, SeqCst);
        r
    }));
    COUNTING.store(false, SeqCst);
    let (n, b) = (ALLOCS.load(SeqCst), BYTES.load(SeqCst));
    match r {
        Err(_) => format!("{{\"k\":\"panic\",\"msg\":{}}}", esc(&PANIC_MSG.lock().unwrap())),
        Ok(Err(e)) => format!(
            "{{\"k\":\"err\",\"n\":{},\"b\":{},\"us\":{},\"line\":{},\"col\":{},\"type\":{},\"disp\":{}}}",
            n, b, CPU.load(SeqCst), e.line, e.col, esc(&format!("{:?}", e.errortype)), esc(&format!("{}", e))
        ),
        Ok(Ok(node)) => {
            if noast {
                return format!("{{\"k\":\"ok\",\"n\":{},\"b\":{},\"us\":{}}}", n, b, CPU.load(SeqCst));
            }
            let j = catch_unwind(AssertUnwindSafe(|| serde_json::to_string(&node)));
            match j {
                Ok(Ok(s)) => {
                    let d = if dbg { format!(",\"dbg\":{}", esc(&format!("{:?}", node))) } else { String::new() };
                    format!("{{\"k\":\"ok\",\"n\":{},\"b\":{},\"ast\":{}{}}}", n, b, s, d)
                }
                Ok(Err(e)) => format!("{{\"k\":\"serr\",\"msg\":{}}}", esc(&e.to_string())),
                Err(_) => format!("{{\"k\":\"serr\",\"msg\":{}}}", esc(&PANIC_MSG.lock().unwrap())),
            }
        }
    }
}

/// Result of one parse as text, for comparing threads.
fn plain(module: bool, src: String) -> String {
    match catch_unwind(AssertUnwindSafe(|| parse(module, src))) {
        Err(_) => "panic".to_string(),
        Ok(Err(e)) => format!("err {} {} {:?} {}", e.line, e.col, e.errortype, e),
        Ok(Ok(n)) => format!("ok {:?}", n),
    }
}

/// Parses several sources at the same time, each on its own thread and `rounds` times.
/// body: u8 rounds, then for each source u8 goal, u32le len, bytes.
fn together(body: Vec<u8>) -> String {
    let rounds = body[0] as usize;
    let mut jobs = vec![];
    let mut at = 1;
    while at < body.len() {
        let module = body[at] == 1;
        let len = u32::from_le_bytes([body[at + 1], body[at + 2], body[at + 3], body[at + 4]]) as usize;
        let src = String::from_utf8(body[at + 5..at + 5 + len].to_vec()).expect("source must be UTF-8");
        jobs.push((module, src));
        at += 5 + len;
    }
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(jobs.len()));
    let hs: Vec<_> = jobs
        .into_iter()
        .map(|(module, src)| {
            let b = barrier.clone();
            let run = move || {
                b.wait();
                let first = plain(module, src.clone());
                for _ in 1..rounds {
                    let again = plain(module, src.clone());
                    if again != first {
                        return format!("{} then {}", first, again);
                    }
                }
                first
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap()
        })
        .collect();
    let rs: Vec<String> = hs.into_iter().map(|h| esc(&h.join().unwrap_or_else(|_| "join".into()))).collect();
    format!("{{\"k\":\"thr\",\"all\":[{}]}}", rs.join(","))
}

/// Forks the process that serves; this one never parses anything, so that a `reset` request
/// (flags 0xff: the serving process ends) gives way to a process as good as new.
fn main() {
    loop {
        let pid = unsafe { fork() };
        if pid == 0 {
            serve();
            return;
        }
        let mut status = 0i32;
        if pid < 0 || unsafe { waitpid(pid, &mut status, 0) } != pid || status != RESET << 8 {
            unsafe { _exit(if pid < 0 { 4 } else if status == 0 { 0 } else { 3 }) }
        }
    }
}

const RESET: i32 = 77;

fn serve() {
    std::panic::set_hook(Box::new(|info| {
        COUNTING.store(false, SeqCst);
        if let Ok(mut m) = PANIC_MSG.lock() {
            *m = format!("{}", info);
        }
    }));
    let cpu_limit: f64 = std::env::var("GIRON_CPU_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(10.0);
    std::thread::spawn(move || {
        let mut seen = 0u64;
        let mut start = 0i64;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let id = REQUEST.load(SeqCst);
            let now = unsafe { clock() };
            if id != seen || !BUSY.load(SeqCst) {
                seen = id;
                start = now;
            } else if (now - start) as f64 / 1e6 > cpu_limit {
                last_words(b"{\"k\":\"hang\"}");
            }
        }
    });
    // (not buffered: what follows a reset is for the next process)
    let mut input = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(0) };
    let mut out = std::io::stdout();
    loop {
        let mut head = [0u8; 5];
        if input.read_exact(&mut head).is_err() {
            return;
        }
        let flags = head[0];
        if flags == 0xff {
            unsafe { _exit(RESET) }
        }
        let len = u32::from_le_bytes([head[1], head[2], head[3], head[4]]) as usize;
        let mut buf = vec![0u8; len];
        if input.read_exact(&mut buf).is_err() {
            return;
        }
        let src = if flags & 8 != 0 { String::new() } else { String::from_utf8(buf.clone()).expect("source must be UTF-8") };
        REQUEST.fetch_add(1, SeqCst);
        LIMIT.store(256 * 1024 * 1024 + 64 * 1024 * len as u64, SeqCst);
        BUSY.store(true, SeqCst);
        let module = flags & 1 != 0;
        let threads = (flags >> 4) as usize;
        let answer = if flags & 8 != 0 {
            together(buf)
        } else if threads == 0 {
            render(module, flags & 2 != 0, flags & 4 != 0, src)
        } else {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let s = src.clone();
                    std::thread::Builder::new().stack_size(64 << 20).spawn(move || plain(module, s)).unwrap()
                })
                .collect();
            let rs: Vec<String> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "join".into())).collect();
            let same = rs.iter().all(|r| *r == rs[0]) && rs[0] == plain(module, src);
            format!("{{\"k\":\"thr\",\"same\":{},\"first\":{}}}", same, esc(&rs[0]))
        };
        BUSY.store(false, SeqCst);
        let b = answer.as_bytes();
        out.write_all(&(b.len() as u32).to_le_bytes()).unwrap();
        out.write_all(b).unwrap();
        out.flush().unwrap();
    }
}
