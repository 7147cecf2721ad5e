//! Runtime shared by every check: parallel exhaustive exploration with a
//! watchdog, running the real CLI, scratch workspaces, evidence and verdicts.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::fmt::Debug;
use std::io::{BufRead, Read, Seek, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::FileExt;
use std::os::unix::net::UnixStream;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
/// A case hangs if it takes this much processor time in the harness, or this
/// long altogether; a command that it runs has somewhat less than the latter.
const HANG_CPU_SECS: i64 = 60;
const HANG_SECS: u64 = 240;

/// A violation of the property: `key` identifies the failing case (used to match
/// known findings), `text` is the replay text.
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub text: String,
}

pub type R = Result<(), Viol>;

pub fn viol<T>(key: impl Into<String>, text: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), text: text.into() })
}

pub struct Mc {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub bin: PathBuf,
    pub shim: PathBuf,
    /// Whether every run is a process started from scratch.
    pub exec: bool,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub level: &'static str,
    pub rule: Mutex<String>,
    pub start: Instant,
    pub states: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<serde_json::Value>>,
    pub bounds: Mutex<Vec<(String, u64)>>,
    pub assumptions: Mutex<Vec<String>>,
    viols: Mutex<Vec<(usize, Viol)>>,
    known_hit: Mutex<BTreeSet<String>>,
    known: BTreeMap<String, String>,
    stop: AtomicBool,
    phase: AtomicUsize,
    pub capped: Mutex<Vec<String>>,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

/// The texts the threads are working on, in a file shared with the parent, for
/// the case that one of them takes the whole process down (a stack overflow,
/// an allocation failure).
const BOX: usize = 1 << 18;
static BLACKBOX: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static BOXES: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MYBOX: usize = BOXES.fetch_add(1, SeqCst) % 64;
}

pub fn open_blackbox(path: &str) {
    limit_memory(12 << 30);
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) else { return };
    let p = unsafe { libc::mmap(std::ptr::null_mut(), BOX * 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    if p != libc::MAP_FAILED {
        BLACKBOX.store(p.cast(), SeqCst);
    }
}

fn blackbox(text: &str) {
    let p = BLACKBOX.load(SeqCst);
    if p.is_null() || text.len() > BOX - 8 {
        return;
    }
    let i = MYBOX.with(|b| *b);
    unsafe {
        let p = p.add(i * BOX);
        p.cast::<u64>().write_volatile(text.len() as u64 + 1);
        std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(8), text.len());
    }
}

/// Runs the check in a child process. If the child is killed by what it runs in
/// process, the texts it was working on are given to the real program: if that
/// dies as well, the code under test crashes.
pub fn supervise(id: &str, args: &[String]) -> i32 {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let dir = PathBuf::from(format!("{base}/mc-super-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let bb = dir.join("box");
    std::fs::File::create(&bb).and_then(|f| f.set_len((BOX * 64) as u64)).expect("box");
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("MC_BOX", &bb)
        .spawn()
        .expect("child");
    let st = child.wait().expect("wait");
    let code = match st.code() {
        Some(c) if c != 134 => c,
        _ => {
            eprintln!("the exploring process died: {st}");
            let mc = Mc::new(id, false);
            let w = Worker::new(&mc, 0);
            let mut code = 3;
            let all = std::fs::read(&bb).unwrap_or_default();
            'out: for b in all.chunks(BOX) {
                let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
                if n == 0 || n > BOX - 8 {
                    continue;
                }
                w.put("a.tree", &b[8..8 + n - 1]);
                for a in [&["scaffold", "a.tree"][..], &["scaffold", "-m", "-S", "a.tree"], &["check", "a.tree"]] {
                    let o = w.run(a);
                    if o.crashed() {
                        let text = format!("the program dies on a tree: bulloak {}\n{}\n--- a.tree ---\n{}", a.join(" "), o.show(), String::from_utf8_lossy(&b[8..8 + n - 1]));
                        mc.record(0, Viol { key: "death".into(), text });
                        code = mc.finish();
                        break 'out;
                    }
                }
            }
            let _ = std::fs::remove_dir_all(&mc.scratch);
            // what the child left behind
            let _ = std::fs::remove_dir_all(format!("{base}/mc-{id}-{}", child.id()));
            code
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

static HARNESS_BUG: AtomicBool = AtomicBool::new(false);

type Slot = Mutex<Option<(Started, Arc<dyn Any + Send + Sync>, fn(&dyn Any) -> String)>>;

struct Started {
    at: Instant,
    clock: libc::clockid_t,
    cpu: i64,
}
fn cpu_of(clock: libc::clockid_t) -> i64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut t) } == 0 { t.tv_sec } else { 0 }
}
impl Started {
    fn here() -> Started {
        let mut clock = 0;
        if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) } != 0 {
            clock = libc::CLOCK_MONOTONIC;
        }
        Started { at: Instant::now(), clock, cpu: cpu_of(clock) }
    }
    fn hangs(&self) -> bool {
        self.at.elapsed() > Duration::from_secs(HANG_SECS) || cpu_of(self.clock) - self.cpu > HANG_CPU_SECS
    }
}

impl Mc {
    pub fn new(id: &str, thorough: bool) -> Mc {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        }));
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let build = PathBuf::from(std::env::var("MC_BUILD").unwrap_or_else(|_| "/verif/build".into()));
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let scratch = PathBuf::from(format!("{base}/mc-{id}-{}", std::process::id()));
        std::fs::create_dir_all(&scratch).expect("scratch");
        let mut known = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for l in s.lines() {
                // known: property=C01 key=<key> :: description
                if let Some(rest) = l.strip_prefix("known: property=") {
                    let (p, rest) = rest.split_once(" key=").unwrap_or((rest, ""));
                    let (k, d) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    if p == id {
                        known.insert(k.to_string(), d.to_string());
                    }
                }
            }
        }
        Mc {
            id: id.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            bin: PathBuf::from(std::env::var("BULLOAK_BIN").unwrap_or_else(|_| format!("{}/target/release/bulloak", build.display()))),
            shim: build.join("faultshim.so"),
            exec: std::env::var_os("MC_EXEC").is_some(),
            verif,
            scratch,
            level: "model_checking",
            rule: Mutex::new(String::new()),
            start: Instant::now(),
            states: AtomicU64::new(0),
            distinct: (0..64).map(|_| Default::default()).collect(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Default::default(),
            samples: Default::default(),
            bounds: Default::default(),
            assumptions: Default::default(),
            viols: Default::default(),
            known_hit: Default::default(),
            known,
            stop: AtomicBool::new(false),
            phase: AtomicUsize::new(0),
            capped: Default::default(),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    pub fn bound(&self, name: &str, v: u64) {
        self.bounds.lock().unwrap().push((name.into(), v));
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// One case of the enumeration.
    pub fn state(&self) {
        self.states.fetch_add(1, SeqCst);
    }
    /// One execution of the real code on a file (the lines it consumes are the
    /// transitions of the tree model).
    pub fn step(&self) {
        self.transitions.fetch_add(1, SeqCst);
    }
    /// Counts `x`, a workspace with the command run on it or a text given to the
    /// library, unless it occurred before.
    pub fn visit(&self, x: impl Hash) {
        let h = hash(x);
        self.distinct[(h % 64) as usize].lock().unwrap().insert(h);
    }
    /// As `step`, for the in-process runs on `text`.
    pub fn reads(&self, text: &str) {
        blackbox(text);
        self.visit(text);
        self.transitions.fetch_add(1 + text.bytes().filter(|b| *b == b'\n').count() as u64, SeqCst);
    }
    /// One execution whose outcome was compared with the reference model.
    pub fn trace(&self) {
        self.traces.fetch_add(1, SeqCst);
    }
    pub fn outcome(&self, o: &str) {
        let mut m = self.outcomes.lock().unwrap();
        if let Some(x) = m.get_mut(o) {
            *x += 1;
        } else if m.len() < 400 {
            m.insert(o.into(), 1);
        }
    }
    pub fn sample(&self, v: impl FnOnce() -> serde_json::Value) {
        let n = self.states.load(SeqCst);
        if n < 3 || (n & (n - 1)) == 0 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 24 {
                s.push(v());
            }
        }
    }

    fn record(&self, idx: usize, v: Viol) {
        if self.known.contains_key(&v.key) {
            self.known_hit.lock().unwrap().insert(v.key);
            return;
        }
        self.viols.lock().unwrap().push((self.phase.load(SeqCst) << 40 | idx, v));
        self.stop.store(true, SeqCst);
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }

    /// Runs `f` on every item of `items`, on all cores. Items are handed out in
    /// order; the reported violation is the one with the smallest index found.
    pub fn par<T, I, F>(&self, items: I, f: F)
    where
        T: Send + Sync + Debug + 'static,
        I: Iterator<Item = T> + Send,
        F: Fn(&mut Worker, &T) -> R + Sync,
    {
        if self.stopped() {
            return;
        }
        self.phase.fetch_add(1, SeqCst);
        let it = Mutex::new(items.enumerate());
        let slots: Vec<Slot> = (0..THREADS).map(|_| Mutex::new(None)).collect();
        let done = AtomicUsize::new(0);
        let finished = AtomicBool::new(false);
        std::thread::scope(|s| {
            s.spawn(|| {
                while !finished.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    for sl in &slots {
                        let g = sl.lock().unwrap();
                        if let Some((t, item, show)) = &*g {
                            if t.hangs() {
                                let text = format!("no result within {HANG_CPU_SECS} s of processor time or {HANG_SECS} s on case:\n{}", show(&**item));
                                drop(g);
                                self.record(0, Viol { key: "hang".into(), text });
                                let code = self.finish();
                                std::process::exit(code);
                            }
                        }
                    }
                }
            });
            for w in 0..THREADS {
                let (it, slots, done, finished, f) = (&it, &slots, &done, &finished, &f);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut worker = Worker::new(self, w);
                        'outer: loop {
                            let batch = catch_unwind(AssertUnwindSafe(|| {
                                let mut g = it.lock().unwrap();
                                let mut b: Vec<(usize, T)> = Vec::with_capacity(8);
                                for _ in 0..8 {
                                    match g.next() {
                                        Some(x) => b.push(x),
                                        None => break,
                                    }
                                }
                                b
                            }));
                            let Ok(batch) = batch else {
                                let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                                eprintln!("harness error at {loc}, in what makes the cases: {msg}");
                                HARNESS_BUG.store(true, SeqCst);
                                self.stop.store(true, SeqCst);
                                std::process::exit(self.finish());
                            };
                            if batch.is_empty() {
                                break;
                            }
                            for (i, item) in batch {
                                if self.stopped() {
                                    break 'outer;
                                }
                                let item = Arc::new(item);
                                *slots[w].lock().unwrap() = Some((
                                    Started::here(),
                                    item.clone() as Arc<dyn Any + Send + Sync>,
                                    |a| format!("{:#?}", a.downcast_ref::<T>().unwrap()),
                                ));
                                let r = catch_unwind(AssertUnwindSafe(|| f(&mut worker, &item)));
                                *slots[w].lock().unwrap() = None;
                                match r {
                                    Ok(Ok(())) => {}
                                    Ok(Err(v)) => self.record(i, v),
                                    Err(_) => {
                                        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                                        if loc.starts_with("src/") || loc.contains("/harness/src/") {
                                            eprintln!("harness error at {loc}: {msg}\n{item:#?}");
                                            HARNESS_BUG.store(true, SeqCst);
                                            self.stop.store(true, SeqCst);
                                        } else {
                                            self.record(i, Viol {
                                                key: format!("panic:{item:?}"),
                                                text: format!("the code under test panicked at {loc}: {msg}\non case:\n{item:#?}"),
                                            });
                                        }
                                    }
                                }
                            }
                        }
                        if done.fetch_add(1, SeqCst) + 1 == THREADS {
                            finished.store(true, SeqCst);
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// Runs one closure as a single item.
    pub fn one(&self, name: &'static str, f: impl Fn(&mut Worker) -> R + Sync) {
        self.par(std::iter::once(name), |w, _| f(w));
    }

    /// Writes the evidence, prints the verdict and returns the exit code.
    pub fn finish(&self) -> i32 {
        let _ = std::fs::remove_dir_all(&self.scratch);
        if HARNESS_BUG.load(SeqCst) {
            eprintln!("check error: the harness itself failed; no verdict");
            return 3;
        }
        let mut v = self.viols.lock().unwrap().clone();
        v.sort_by_key(|(i, _)| *i);
        let outcomes = self.outcomes.lock().unwrap().clone();
        let mut cov = serde_json::Map::new();
        let rule = self.rule.lock().unwrap().clone();
        let cases = self.states.load(SeqCst);
        let st: u64 = self.distinct.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        let (tr, tv) = (self.transitions.load(SeqCst), self.traces.load(SeqCst));
        if self.level == "fault_enumeration" {
            cov.insert("evaluations".into(), tr.into());
            cov.insert("distinct_nontrivial".into(), st.into());
            cov.insert("compared_with_model".into(), tv.into());
        } else {
            cov.insert("states".into(), st.into());
            cov.insert("transitions".into(), tr.into());
            cov.insert("traces_validated_against_impl".into(), tv.into());
        }
        cov.insert("cases".into(), cases.into());
        cov.insert("rule".into(), rule.into());
        cov.insert("samples".into(), self.samples.lock().unwrap().clone().into());
        cov.insert("distinct_outcomes".into(), outcomes.len().into());
        cov.insert("outcomes".into(), serde_json::to_value(outcomes.iter().take(60).collect::<BTreeMap<_, _>>()).unwrap());
        let b: serde_json::Map<String, serde_json::Value> =
            self.bounds.lock().unwrap().iter().map(|(k, v)| (k.clone(), (*v).into())).collect();
        cov.insert("bounds".into(), b.into());
        let capped = self.capped.lock().unwrap().clone();
        cov.insert("exhaustive".into(), (capped.is_empty() && v.is_empty()).into());
        if !capped.is_empty() {
            cov.insert("capped".into(), capped.into());
        }
        let ev = serde_json::json!({
            "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": self.level, "coverage": cov,
            "assumptions": self.assumptions.lock().unwrap().clone(),
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": v.len(),
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({})", self.id, self.known[k], k);
        }
        eprintln!("{}: states={st} transitions={tr} traces={tv} outcomes={} violations={} wall={:.1}s",
            self.id, outcomes.len(), v.len(), self.start.elapsed().as_secs_f64());
        if let Some((_, first)) = v.first() {
            let rdir = dir.join("replay");
            let _ = std::fs::create_dir_all(&rdir);
            let p = rdir.join(format!("{}.txt", self.id));
            let _ = std::fs::write(&p, format!("property: {}\nkey: {}\n\n{}\n", self.id, first.key, first.text));
            let head: String = first.text.chars().take(1500).collect();
            println!("{head}");
            println!("VIOLATION property={} replay={}", self.id, p.display());
            return 1;
        }
        0
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub code: i32,
    pub stdout: String,
    pub stderr: String,
}

impl Out {
    pub fn crashed(&self) -> bool {
        !(self.code == 0 || self.code == 1) || self.stderr.contains("panicked at")
    }
    pub fn show(&self) -> String {
        format!("exit status: {}\n--- stdout ---\n{}\n--- stderr ---\n{}", self.code, self.stdout, self.stderr)
    }
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// A file-system call that a process is about to make.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub op: String,
    pub path: String,
    pub path2: String,
}

pub struct Worker<'a> {
    pub mc: &'a Mc,
    pub n: usize,
    pub dir: PathBuf,
    /// What was put into the directory, and the commands run since.
    files: RefCell<BTreeMap<String, u64>>,
    ran: Cell<u64>,
    server: RefCell<Option<Server>>,
    /// For runs at the same time.
    team: RefCell<Vec<Server>>,
}

/// The CLI, loaded and stopped right before `main`: it forks a child for every
/// run (see shim.c). The children write to two files in memory.
struct Server {
    child: std::process::Child,
    sock: UnixStream,
    out: [std::fs::File; 2],
}

impl Server {
    fn start(mc: &Mc) -> Server {
        let mem = |n: &std::ffi::CStr| unsafe { std::fs::File::from_raw_fd(libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC)) };
        let out = [mem(c"out"), mem(c"err")];
        let (sock, theirs) = UnixStream::pair().expect("socket");
        let fd = theirs.as_raw_fd();
        let mut c = Command::new(&mc.bin);
        c.env_clear()
            .env("LD_PRELOAD", &mc.shim)
            .env("MC_SERVER", "100")
            .stdin(Stdio::null())
            .stdout(out[0].try_clone().expect("dup"))
            .stderr(out[1].try_clone().expect("dup"));
        unsafe {
            // (dup2 of a descriptor onto itself would leave it to be closed by exec)
            c.pre_exec(move || {
                let r = if fd == 100 { libc::fcntl(fd, libc::F_SETFD, 0) } else { libc::dup2(fd, 100) };
                if r < 0 { Err(std::io::Error::last_os_error()) } else { Ok(()) }
            });
        }
        let child = c.spawn().unwrap_or_else(|e| panic!("cannot run {}: {e}", mc.bin.display()));
        sock.set_read_timeout(Some(Duration::from_secs(HANG_SECS))).unwrap();
        Server { child, sock, out }
    }

    /// The wait status of a run; None if there is no answer.
    fn request(&mut self, dir: &Path, args: &[&str], env: &[(&str, &str)]) -> Option<i32> {
        self.begin(dir, args, env)?;
        self.status()
    }

    fn begin(&mut self, dir: &Path, args: &[&str], env: &[(&str, &str)]) -> Option<()> {
        let mut b = vec![0; 4];
        let mut put = |x: &[u8]| {
            b.extend(x);
            b.push(0);
        };
        put((HANG_SECS - 10).to_string().as_bytes());
        put(dir.as_os_str().as_bytes());
        put((args.len() + 1).to_string().as_bytes());
        put(b"bulloak");
        for a in args {
            put(a.as_bytes());
        }
        for (k, v) in env {
            put(format!("{k}={v}").as_bytes());
        }
        let n = (b.len() - 4) as u32;
        b[..4].copy_from_slice(&n.to_ne_bytes());
        self.sock.write_all(&b).ok()
    }

    fn status(&mut self) -> Option<i32> {
        let mut st = [0; 4];
        self.sock.read_exact(&mut st).ok()?;
        Some(i32::from_ne_bytes(st))
    }

    fn outcome(&mut self, st: i32) -> Out {
        let (stdout, stderr) = (self.output(0), self.output(1));
        let code = match (libc::WIFEXITED(st), libc::WTERMSIG(st)) {
            (true, _) => libc::WEXITSTATUS(st),
            (false, libc::SIGALRM | libc::SIGXCPU) => 9999,
            (false, n) => 1000 + n,
        };
        Out { code, stdout, stderr }
    }

    fn output(&mut self, i: usize) -> String {
        let f = &mut self.out[i];
        let n = f.metadata().expect("output").len() as usize;
        let mut b = vec![0; n];
        f.read_exact_at(&mut b, 0).expect("output");
        f.set_len(0).expect("output");
        f.seek(std::io::SeekFrom::Start(0)).expect("output");
        strip_ansi(&String::from_utf8_lossy(&b))
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn hash(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl<'a> Worker<'a> {
    fn new(mc: &'a Mc, n: usize) -> Self {
        let dir = mc.scratch.join(format!("w{n}"));
        std::fs::create_dir_all(&dir).unwrap();
        Worker { mc, n, dir, files: Default::default(), ran: Cell::new(0), server: RefCell::new(None), team: Default::default() }
    }

    /// Empties the scratch directory of this worker.
    pub fn clean(&self) {
        self.files.borrow_mut().clear();
        self.ran.set(0);
        for e in std::fs::read_dir(&self.dir).unwrap().flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }

    /// Takes note of a file that was put into the directory.
    pub fn note(&self, name: &str, content: &[u8]) {
        self.files.borrow_mut().insert(name.into(), hash(content));
        self.ran.set(0);
    }

    pub fn put(&self, name: &str, content: impl AsRef<[u8]>) {
        self.note(name, content.as_ref());
        std::fs::write(self.dir.join(name), content).unwrap();
    }
    pub fn get(&self, name: &str) -> Option<String> {
        std::fs::read(self.dir.join(name)).ok().map(|b| String::from_utf8_lossy(&b).into_owned())
    }
    pub fn del(&self, name: &str) {
        self.files.borrow_mut().remove(name);
        self.ran.set(0);
        let _ = std::fs::remove_file(self.dir.join(name));
    }

    /// Every file below the scratch directory, with its contents.
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        fn rec(base: &Path, d: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).unwrap().flatten() {
                let p = e.path();
                let name = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                if p.is_dir() {
                    m.insert(format!("{name}/"), vec![]);
                    rec(base, &p, m);
                } else {
                    m.insert(name, std::fs::read(&p).unwrap_or_default());
                }
            }
        }
        let mut m = BTreeMap::new();
        rec(&self.dir, &self.dir, &mut m);
        m
    }

    pub fn run(&self, args: &[&str]) -> Out {
        self.run_env(args, &[], None)
    }

    fn count(&self, args: &[&str], env: &[(&str, &str)], cwd: Option<&Path>) {
        self.mc.step();
        self.mc.visit((&*self.files.borrow(), self.ran.get(), args, env, cwd));
        self.ran.set(hash((self.ran.get(), args)));
    }

    /// Runs the real CLI in the scratch directory of this worker.
    pub fn run_env(&self, args: &[&str], env: &[(&str, &str)], cwd: Option<&Path>) -> Out {
        if self.mc.exec {
            return self.run_exec(args, env, cwd);
        }
        self.count(args, env, cwd);
        let mut sv = self.server.borrow_mut();
        let s = sv.get_or_insert_with(|| Server::start(self.mc));
        let home = self.dir.to_string_lossy();
        let mut all = vec![("PATH", "/usr/bin:/bin"), ("HOME", &home), ("RUST_BACKTRACE", "0")];
        all.extend(env);
        let Some(st) = s.request(cwd.unwrap_or(&self.dir), args, &all) else { panic!("the fork server does not answer") };
        s.outcome(st)
    }

    /// Runs several commands at the same time in the scratch directory, one
    /// file-system call at a time. `pick` chooses whose call is next among the
    /// ones (given as operation and paths) that wait; None ends them all.
    pub fn run_together(&self, cmds: &[Vec<&str>], pick: &mut dyn FnMut(&[Option<Call>]) -> Option<usize>) -> Option<Vec<Out>> {
        let mut team = self.team.borrow_mut();
        while team.len() < cmds.len() {
            team.push(Server::start(self.mc));
        }
        let gate = self.mc.scratch.join(format!("gate{}", self.n));
        let _ = std::fs::remove_file(&gate);
        let listener = std::os::unix::net::UnixListener::bind(&gate).expect("gate");
        let (home, gate) = (self.dir.to_string_lossy().into_owned(), gate.to_string_lossy().into_owned());
        let tmp = format!("{home}/tmp");
        let env = [("PATH", "/usr/bin:/bin"), ("HOME", &*home), ("TMPDIR", &tmp), ("RUST_BACKTRACE", "0"), ("MC_ROOT", &home), ("MC_GATE", &gate), ("MC_SEED", "1")];
        let mut conns: Vec<Option<std::io::BufReader<UnixStream>>> = cmds.iter().map(|_| None).collect();
        let mut calls: Vec<Option<Call>> = vec![None; cmds.len()];
        let mut outs: Vec<Option<Out>> = vec![None; cmds.len()];
        // waits until the process has ended or is at a call
        let settle = |team: &mut Vec<Server>, p: usize, conns: &mut Vec<Option<std::io::BufReader<UnixStream>>>, calls: &mut Vec<Option<Call>>, outs: &mut Vec<Option<Out>>| {
            let at = match &conns[p] {
                Some(c) => c.get_ref().as_raw_fd(),
                None => listener.as_raw_fd(),
            };
            let mut fds = [at, team[p].sock.as_raw_fd()].map(|fd| libc::pollfd { fd, events: libc::POLLIN, revents: 0 });
            loop {
                let n = unsafe { libc::poll(fds.as_mut_ptr(), 2, (HANG_SECS * 1000) as i32) };
                if n == 0 {
                    panic!("{:?} neither ends nor goes on", cmds[p]);
                }
                if n > 0 {
                    break;
                }
            }
            if fds[0].revents & libc::POLLIN != 0 {
                if conns[p].is_none() {
                    conns[p] = Some(std::io::BufReader::new(listener.accept().expect("gate").0));
                }
                let mut l = String::new();
                conns[p].as_mut().unwrap().read_line(&mut l).expect("call");
                if let [op, a, b] = l.trim_end_matches('\n').split('\t').collect::<Vec<_>>()[..] {
                    calls[p] = Some(Call { op: op.into(), path: a.into(), path2: b.into() });
                    return;
                }
            }
            calls[p] = None;
            let Some(st) = team[p].status() else { panic!("the fork server does not answer") };
            outs[p] = Some(team[p].outcome(st));
        };
        for (p, c) in cmds.iter().enumerate() {
            self.mc.step();
            if team[p].begin(&self.dir, c, &env).is_none() {
                panic!("the fork server does not answer");
            }
            settle(&mut team, p, &mut conns, &mut calls, &mut outs);
        }
        loop {
            if calls.iter().all(|c| c.is_none()) {
                return Some(outs.into_iter().map(|o| o.unwrap()).collect());
            }
            match pick(&calls) {
                Some(p) => {
                    conns[p].as_mut().unwrap().get_mut().write_all(b"g").expect("gate");
                    settle(&mut team, p, &mut conns, &mut calls, &mut outs);
                }
                None => {
                    for p in 0..cmds.len() {
                        if calls[p].take().is_some() {
                            let _ = conns[p].as_mut().unwrap().get_mut().write_all(b"x");
                            settle(&mut team, p, &mut conns, &mut calls, &mut outs);
                        }
                    }
                    return None;
                }
            }
        }
    }

    /// As `run_env`, but in a process of its own, started from scratch.
    pub fn run_exec(&self, args: &[&str], env: &[(&str, &str)], cwd: Option<&Path>) -> Out {
        self.count(args, env, cwd);
        let mut c = Command::new(&self.mc.bin);
        c.args(args)
            .current_dir(cwd.unwrap_or(&self.dir))
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &self.dir)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        for (k, v) in env {
            c.env(k, v);
        }
        let mut ch = c.spawn().unwrap_or_else(|e| panic!("cannot run {}: {e}", self.mc.bin.display()));
        let mut so = ch.stdout.take().unwrap();
        let mut se = ch.stderr.take().unwrap();
        let deadline = Instant::now() + Duration::from_secs(HANG_SECS - 10);
        let (a, b) = read_both(&mut so, &mut se, deadline);
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break Some(st);
            }
            if Instant::now() > deadline {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::yield_now();
        };
        let code = match st {
            Some(st) => st.code().unwrap_or_else(|| 1000 + st.signal().unwrap_or(0)),
            None => 9999,
        };
        Out { code, stdout: strip_ansi(&String::from_utf8_lossy(&a)), stderr: strip_ansi(&String::from_utf8_lossy(&b)) }
    }
}

fn read_both(a: &mut (impl Read + std::os::fd::AsRawFd), b: &mut (impl Read + std::os::fd::AsRawFd), deadline: Instant) -> (Vec<u8>, Vec<u8>) {
    let mut out = (Vec::new(), Vec::new());
    let mut open = [true, true];
    let mut buf = [0u8; 65536];
    while (open[0] || open[1]) && Instant::now() < deadline {
        let mut fds: Vec<libc::pollfd> = Vec::new();
        if open[0] {
            fds.push(libc::pollfd { fd: a.as_raw_fd(), events: libc::POLLIN, revents: 0 });
        }
        if open[1] {
            fds.push(libc::pollfd { fd: b.as_raw_fd(), events: libc::POLLIN, revents: 0 });
        }
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, 500) };
        for f in fds {
            if f.revents == 0 {
                continue;
            }
            if f.fd == a.as_raw_fd() {
                match a.read(&mut buf) {
                    Ok(0) | Err(_) => open[0] = false,
                    Ok(n) => out.0.extend_from_slice(&buf[..n]),
                }
            } else {
                match b.read(&mut buf) {
                    Ok(0) | Err(_) => open[1] = false,
                    Ok(n) => out.1.extend_from_slice(&buf[..n]),
                }
            }
        }
    }
    out
}
