//! Supervision, monitoring and evidence.
//!
//! A check runs as two processes: the supervisor starts the worker, which executes the
//! workload with the monitors. A worker which dies of a signal (abort, segmentation
//! fault, stack overflow, failed allocation) is itself an observation: the supervisor
//! reports it with the case each thread was executing (from the journals).
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST: std::cell::RefCell<Option<PanicInfo>> = const { std::cell::RefCell::new(None) };
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
}

impl PanicInfo {
    /// a panic raised by a line of the harness itself
    pub fn in_harness(&self) -> bool {
        self.file.starts_with("src/") || self.file.starts_with("/verif/")
    }
    pub fn text(&self) -> String {
        format!("panic at {}:{}: {}", self.file, self.line, self.msg)
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let p = PanicInfo { msg, file, line };
        if std::env::var_os("VH_PANICS").is_some() {
            eprintln!("{} {}", p.text(), std::backtrace::Backtrace::force_capture());
        }
        LAST.with(|l| *l.borrow_mut() = Some(p));
    }));
}

/// Run code of the library; a panic becomes a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST
            .with(|l| l.borrow_mut().take())
            .unwrap_or(PanicInfo { msg: "?".into(), file: "?".into(), line: 0 })),
    }
}

/// As `guard`, for code where a panic and an Err both are refusals; the text says which.
pub fn guard_res<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match guard(f) {
        Ok(r) => r,
        Err(p) => Err(p.text()),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub case: String,
}

/// What one case observed.
#[derive(Default)]
pub struct Out {
    pub group: String,
    pub index: u64,
    pub desc: String,
    pub evals: u64,
    pub keys: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub errors: Vec<String>,
    journal: Option<PathBuf>,
}

pub fn hash_of(s: impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    // FNV, so that it does not depend on the standard library's default
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    s.hash(&mut f);
    f.finish()
}

impl Out {
    /// Name the case about to run (for replay files and for the supervisor).
    pub fn case(&mut self, desc: impl Into<String>) {
        self.desc = desc.into();
        if let Some(j) = &self.journal {
            let _ = std::fs::write(j, format!("{}#{} {}", self.group, self.index, self.desc));
        }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// A distinct non-trivial situation was observed.
    pub fn seen(&mut self, k: impl std::hash::Hash) {
        self.keys.push(hash_of(k));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 2 {
            self.samples.push(s.into());
        }
    }
    pub fn viol(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.viols.len() < 20 {
            let case = format!("{}#{} {}", self.group, self.index, self.desc);
            self.viols.push(Viol { sig: sig.into(), detail: detail.into(), case });
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.viol(sig, detail());
        }
        ok
    }
    /// A problem of the harness or of the sandbox: the run is inconclusive.
    pub fn error(&mut self, e: impl Into<String>) {
        self.errors.push(e.into());
    }
}

#[derive(Default)]
struct Total {
    evals: u64,
    keys: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    per_group: BTreeMap<String, u64>,
    viols: Vec<Viol>,
    errors: Vec<String>,
    skipped: u64,
}

pub struct Ctx {
    pub pid: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub deadline: Instant,
    pub scratch: PathBuf,
    pub verif: PathBuf,
    pub repo: PathBuf,
    pub only: Option<(String, u64)>,
    total: Mutex<Total>,
    /// per worker thread: (pthread clock, cpu ns at case start, case text)
    slots: Mutex<Vec<Slot>>,
    finished: AtomicBool,
    seq: AtomicU64,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub exhaustive: AtomicBool,
    pub hang_cpu_s: AtomicU64,
}

struct Slot {
    clock: libc::clockid_t,
    start_ns: u64,
    case: String,
    active: bool,
}

fn cpu_ns(c: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(c, &mut ts) } != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

impl Ctx {
    pub fn rng(&self, group: &str) -> Rng {
        Rng::new(self.seed ^ hash_of((self.pid, group)))
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn set_rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// A fresh scratch path.
    pub fn path(&self, ext: &str) -> PathBuf {
        let n = self.seq.fetch_add(1, Ordering::Relaxed);
        self.scratch.join(format!("f{n}{ext}"))
    }
    pub fn over(&self) -> bool {
        Instant::now() > self.deadline
    }

    /// Run cases 0..n of a group on all cores.
    pub fn par<F: Fn(u64, &mut Out) + Sync>(&self, group: &str, n: usize, f: F) {
        self.par_n(group, n, 8, f)
    }
    pub fn seq<F: Fn(u64, &mut Out) + Sync>(&self, group: &str, n: usize, f: F) {
        self.par_n(group, n, 1, f)
    }
    pub fn par_n<F: Fn(u64, &mut Out) + Sync>(&self, group: &str, n: usize, threads: usize, f: F) {
        let next = AtomicUsize::new(0);
        if let Some((g, _)) = &self.only {
            if g != group {
                return;
            }
        }
        std::thread::scope(|s| {
            for t in 0..threads.min(n).max(1) {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .name(format!("w{t}"))
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut clock: libc::clockid_t = 0;
                        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                        let slot = {
                            let mut v = self.slots.lock().unwrap();
                            v.push(Slot { clock, start_ns: 0, case: String::new(), active: false });
                            v.len() - 1
                        };
                        let journal = self.scratch.join(format!("journal.{slot}"));
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            if let Some((_, k)) = &self.only {
                                if *k != i as u64 {
                                    continue;
                                }
                            }
                            if self.over() {
                                self.total.lock().unwrap().skipped += 1;
                                continue;
                            }
                            let mut o = Out {
                                group: group.into(),
                                index: i as u64,
                                journal: Some(journal.clone()),
                                ..Default::default()
                            };
                            {
                                let mut v = self.slots.lock().unwrap();
                                v[slot].start_ns = cpu_ns(clock);
                                v[slot].case = format!("{group}#{i}");
                                v[slot].active = true;
                            }
                            let r = guard(|| f(i as u64, &mut o));
                            self.slots.lock().unwrap()[slot].active = false;
                            if let Err(p) = r {
                                if p.in_harness() {
                                    o.error(format!("{group}#{i} {}: {}", o.desc, p.text()));
                                } else {
                                    let sig = format!("panic:{}", short(&p.file));
                                    o.viol(sig, p.text());
                                }
                            }
                            self.merge(o);
                        }
                        let _ = std::fs::remove_file(&journal);
                    })
                    .expect("harness: cannot start a thread");
            }
        });
    }

    pub fn merge(&self, o: Out) {
        let mut t = self.total.lock().unwrap();
        t.evals += o.evals;
        *t.per_group.entry(o.group.clone()).or_insert(0) += o.evals;
        t.keys.extend(o.keys.iter());
        for (k, v) in o.counters {
            *t.counters.entry(k).or_insert(0) += v;
        }
        let from_group = t.samples.iter().filter(|s| s.starts_with(&format!("{}:", o.group))).count();
        if from_group < 2 {
            for s in o.samples.into_iter().take(2 - from_group) {
                t.samples.push(format!("{}: {}", o.group, s));
            }
        }
        t.viols.extend(o.viols);
        t.errors.extend(o.errors);
    }
}

pub fn short(f: &str) -> String {
    f.strip_prefix("/repo/").unwrap_or(f).to_string()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub run: fn(&Ctx),
    /// wall-clock budgets of the workload
    pub quick_s: u64,
    pub thorough_s: u64,
    /// memory limit of the worker (MiB); 0: none
    pub mem_mb: u64,
}

fn known(verif: &Path, pid: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let (p, sig, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == pid {
                    if let Some(s) = sig.strip_prefix("sig=") {
                        v.push((s.to_string(), what.to_string()));
                    }
                }
            }
        }
    }
    v
}

fn report(verif: &Path, pid: &str, tier: &str, seed: u64, v: &Viol, n: usize) -> String {
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{pid}-{n}.txt"));
    let _ = std::fs::write(
        &f,
        format!(
            "property={pid}\ntier={tier}\nseed={seed}\ncase={}\nsignature={}\n\n{}\n\nrerun: VERIF_SEED={seed} ./check.sh {pid} {tier} --only '{}'\n",
            v.case,
            v.sig,
            v.detail,
            v.case.split(' ').next().unwrap_or("")
        ),
    );
    println!("  {} [{}] {}", v.sig, clip(&v.case, 300), clip(&v.detail.replace('\n', " | "), 600));
    f.display().to_string()
}

/// Decide and write the evidence. Returns the exit code.
fn conclude(cx: &Ctx, p: &Prop, harness_panic: Option<String>) -> i32 {
    let t = std::mem::take(&mut *cx.total.lock().unwrap());
    let tier = if cx.quick() { "quick" } else { "thorough" };
    let known = known(&cx.verif, cx.pid);
    let mut new = vec![];
    let mut hit: BTreeMap<String, String> = BTreeMap::new();
    for v in &t.viols {
        match known.iter().find(|(s, _)| *s == v.sig) {
            Some((s, w)) => {
                hit.insert(s.clone(), w.clone());
            }
            None => new.push(v.clone()),
        }
    }
    for (_, w) in &hit {
        println!("KNOWN-FINDING: property={} {}", cx.pid, w);
    }
    let mut errors = t.errors.clone();
    if let Some(e) = harness_panic {
        errors.push(e);
    }
    let wall = cx.start.elapsed().as_secs_f64();
    if cx.only.is_none() {
        let mut e = String::new();
        let _ = write!(
            e,
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n",
            json_str(cx.pid),
            json_str(tier),
            cx.seed,
            json_str(p.level),
            t.evals,
            t.keys.len(),
            json_str(&cx.rule.lock().unwrap()),
            cx.exhaustive.load(Ordering::Relaxed),
        );
        let _ = write!(e, "  \"observed\": {{");
        for (i, (k, v)) in t.counters.iter().enumerate() {
            let _ = write!(e, "{}{}: {}", if i > 0 { ", " } else { "" }, json_str(k), v);
        }
        let _ = write!(e, "}},\n  \"evaluations_per_group\": {{");
        for (i, (k, v)) in t.per_group.iter().enumerate() {
            let _ = write!(e, "{}{}: {}", if i > 0 { ", " } else { "" }, json_str(k), v);
        }
        let _ = write!(e, "}},\n  \"cases_not_started_before_deadline\": {},\n  \"samples\": [", t.skipped);
        for (i, s) in t.samples.iter().enumerate() {
            let _ = write!(e, "{}\n   {}", if i > 0 { "," } else { "" }, json_str(&clip(s, 500)));
        }
        let _ = write!(e, "]\n }},\n \"assumptions\": [");
        for (i, s) in cx.assumptions.lock().unwrap().iter().enumerate() {
            let _ = write!(e, "{}{}", if i > 0 { ", " } else { "" }, json_str(s));
        }
        let _ = write!(e, "],\n \"wall_s\": {:.2},\n \"violations\": {},\n \"inconclusive\": {}\n}}\n", wall, new.len(), errors.len());
        let dir = cx.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(x) = std::fs::write(dir.join(format!("{}.json", cx.pid)), e) {
            eprintln!("cannot write evidence: {x}");
        }
    }
    println!(
        "{} {tier} seed={} evaluations={} distinct={} skipped={} violations={} known={} wall={:.1}s",
        cx.pid,
        cx.seed,
        t.evals,
        t.keys.len(),
        t.skipped,
        new.len(),
        hit.len(),
        wall
    );
    if std::env::var_os("VH_VERBOSE").is_some() {
        println!("{:?}\n{:?}", t.counters, t.per_group);
        for s in &t.samples {
            println!("  {s}");
        }
        for v in &new {
            println!("  V {} [{}] {}", v.sig, clip(&v.case, 100), clip(&v.detail, 400));
        }
    }
    if !new.is_empty() {
        let mut sigs = HashSet::new();
        let mut n = 0;
        for v in &new {
            if sigs.insert(v.sig.clone()) && n < 6 {
                let f = report(&cx.verif, cx.pid, tier, cx.seed, v, n);
                println!("VIOLATION property={} replay={}", cx.pid, f);
                n += 1;
            }
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            println!("INCONCLUSIVE property={} {}", cx.pid, clip(e, 800));
        }
        return 2;
    }
    if t.evals == 0 || (t.keys.is_empty() && cx.only.is_none()) {
        println!("INCONCLUSIVE property={} nothing was observed", cx.pid);
        return 2;
    }
    0
}

fn watchdog(cx: &'static Ctx, p: &'static Prop) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if cx.finished.load(Ordering::Relaxed) {
            return;
        }
        let lim = cx.hang_cpu_s.load(Ordering::Relaxed) * 1_000_000_000;
        let mut hung = None;
        {
            let v = cx.slots.lock().unwrap();
            for (i, s) in v.iter().enumerate() {
                if s.active {
                    let now = cpu_ns(s.clock);
                    if now > s.start_ns && now - s.start_ns > lim {
                        hung = Some((i, s.case.clone(), (now - s.start_ns) / 1_000_000_000));
                    }
                }
            }
        }
        if let Some((i, case, secs)) = hung {
            let desc = std::fs::read_to_string(cx.scratch.join(format!("journal.{i}"))).unwrap_or(case);
            cx.total.lock().unwrap().viols.push(Viol {
                sig: "does-not-terminate".into(),
                detail: format!("one case consumed {secs} s of CPU time without finishing"),
                case: desc,
            });
            let code = conclude(cx, p, None);
            std::process::exit(code);
        }
    });
}

pub fn worker(p: &'static Prop, tier: Tier, seed: u64, scratch: PathBuf, verif: PathBuf, repo: PathBuf, only: Option<(String, u64)>) -> i32 {
    install_hook();
    if p.mem_mb > 0 {
        let l = libc::rlimit { rlim_cur: p.mem_mb << 20, rlim_max: p.mem_mb << 20 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    let start = Instant::now();
    let budget = if tier == Tier::Quick { p.quick_s } else { p.thorough_s };
    let cx: &'static Ctx = Box::leak(Box::new(Ctx {
        pid: p.id,
        tier,
        seed,
        start,
        deadline: start + Duration::from_secs(budget),
        scratch,
        verif,
        repo,
        only,
        total: Default::default(),
        slots: Default::default(),
        finished: AtomicBool::new(false),
        seq: AtomicU64::new(0),
        rule: Default::default(),
        assumptions: Default::default(),
        exhaustive: AtomicBool::new(false),
        hang_cpu_s: AtomicU64::new(120),
    }));
    watchdog(cx, p);
    let r = guard(|| (p.run)(cx));
    cx.finished.store(true, Ordering::Relaxed);
    let mut herr = None;
    if let Err(pi) = r {
        if pi.in_harness() {
            herr = Some(pi.text());
        } else {
            cx.total.lock().unwrap().viols.push(Viol {
                sig: format!("panic:{}", short(&pi.file)),
                detail: pi.text(),
                case: "setup of the check".into(),
            });
        }
    }
    conclude(cx, p, herr)
}

pub fn scratch_dir() -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        let b = Path::new(base);
        if !b.is_dir() {
            continue;
        }
        if base == "/dev/shm" {
            // enough room?
            let mut st: libc::statvfs = unsafe { std::mem::zeroed() };
            let c = std::ffi::CString::new(base).unwrap();
            if unsafe { libc::statvfs(c.as_ptr(), &mut st) } != 0 || st.f_bavail as u64 * st.f_frsize as u64 <= 2 << 30 {
                continue;
            }
        }
        for k in 0..1000 {
            let d = b.join(format!("vharness.{}.{k}", std::process::id()));
            if std::fs::create_dir(&d).is_ok() {
                return d;
            }
        }
    }
    panic!("harness: no scratch directory")
}

pub fn supervise(p: &'static Prop, tier: Tier, seed: u64, verif: &Path, only: Option<String>) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let scratch = scratch_dir();
    let exe = std::env::current_exe().expect("exe");
    let start = Instant::now();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("--worker").arg(p.id).arg(tname).arg(seed.to_string()).arg(&scratch);
    if let Some(o) = &only {
        cmd.arg(o);
    }
    let mut child = cmd.spawn().expect("harness: cannot start the worker");
    let hard = Duration::from_secs(if tier == Tier::Quick { p.quick_s + 200 } else { p.thorough_s + 900 });
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        if start.elapsed() > hard {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let code = match status {
        None => {
            println!("INCONCLUSIVE property={} the worker did not end within {} s", p.id, hard.as_secs());
            2
        }
        Some(s) => match (s.code(), s.signal()) {
            (Some(c), _) => c,
            (_, Some(sig)) if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) => {
                let mut cases = vec![];
                if let Ok(rd) = std::fs::read_dir(&scratch) {
                    for e in rd.flatten() {
                        if e.file_name().to_string_lossy().starts_with("journal.") {
                            cases.push(std::fs::read_to_string(e.path()).unwrap_or_default());
                        }
                    }
                }
                let v = Viol {
                    sig: format!("process-killed-by-signal-{sig}"),
                    detail: format!("the process executing the library died of signal {sig}; cases being executed:\n{}", cases.join("\n")),
                    case: cases.first().cloned().unwrap_or_default(),
                };
                let f = report(verif, p.id, tname, seed, &v, 0);
                println!("VIOLATION property={} replay={}", p.id, f);
                let _ = std::fs::create_dir_all(verif.join("evidence"));
                let _ = std::fs::write(
                    verif.join("evidence").join(format!("{}.json", p.id)),
                    format!(
                        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {}, \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"worker died of a signal\", \"samples\": [{}]}}, \"wall_s\": {:.2}, \"violations\": 1}}\n",
                        json_str(p.id),
                        json_str(tname),
                        json_str(p.level),
                        json_str(&clip(&v.detail, 600)),
                        start.elapsed().as_secs_f64()
                    ),
                );
                1
            }
            (_, Some(sig)) => {
                println!("INCONCLUSIVE property={} the worker was ended by signal {sig}", p.id);
                2
            }
            _ => 2,
        },
    };
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
