//! Reads files, whatever they contain, completely, and reports how that ended: one line for
//! every path received on the standard input. Used as a process of its own (it may die),
//! with and without AddressSanitizer.
use crate::alloc;
use oxyroot::rbase::TObjString;
use oxyroot::rcont::list::ReaderList;
use oxyroot::rcont::tmap::TMap;
use oxyroot::{Branch, Named, Object, ReaderTree, RootFile, SizedSlice, Slice};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

#[derive(Default)]
pub struct Seen {
    /// where the reading stopped: place of the panic, or text of the error
    ends: BTreeSet<String>,
    n: BTreeMap<&'static str, u64>,
}

impl Seen {
    fn add(&mut self, k: &'static str, n: u64) {
        *self.n.entry(k).or_insert(0) += n;
    }
    fn run<T>(&mut self, what: &'static str, f: impl FnOnce(&mut Seen) -> Result<T, String>) -> Option<T> {
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        match r {
            Ok(Ok(v)) => Some(v),
            Ok(Err(e)) => {
                self.add("errors", 1);
                let e: String = e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                self.ends.insert(format!("{what} error {e}"));
                None
            }
            Err(_) => {
                self.add("panics", 1);
                let p = std::mem::take(&mut *PANIC.lock().unwrap());
                self.ends.insert(format!("{what} panic {p}"));
                None
            }
        }
    }
}

/// Reading everything is quadratic in what a damaged file says; the number of
/// iterators made for one file is limited.
const TOO_MANY: u64 = 3000;

fn iter<T: oxyroot::UnmarshalerInto<Item = T> + 'static>(b: &Branch, s: &mut Seen) {
    s.run("as_iter", |s| {
        if let Ok(i) = b.as_iter::<T>() {
            let mut n = 0;
            i.for_each(|_| n += 1);
            s.add("columns read", 1);
            s.add("values", n);
        }
        Ok(())
    });
}

fn unchecked<T: oxyroot::UnmarshalerInto<Item = T> + 'static>(b: &Branch, s: &mut Seen) {
    s.run("as_iter_unchecked", |s| {
        let n = b.as_iter_unchecked::<T>().count() as u64;
        s.add("columns read as another type", 1);
        s.add("values", n);
        Ok(())
    });
}

macro_rules! all {
    ($b:expr, $s:expr; $($t:ty),*) => { $( iter::<$t>($b, $s); )* };
}
macro_rules! one_of {
    ($k:expr, $b:expr, $s:expr; $($t:ty),*) => {{ let mut _n = 0; $( if $k == _n { unchecked::<$t>($b, $s); } _n += 1; )* }};
}

fn column(b: &Branch, k: u64, s: &mut Seen) {
    s.run("name", |_| {
        let _ = (b.name().len(), b.class().len(), b.entries(), b.item_type_name().len());
        Ok(())
    });
    s.run("interpretation", |_| Ok(b.interpretation().len()));
    s.run("branches", |_| {
        let _ = b.branches().map(|b| b.name().len()).sum::<usize>() + b.branches_r().len();
        Ok(b.branch("nothing of this name").is_some())
    });
    all!(b, s; i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool, String);
    all!(b, s; Vec<i8>, Vec<u8>, Vec<i16>, Vec<u16>, Vec<i32>, Vec<u32>, Vec<i64>, Vec<u64>, Vec<f32>, Vec<f64>, Vec<bool>, Vec<String>);
    all!(b, s; Slice<i8>, Slice<u8>, Slice<i16>, Slice<u16>, Slice<i32>, Slice<u32>, Slice<i64>, Slice<u64>, Slice<f32>, Slice<f64>, Slice<bool>);
    all!(b, s; [i32; 2], [i32; 3], [f64; 2], [u8; 16], [bool; 4], [f32; 10], [i16; 3]);
    all!(b, s; Vec<Vec<i32>>, Vec<Vec<f64>>, Vec<Vec<String>>, Vec<Vec<Vec<i16>>>, Vec<HashSet<i32>>, Vec<HashSet<String>>);
    all!(b, s; HashSet<i16>, HashSet<i32>, HashSet<String>, HashMap<i32, f64>, HashMap<i32, i16>, HashMap<String, String>);
    all!(b, s; HashMap<i16, Vec<i16>>, HashMap<String, Vec<f64>>, HashMap<i16, Vec<Vec<i16>>>, HashMap<i32, HashSet<i16>>, SizedSlice<u16>);
    one_of!(k % 12, b, s; i64, String, Vec<i32>, Vec<u8>, Vec<String>, Slice<f64>, Slice<u8>, HashMap<i32, f64>, HashMap<String, Vec<f64>>, Vec<Vec<HashSet<i32>>>, [f64; 3], SizedSlice<i16>);
    s.run("get_basket", |s| {
        let mut k = 0_u64;
        let n = b
            .get_basket(|r| {
                let v: Result<i32, _> = r.read_object_into::<i32>();
                k += v.is_ok() as u64;
            })
            .count() as u64;
        s.add("blocks handed out", n);
        Ok(())
    });
}

fn info(l: &ReaderList, depth: usize, s: &mut Seen) {
    for i in 0..l.len().min(1000) {
        s.add("metadata", 1);
        s.run("metadata", |_| Ok(l.at::<TObjString>(i).to_string().len()));
        s.run("metadata", |_| Ok(l.at::<TMap>(i).get::<TObjString>(&oxyroot::rcont::tmap::Key::String("a".into())).is_some()));
        if depth < 100 {
            let _ = catch_unwind(AssertUnwindSafe(|| info(l.at::<ReaderList>(i), depth + 1, s)));
        }
    }
}

fn tree(t: &ReaderTree, salt: u64, s: &mut Seen) {
    s.run("entries", |_| Ok(t.entries()));
    s.run("show", |_| {
        t.show();
        Ok(())
    });
    s.run("user_info", |s| {
        if let Some(l) = t.user_info() {
            info(l, 0, s);
        }
        Ok(())
    });
    let bs = s.run("branches_r", |_| Ok(t.branches_r())).unwrap_or_default();
    s.add("columns", bs.len() as u64);
    for (i, b) in bs.iter().enumerate() {
        if s.n["columns"] > TOO_MANY {
            break;
        }
        if i < 100 {
            s.run("branch", |_| Ok(t.branch(b.name()).is_some()));
        }
        column(b, salt.wrapping_add(i as u64), s);
    }
}

pub fn exercise(path: &str, salt: u64) -> Seen {
    let mut s = Seen::default();
    let f = s.run("open", |_| RootFile::open(path).map_err(|e| e.to_string()));
    let Some(mut f) = f else { return s };
    s.add("opened", 1);
    s.run("file", |_| {
        let _ = f.compression();
        let _ = f.keys().iter().map(|k| (k.name().len(), k.title().len(), k.class().len(), k.n_bytes(), k.seek_key())).count();
        Ok(())
    });
    let names: Vec<String> = s.run("keys", |_| Ok(f.keys_name().map(|s| s.to_string()).collect::<Vec<_>>())).unwrap_or_default();
    s.add("keys", names.len() as u64);
    let mut done = HashSet::new();
    for n in names {
        if !done.insert(n.clone()) || done.len() > 50 {
            continue;
        }
        let t = s.run("get_tree", |_| f.get_tree(&n).map_err(|e| e.to_string()));
        if let Some(t) = t {
            s.add("trees", 1);
            tree(&t, salt, &mut s);
        }
    }
    s
}

fn cpu_now() -> u64 {
    let mut u: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut u) };
    (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as u64 + 1
}

/// args: CPU seconds per file, MB of address space (0: no limit), KB of stack
pub fn serve(a: &[String]) {
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    let (cpu_s, as_mb, stack) = (num(0), num(1), num(2) as usize * 1024);
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
        if as_mb > 0 {
            let l = libc::rlimit { rlim_cur: as_mb << 20, rlim_max: as_mb << 20 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
    }
    // show() prints; the replies go to a copy of the descriptor
    let (mut reply, stdin) = unsafe {
        use std::os::fd::FromRawFd;
        let d = libc::dup(1);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        (std::fs::File::from_raw_fd(d), std::io::stdin())
    };
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit("src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap() = l;
    }));
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let (salt, path) = line.split_once(' ').expect("salt and path");
        let (salt, path) = (salt.parse().expect("salt"), path.to_string());
        unsafe {
            let l = libc::rlimit { rlim_cur: cpu_now() + cpu_s, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
        let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
            alloc::reset();
            let s = exercise(&path, salt);
            (s, alloc::biggest(), alloc::peak())
        });
        let out = match h.expect("thread").join() {
            Ok((s, big, peak)) => {
                let n: Vec<String> = s.n.iter().map(|(k, v)| format!("{k}={v}")).collect();
                let e: Vec<String> = s.ends.into_iter().map(|e| e.replace(['\t', '\n', '|'], " ")).collect();
                format!("ok\t{big}\t{peak}\t{}\t{}\n", n.join("|"), e.join("|"))
            }
            Err(_) => "escaped\n".to_string(),
        };
        if reply.write_all(out.as_bytes()).is_err() {
            break;
        }
    }
}
