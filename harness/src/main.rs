//! nsh: replays and searches for inputs that violate a property of nanoserde, against the real crate.
mod arrays;
mod bin;
mod cat;
mod derived;
mod gen;
#[macro_use]
mod tmac;
mod json;
mod ron;
mod text;
mod textfmt;
mod times;
mod toml;

use gen::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub struct Counting;
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub const LIMIT: usize = 3 << 30;
thread_local! { static MINE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) }; }
fn mine(n: isize) {
    let _ = MINE.try_with(|m| m.set(m.get() + n));
}
/// bytes this thread has allocated and not freed (the watchdog thread allocates too)
pub fn held() -> isize {
    MINE.with(|m| m.get())
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        if c > LIMIT {
            return std::ptr::null_mut(); // handle_alloc_error aborts; the parent reports the recorded case
        }
        mine(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        mine(-(l.size() as isize));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// one test case
pub struct Ctx {
    pub r: Rng,
    pub size: usize,
    pub note: String,
    pub hash: u64,
    pub nontrivial: bool,
}
impl Ctx {
    pub fn note(&mut self, s: impl Into<String>) {
        self.note = s.into();
    }
    pub fn mark(&mut self, b: &[u8], nontrivial: bool) {
        let mut h = self.hash ^ 0xcbf29ce484222325;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = h;
        self.nontrivial |= nontrivial;
    }
}
pub type Res = Result<(), String>;
pub type Sub = (&'static str, u32, fn(&mut Ctx) -> Res);

#[macro_export]
macro_rules! chk {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn subs(p: &str) -> Vec<Sub> {
    match p {
        "C01" => bin::c01(),
        "C02" => bin::c02(),
        "C03" => bin::c03(),
        "C04" => bin::c04(),
        "C05" => json::c05(),
        "C06" => json::c06(),
        "C07" => json::c07(),
        "C08" => json::c08(),
        "C09" => json::c09(),
        "C10" => json::c10(),
        "C11" => ron::c11(),
        "C12" => ron::c12(),
        "C13" => ron::c13(),
        "C14" => ron::c14(),
        "C15" => toml::c15(),
        "C16" => toml::c16(),
        "C17" => derived::c17(),
        "C18" => derived::c18(),
        "C19" => derived::c19(),
        "C20" => arrays::c20(),
        "C21" => times::c21(),
        "C22" => text::c22(),
        _ => panic!("unknown property {p}"),
    }
}

thread_local! { static MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

fn run_case(f: fn(&mut Ctx) -> Res, seed: u64, size: usize) -> (Ctx, Res) {
    gen::new_case();
    let mut c = Ctx { r: Rng::new(seed), size, note: String::new(), hash: 0, nontrivial: false };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", MSG.with(|m| m.borrow().clone()))),
    };
    (c, r)
}

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn fail(prop: &str, sub: &str, seed: u64, size: usize, note: &str, why: &str) -> ! {
    let n: String = note.chars().take(4000).collect();
    let w: String = why.chars().take(4000).collect();
    println!("FAIL {{\"property\":{},\"sub\":{},\"case\":{},\"size\":{},\"input\":{},\"failure\":{}}}", esc(prop), esc(sub), seed, size, esc(&n), esc(&w));
    std::process::exit(1);
}

static TICK: AtomicU64 = AtomicU64::new(0);
static SUBNO: AtomicUsize = AtomicUsize::new(0);
static CSEED: AtomicU64 = AtomicU64::new(0);
static CSIZE: AtomicUsize = AtomicUsize::new(0);

fn body(args: Vec<String>) {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        MSG.with(|m| *m.borrow_mut() = s);
    }));
    let prop = args[2].clone();
    let ss = subs(&prop);
    let hang = Duration::from_secs(std::env::var("NSH_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(20));
    {
        let prop = prop.clone();
        let names: Vec<&'static str> = ss.iter().map(|s| s.0).collect();
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let t = TICK.load(Relaxed);
                if t != last.0 {
                    last = (t, Instant::now());
                } else if t != 0 && last.1.elapsed() > hang {
                    fail(&prop, names[SUBNO.load(Relaxed)], CSEED.load(Relaxed), CSIZE.load(Relaxed), "(see case seed)", "did not terminate");
                }
            }
        });
    }
    if args[1] == "replay" {
        let sub = &args[3];
        let seed: u64 = args[4].parse().unwrap();
        let size: usize = args[5].parse().unwrap();
        let (i, s) = ss.iter().enumerate().find(|(_, s)| s.0 == sub).expect("sub");
        SUBNO.store(i, Relaxed);
        CSEED.store(seed, Relaxed);
        CSIZE.store(size, Relaxed);
        TICK.store(1, Relaxed);
        let (c, r) = run_case(s.2, seed, size);
        println!("input: {}", c.note);
        match r {
            Ok(()) => {
                println!("HOLDS");
            }
            Err(e) => fail(&prop, sub, seed, size, &c.note, &e),
        }
        return;
    }
    // search PROP SEED SECS CRASHFILE
    let seed: u64 = args[3].parse().unwrap();
    let secs: f64 = args[4].parse().unwrap();
    let cf = std::fs::File::create(&args[5]).unwrap();
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut per: Vec<u64> = vec![0; ss.len()];
    let total: u32 = ss.iter().map(|s| s.1).sum();
    let mut master = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5bd1e995);
    let mut round = 0u64;
    loop {
        // each sub first runs its deterministic cases 0..n (size grows), then random ones
        for (i, s) in ss.iter().enumerate() {
            let reps = (s.1 as u64 * 64 / total as u64).max(1);
            for k in 0..reps {
                let cs = if seed == 1 || round > 0 { per[i] ^ if round > 200 { master.next() } else { seed.wrapping_sub(1).wrapping_mul(0x1000003) } } else { master.next() };
                let size = [1, 2, 3, 5, 8, 13, 20, 40][((per[i] + k) % 8) as usize];
                per[i] += 1;
                SUBNO.store(i, Relaxed);
                CSEED.store(cs, Relaxed);
                CSIZE.store(size, Relaxed);
                TICK.fetch_add(1, Relaxed);
                let mut line = format!("{} {} {}", s.0, cs, size);
                line.push_str(&" ".repeat(96 - line.len().min(96)));
                line.push('\n');
                let _ = cf.write_all_at(line.as_bytes(), 0);
                let (c, r) = run_case(s.2, cs, size);
                evals += 1;
                if c.nontrivial && distinct.len() < 3_000_000 {
                    distinct.insert(c.hash ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15));
                }
                if samples.len() < 6 && c.nontrivial && evals % 97 == 5 {
                    samples.push(format!("{}: {}", s.0, c.note.chars().take(160).collect::<String>()));
                }
                if let Err(e) = r {
                    // look for a smaller failing case of the same sub-property
                    let mut best = (cs, size, c.note.clone(), e);
                    let t1 = Instant::now();
                    'o: for sz in 1..size {
                        for q in 0..300u64 {
                            if t1.elapsed() > Duration::from_secs(3) {
                                break 'o;
                            }
                            TICK.fetch_add(1, Relaxed);
                            let (c, r) = run_case(s.2, q, sz);
                            if let Err(e) = r {
                                best = (q, sz, c.note, e);
                                break 'o;
                            }
                        }
                    }
                    fail(&prop, s.0, best.0, best.1, &best.2, &best.3);
                }
            }
        }
        round += 1;
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    println!(
        "OK {{\"evaluations\":{},\"distinct\":{},\"subs\":{},\"samples\":[{}]}}",
        evals,
        distinct.len(),
        serde_json::Value::Object(ss.iter().zip(&per).map(|(s, n)| (s.0.to_string(), (*n).into())).collect()),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    );
    std::process::exit(0);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || body(args)).unwrap().join().unwrap();
}
