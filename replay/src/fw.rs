//! Replay framework: contracts evaluated on the compiled code.
use rand::{Rng, SeedableRng};
pub use rand_chacha::ChaCha8Rng as R;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Ok(true): a case was evaluated; Ok(false): nothing to do; Err((key, input))
pub type Out = Result<bool, (String, String)>;
pub struct Case {
    pub name: String,
    /// number of iterations after which the case is complete (usize::MAX: random, unlimited)
    pub max: usize,
    pub f: Box<dyn Fn(&mut R, usize) -> Out + Send + Sync>,
}
pub fn case<F: Fn(&mut R, usize) -> Out + Send + Sync + 'static>(v: &mut Vec<Case>, name: &str, max: usize, f: F) {
    v.push(Case { name: name.to_string(), max, f: Box::new(f) });
}
/// random, unlimited
pub fn rnd<F: Fn(&mut R, usize) -> Out + Send + Sync + 'static>(v: &mut Vec<Case>, name: &str, f: F) {
    case(v, name, usize::MAX, f);
}
pub fn fail<T: Into<String>, U: Into<String>>(key: T, input: U) -> Out { Err((key.into(), input.into())) }

#[macro_export]
macro_rules! ck {
    ($key:expr, $cond:expr, $($arg:tt)*) => { if !$cond { return Err(($key.to_string(), format!($($arg)*))); } };
}

thread_local!(pub static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
/// remembers the input of the current case, reported if the code panics
pub fn note<S: Into<String>>(s: S) { let s = s.into(); LAST.with(|l| *l.borrow_mut() = s); }
/// Ok(value) or Err(panic message)
pub fn trap<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".to_string() }
    })
}
pub fn h64(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
pub fn rng_for(seed: u64, name: &str, i: usize) -> R {
    R::seed_from_u64(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ h64(name) ^ (i as u64).wrapping_mul(0xD1B54A32D192ED03))
}

pub fn run_one(c: &Case, seed: u64, i: usize) -> Out {
    let mut r = rng_for(seed, &c.name, i);
    note("");
    match trap(|| (c.f)(&mut r, i)) {
        Ok(o) => o,
        Err(m) => { let l = LAST.with(|l| l.borrow().clone()); Err((format!("{}/panic", c.name), format!("panicked: {} ; input {}", m.replace('\n', " "), l))) }
    }
}

pub fn run(cases: Vec<Case>, seed: u64, secs: u64, threads: usize) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let n = cases.len();
    let cases = Arc::new(cases);
    let deadline = Instant::now() + Duration::from_secs(secs);
    let counts: Arc<Vec<std::sync::atomic::AtomicUsize>> = Arc::new((0..n).map(|_| Default::default()).collect());
    let next: Arc<Vec<std::sync::atomic::AtomicUsize>> = Arc::new((0..n).map(|_| Default::default()).collect());
    let spent: Arc<Vec<std::sync::atomic::AtomicU64>> = Arc::new((0..n).map(|_| Default::default()).collect());
    let fails: Arc<Mutex<Vec<(String, String, String)>>> = Default::default();
    let cur: Arc<Vec<Mutex<Option<(usize, usize, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
    use std::sync::atomic::Ordering::SeqCst;
    let mut hs = vec![];
    for t in 0..threads {
        let (cases, counts, next, spent, fails, cur) = (cases.clone(), counts.clone(), next.clone(), spent.clone(), fails.clone(), cur.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut idle;
            loop {
                idle = true;
                // first pass in order (rotated by thread), then the case with the least time spent
                let mut order: Vec<usize> = (0..n).collect();
                order.sort_by_key(|&k| (spent[k].load(SeqCst), (k + t) % n));
                for &k in order.iter().take(if n > 8 { n / 2 + 1 } else { n }) {
                    let c = &cases[k];
                    if Instant::now() > deadline && next[k].load(SeqCst) > 0 { continue; }
                    if fails.lock().unwrap().iter().filter(|f| f.0 == c.name).count() >= 3 { continue; }
                    let i = next[k].fetch_add(1, SeqCst);
                    if i >= c.max { next[k].store(c.max, SeqCst); spent[k].store(u64::MAX / 2, SeqCst); continue; }
                    idle = false;
                    let t0 = Instant::now();
                    *cur[t].lock().unwrap() = Some((k, i, t0));
                    let o = run_one(c, seed, i);
                    *cur[t].lock().unwrap() = None;
                    spent[k].fetch_add(t0.elapsed().as_micros() as u64 + 1, SeqCst);
                    match o {
                        Ok(true) => { counts[k].fetch_add(1, SeqCst); }
                        Ok(false) => {}
                        Err((key, inp)) => {
                            counts[k].fetch_add(1, SeqCst);
                            let mut f = fails.lock().unwrap();
                            if !f.iter().any(|x| x.1 == key) { f.push((c.name.clone(), key, format!("{} [seed {} case {} iteration {}]", inp, seed, c.name, i))); }
                        }
                    }
                }
                if idle || Instant::now() > deadline && (0..n).all(|k| next[k].load(SeqCst) > 0) { break; }
            }
        }).unwrap());
    }
    {
        let (cases, cur, done) = (cases.clone(), cur.clone(), done.clone());
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if done.load(SeqCst) { return; }
                for c in cur.iter() {
                    let v = *c.lock().unwrap();
                    if let Some((k, i, t)) = v {
                        if t.elapsed() > Duration::from_secs(100) {
                            println!("FAIL {} | {}/hang | does not terminate within 100 s [seed {} iteration {}]", cases[k].name, cases[k].name, seed, i);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    }
    for h in hs { let _ = h.join(); }
    done.store(true, SeqCst);
    for k in 0..n { println!("CASES {} {}", cases[k].name, counts[k].load(SeqCst)); }
    for k in 0..n.min(8) { println!("SAMPLE {} iterations 0..{} with per-case rng seed ({}, name, iteration)", cases[k].name, next[k].load(SeqCst), seed); }
    let f = fails.lock().unwrap();
    for (a, b, c) in f.iter() { println!("FAIL {} | {} | {}", a, b, c.replace('\n', " ").chars().take(1500).collect::<String>()); }
    if f.is_empty() { 0 } else { 1 }
}
pub fn coin(r: &mut R, n: usize) -> bool { r.gen_range(0, n) == 0 }
