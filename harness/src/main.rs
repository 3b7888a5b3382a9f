//! Native replay: runs the real, compiled functions of /repo (through the cfg(s2gpp_verif) hooks)
//! on generated inputs and compares them with an independent oracle. Used to (a) supply a concrete
//! failing input for a failed proof obligation, (b) validate the assumed contracts, (c) stand in,
//! labelled bounded, where a function is outside the verifier's reach.
#![allow(dead_code, unused_imports, unused_variables, clippy::all)]
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod rng {
    #[derive(Clone)]
    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        /// uniform in lo..=hi
        pub fn r(&mut self, lo: usize, hi: usize) -> usize {
            lo + (self.next() % ((hi - lo + 1) as u64)) as usize
        }
        pub fn b(&mut self) -> bool {
            self.next() & 1 == 1
        }
        /// uniform in [lo,hi)
        pub fn f(&mut self, lo: f32, hi: f32) -> f32 {
            lo + (hi - lo) * ((self.next() >> 40) as f32 / (1u64 << 24) as f32)
        }
        pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
            for i in (1..v.len()).rev() {
                let j = self.r(0, i);
                v.swap(i, j);
            }
        }
        pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
            &v[self.r(0, v.len() - 1)]
        }
    }
}
use rng::Rng;

#[derive(Default, Clone)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String)>,
    pub n_failures: u64,
    pub current: Option<(String, Instant)>,
    pub done: bool,
}

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    pub rep: Arc<Mutex<Report>>,
    pub start: Instant,
    pub budget: Duration,
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn any_panic_clear() {
    ANY_PANIC.lock().unwrap().clear();
}
/// message of the latest panic in any thread (actors run in arbiter threads)
pub fn any_panic() -> String {
    ANY_PANIC.lock().unwrap().clone()
}

impl Cx {
    /// time left for further random cases?
    pub fn more(&self) -> bool {
        self.start.elapsed() < self.budget && self.rep.lock().unwrap().n_failures < 20
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    /// One case. `f` returns Ok(nontrivial) or Err(what went wrong); a panic is a failure.
    pub fn case(&mut self, input: String, f: impl FnOnce() -> Result<bool, String>) {
        {
            let mut r = self.rep.lock().unwrap();
            r.evaluations += 1;
            r.current = Some((input.clone(), Instant::now()));
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let mut r = self.rep.lock().unwrap();
        r.current = None;
        match res {
            Ok(Ok(nt)) => {
                if nt {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    input.hash(&mut h);
                    let k = h.finish();
                    if r.nontrivial.insert(k) && (r.samples.len() < 2 || (k % 997 == 0 && r.samples.len() < 5)) {
                        let mut s = input;
                        if s.len() > 600 { s = s.chars().take(600).collect::<String>() + "…"; }
                        r.samples.push(s);
                    }
                }
            }
            Ok(Err(e)) => {
                r.n_failures += 1;
                if r.failures.len() < 5 { r.failures.push((input, e)); }
            }
            Err(_) => {
                r.n_failures += 1;
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                if r.failures.len() < 5 { r.failures.push((input, format!("panic: {}", m))); }
            }
        }
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/generated.rs"));

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let out = a[2].clone();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
    let budget = Duration::from_secs_f64(std::env::var("VERIF_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 120.0 } else { 8.0 }));
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        *ANY_PANIC.lock().unwrap() = m.clone();
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let mut js = vec![];
    let only = a.get(3).cloned();
    let mut hang = false;
    for (name, f) in LIST.iter() {
        if !name.to_uppercase().starts_with(&format!("{}_", prop.to_uppercase())) { continue; }
        if let Some(o) = &only { if o != name { continue; } }
        let rep = Arc::new(Mutex::new(Report::default()));
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (seed, *name).hash(&mut h);
        let r2 = rep.clone();
        let sd = h.finish();
        let f = *f;
        let t0 = Instant::now();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut cx = Cx { rng: Rng(sd), thorough, rep: r2.clone(), start: Instant::now(), budget };
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
            let mut r = r2.lock().unwrap();
            if res.is_err() {
                r.n_failures += 1;
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                r.failures.push(("(outside a case)".into(), format!("panic: {}", m)));
            }
            r.done = true;
        }).unwrap();
        loop {
            std::thread::sleep(Duration::from_millis(5));
            let mut r = rep.lock().unwrap();
            if r.done { break; }
            if let Some((i, t)) = r.current.clone() {
                if t.elapsed() > Duration::from_secs(90) {
                    r.n_failures += 1;
                    r.failures.push((i, "no result within 90 s (no answer for a case that takes milliseconds)".into()));
                    hang = true;
                    break;
                }
            }
        }
        let r = rep.lock().unwrap().clone();
        js.push(format!(
            "{{\"name\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"n_failures\":{},\"wall_s\":{:.2},\"samples\":[{}],\"failures\":[{}]}}",
            esc(name), r.evaluations, r.nontrivial.len(), r.n_failures, t0.elapsed().as_secs_f64(),
            r.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            r.failures.iter().map(|(a, b)| format!("{{\"input\":{},\"error\":{}}}", esc(a), esc(b))).collect::<Vec<_>>().join(",")
        ));
    }
    std::fs::write(&out, format!("[{}]", js.join(",\n"))).unwrap();
    let _ = hang;
    std::process::exit(0);
}
