//! Exploration driver, accounting, violations and evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// FNV-1a, stable from run to run.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final mix
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn fnv<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.finish()
}
pub fn bits(x: &[f64]) -> Vec<u64> {
    x.iter().map(|v| v.to_bits()).collect()
}

/// Accounting of one worker.
pub struct Loc {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub capped: u64,
    pub known: Vec<String>,
    listed: Arc<Vec<(String, String)>>,
    beat: Arc<AtomicU64>,
    family: u64,
    deadline: Instant,
}

impl Loc {
    /// A state reached (deduplicated by hash).
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, x: &T) {
        let h = fnv(x) ^ self.family;
        self.states.insert(h);
    }
    /// Is there no time left for the family?
    pub fn late(&self) -> bool {
        Instant::now() > self.deadline
    }
    /// `n` steps of the code under test.
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
        self.beat.fetch_add(1, Ordering::Relaxed);
    }
    /// One complete execution of the code under test compared with the oracle.
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
        self.beat.fetch_add(1, Ordering::Relaxed);
    }
    /// Is this deviation a listed finding of the property? If so it will be reported as such.
    pub fn finding(&mut self, id: &str) -> bool {
        let Some((_, text)) = self.listed.iter().find(|x| x.0 == id) else { return false };
        if !self.known.contains(text) {
            self.known.push(text.clone());
        }
        true
    }
    /// A distinct outcome observed.
    #[inline]
    pub fn outcome<T: Hash + ?Sized>(&mut self, x: &T) {
        let h = fnv(x) ^ self.family;
        self.outcomes.insert(h);
    }
}

struct FamilyStat {
    name: String,
    bounds: String,
    cases: usize,
    done: usize,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: u64,
    wall: f64,
}

pub struct Violation {
    pub family: String,
    pub case: usize,
    pub detail: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    only: Option<(String, usize)>,
    t0: Instant,
    deadline: Duration,
    families: Vec<FamilyStat>,
    samples: Vec<String>,
    pub assumptions: Vec<String>,
    violations: Vec<Violation>,
    known: Vec<String>,
    capped: u64,
    root: String,
    listed: Arc<Vec<(String, String)>>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        LAST_PANIC.with(|l| *l.borrow_mut() = msg.replace('\n', " "));
    }));
}

pub fn panic_text(e: &Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`, turning a panic into an error.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let l = LAST_PANIC.with(|l| l.borrow().clone());
        if l.is_empty() {
            panic_text(&e)
        } else {
            l
        }
    })
}

fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<f64>().ok()))
        .map(|p| p * 4096.0 / 1e9)
        .unwrap_or(0.0)
}

/// The findings of the property in known_findings.txt: id and text.
fn listed(property: &str, root: &str) -> Vec<(String, String)> {
    let file = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let start = format!("finding: property={} id=", property);
    file.lines()
        .filter_map(|l| l.strip_prefix(&start)?.split_once(' '))
        .map(|(id, text)| (id.to_string(), format!("{}: {}", id, text)))
        .collect()
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, only: Option<(String, usize)>, root: &str) -> Ctx {
        let threads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8))
            .clamp(1, 16);
        Ctx {
            id: id.to_string(),
            tier,
            seed,
            threads,
            only,
            t0: Instant::now(),
            deadline: Duration::from_secs(match tier {
                Tier::Quick => 500,
                Tier::Thorough => 6 * 3600,
            }),
            families: vec![],
            samples: vec![],
            assumptions: vec![],
            violations: vec![],
            known: vec![],
            capped: 0,
            root: root.to_string(),
            listed: Arc::new(listed(id, root)),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `quick` in the quick tier, `thorough` otherwise.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }

    pub fn known(&mut self, s: String) {
        if !self.known.contains(&s) {
            self.known.push(s);
        }
    }

    /// Explores the cases `0..n` of a family, each one by `f`.
    pub fn family<F>(&mut self, name: &str, bounds: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Loc) -> Res + Sync,
    {
        self.family_hang(name, bounds, n, 60, f)
    }

    /// As `family`; an execution silent for `hang` seconds is a violation.
    pub fn family_hang<F>(&mut self, name: &str, bounds: &str, n: usize, hang: u64, f: F)
    where
        F: Fn(usize, &mut Loc) -> Res + Sync,
    {
        let (lo, hi) = match &self.only {
            Some((fam, _)) if fam != name => return,
            Some((_, c)) => (*c, (*c + 1).min(n)),
            None => (0, n),
        };
        let t0 = Instant::now();
        let next = AtomicUsize::new(lo);
        let stop = AtomicBool::new(false);
        let finished = AtomicBool::new(false);
        let viol: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
        // one family may not use up the time of the others
        let deadline = (self.t0 + self.deadline).min(t0 + self.deadline * 3 / 5);
        let nthreads = self.threads.min(hi - lo).max(1);
        let slots: Vec<(Arc<AtomicU64>, AtomicUsize)> = (0..nthreads)
            .map(|_| (Arc::new(AtomicU64::new(0)), AtomicUsize::new(usize::MAX)))
            .collect();
        let famhash = fnv(name);
        let out: Mutex<Vec<Loc>> = Mutex::new(vec![]);
        let done = AtomicUsize::new(0);
        let chunk = ((hi - lo) / (nthreads * 64)).clamp(1, 256);

        std::thread::scope(|scope| {
            let mut hs = vec![];
            for (beat, at) in slots.iter() {
                let listed = self.listed.clone();
                let (next, stop, viol, out, done, f) = (&next, &stop, &viol, &out, &done, &f);
                hs.push(scope.spawn(move || {
                    let mut l = Loc {
                        states: HashSet::new(),
                        transitions: 0,
                        traces: 0,
                        outcomes: HashSet::new(),
                        capped: 0,
                        known: vec![],
                        listed: listed.clone(),
                        beat: beat.clone(),
                        family: famhash,
                        deadline,
                    };
                    'outer: loop {
                        let c0 = next.fetch_add(chunk, Ordering::Relaxed);
                        if c0 >= hi {
                            break;
                        }
                        for c in c0..(c0 + chunk).min(hi) {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if Instant::now() > deadline {
                                l.capped += 1;
                                break 'outer;
                            }
                            at.store(c, Ordering::Relaxed);
                            beat.fetch_add(1, Ordering::Relaxed);
                            crate::model::surroundings(c);
                            let r = match guard(|| f(c, &mut l)) {
                                Ok(r) => r,
                                Err(p) => Err(format!("unexpected panic: {}", p)),
                            };
                            rand_chacha::script::stop();
                            at.store(usize::MAX, Ordering::Relaxed);
                            done.fetch_add(1, Ordering::Relaxed);
                            if let Err(e) = r {
                                viol.lock().unwrap().push((c, e));
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    at.store(usize::MAX, Ordering::Relaxed);
                    out.lock().unwrap().push(l);
                }));
            }
            // Watchdog.
            let slots = &slots;
            let finished_ref = &finished;
            let this: &Ctx = &*self;
            let wd = scope.spawn(move || {
                let mut last: Vec<(u64, Instant)> =
                    slots.iter().map(|_| (0, Instant::now())).collect();
                while !finished_ref.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(500));
                    for (i, (beat, at)) in slots.iter().enumerate() {
                        let b = beat.load(Ordering::Relaxed);
                        let c = at.load(Ordering::Relaxed);
                        if b != last[i].0 || c == usize::MAX {
                            last[i] = (b, Instant::now());
                        } else if last[i].1.elapsed() > Duration::from_secs(hang) {
                            this.die(name, c, &format!("no answer within {} s (endless loop or deadlock)", hang));
                        }
                    }
                    if rss_gb() > 16.0 {
                        let c = slots
                            .iter()
                            .map(|x| x.1.load(Ordering::Relaxed))
                            .find(|x| *x != usize::MAX)
                            .unwrap_or(0);
                        this.die(name, c, "memory grows without bound");
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            finished.store(true, Ordering::Relaxed);
            wd.thread().unpark();
        });

        let mut st = FamilyStat {
            name: name.to_string(),
            bounds: bounds.to_string(),
            cases: hi - lo,
            done: done.load(Ordering::Relaxed),
            states: 0,
            transitions: 0,
            traces: 0,
            outcomes: 0,
            wall: 0.0,
        };
        let mut states: HashSet<u64> = HashSet::new();
        let mut outcomes: HashSet<u64> = HashSet::new();
        for l in out.into_inner().unwrap() {
            if states.is_empty() {
                states = l.states;
            } else {
                states.extend(l.states);
            }
            if outcomes.is_empty() {
                outcomes = l.outcomes;
            } else {
                outcomes.extend(l.outcomes);
            }
            st.transitions += l.transitions;
            st.traces += l.traces;
            self.capped += l.capped;
            for k in l.known {
                self.known(k);
            }
        }
        st.states = states.len() as u64;
        st.outcomes = outcomes.len() as u64;
        st.wall = t0.elapsed().as_secs_f64();
        let mut v = viol.into_inner().unwrap();
        v.sort();
        if let Some((c, e)) = v.into_iter().next() {
            self.violations.push(Violation { family: name.to_string(), case: c, detail: e });
        }
        self.families.push(st);
    }

    fn replay_path(&self, n: usize) -> String {
        format!("{}/replays/{}-{}.json", self.root, self.id, n)
    }

    fn write_violation(&self, n: usize, family: &str, case: usize, detail: &str) {
        let _ = std::fs::create_dir_all(format!("{}/replays", self.root));
        let p = self.replay_path(n);
        let _ = std::fs::write(
            &p,
            format!(
                "{{\n \"property\": {},\n \"family\": {},\n \"case\": {},\n \"tier\": {},\n \"detail\": {},\n \"replay\": {}\n}}\n",
                json_str(&self.id),
                json_str(family),
                case,
                json_str(self.tier_name()),
                json_str(detail),
                json_str(&format!("/verif/check.sh {} --replay {}", self.id, p)),
            ),
        );
        println!("{}: {} case {}: {}", self.id, family, case, detail);
        println!("VIOLATION property={} replay={}", self.id, p);
    }

    /// A violation from which the process can not go on (hang, memory).
    fn die(&self, family: &str, case: usize, detail: &str) -> ! {
        self.write_violation(0, family, case, detail);
        self.write_evidence(1);
        std::process::exit(1);
    }

    fn tier_name(&self) -> &'static str {
        match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }

    fn write_evidence(&self, violations: usize) {
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        let mut fam = String::new();
        let (mut s, mut t, mut tr, mut o) = (0, 0, 0, 0);
        let mut complete = self.capped == 0 && violations == 0 && self.only.is_none();
        for (i, f) in self.families.iter().enumerate() {
            s += f.states;
            t += f.transitions;
            tr += f.traces;
            o += f.outcomes;
            complete &= f.done == f.cases;
            fam += &format!(
                "{}   {{\"family\": {}, \"bounds\": {}, \"cases\": {}, \"cases_completed\": {}, \"distinct_states\": {}, \"transitions\": {}, \"executions\": {}, \"distinct_outcomes\": {}, \"wall_s\": {:.2}}}",
                if i > 0 { ",\n" } else { "" },
                json_str(&f.name),
                json_str(&f.bounds),
                f.cases,
                f.done,
                f.states,
                f.transitions,
                f.traces,
                f.outcomes,
                f.wall
            );
        }
        let list = |v: &Vec<String>| {
            v.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",\n   ")
        };
        let text = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"explanation\": \"executions of the compiled implementation itself, each compared with the reference model; every family is enumerated completely within its bounds unless exhaustive is false\",\n  \"families\": [\n{}\n  ],\n  \"known_findings\": [{}],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [\n   {}\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            json_str(&self.id),
            json_str(self.tier_name()),
            self.seed,
            s,
            t,
            tr,
            o,
            complete,
            fam,
            list(&self.known),
            list(&self.samples),
            list(&self.assumptions),
            self.t0.elapsed().as_secs_f64(),
            violations
        );
        let p = format!("{}/evidence/{}.json", self.root, self.id);
        let _ = std::fs::write(p, text);
    }

    pub fn finish(self) -> i32 {
        for k in &self.known {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        let n = self.violations.len();
        for (i, v) in self.violations.iter().enumerate() {
            self.write_violation(i, &v.family, v.case, &v.detail);
        }
        if self.only.is_none() {
            self.write_evidence(n);
        }
        for f in &self.families {
            println!(
                "{} {:28} cases={}/{} states={} transitions={} executions={} outcomes={} {:.1}s",
                self.id, f.name, f.done, f.cases, f.states, f.transitions, f.traces, f.outcomes, f.wall
            );
        }
        if n > 0 {
            1
        } else {
            if self.capped > 0 {
                println!("{}: stopped at the time limit, not exhaustive", self.id);
            }
            println!("{}: OK ({:.1}s)", self.id, self.t0.elapsed().as_secs_f64());
            0
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Mixed radix decoding: the case number as a list of digits.
pub fn digits(mut c: usize, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = c % r;
            c /= r;
            d
        })
        .collect()
}
pub fn prod(r: &[usize]) -> usize {
    r.iter().product()
}

/// |a-b| within `rel` of the magnitude (or both the same infinity).
pub fn close(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * (1.0_f64).max(a.abs()).max(b.abs())
}
