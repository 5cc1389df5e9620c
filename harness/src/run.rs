//! Runs the spaces of a check: exhaustive exploration, verdicts, replay files and evidence.
use crate::doc::{Doc, Plan};
use crate::explore::{explore, Ch};
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Case {
    pub doc: Doc,
    pub plan: Plan,
    /// Free parameters of the judge.
    pub aux: Vec<u64>,
}

impl From<Doc> for Case {
    fn from(doc: Doc) -> Case {
        Case { doc, plan: Plan::default(), aux: vec![] }
    }
}

pub type Body = dyn Fn(&mut Ch) -> Option<Case> + Sync + Send;
pub type Judge = dyn Fn(&W, &Case) -> Verdict + Sync + Send;
/// The observed outcome, or what is wrong.
pub type Verdict = Result<u64, String>;

pub struct Space {
    pub name: String,
    pub body: std::sync::Arc<Body>,
    pub judge: std::sync::Arc<Judge>,
}

/// What a worker may use while judging.
pub struct W<'a> {
    pub ctx: &'a Ctx,
    pub id: usize,
}

impl W<'_> {
    /// Tells the watchdog that a long case makes progress.
    pub fn beat(&self) {
        self.ctx.slots[self.id].started_ms.store(self.ctx.now_ms(), Ordering::Relaxed);
    }
}

#[derive(Default)]
struct Slot {
    started_ms: AtomicU64,
    what: Mutex<(usize, Vec<u32>)>,
}

#[derive(Default)]
struct Tally {
    sample: Option<(usize, u64, String)>,
    hashes: Vec<u64>,
    outcomes: BTreeMap<u64, u64>,
    executions: u64,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub root: PathBuf,
    pub scratch: PathBuf,
    t0: Instant,
    slots: Vec<Slot>,
    tallies: Vec<Mutex<Tally>>,
    pub stop: AtomicBool,
    violation: Mutex<Vec<(usize, Vec<u32>, String, Option<Case>)>>,
    trace: Option<PathBuf>,
    /// In the thorough tier, the states visited: a bit per hash, modulo the size of the table.
    visited: Vec<AtomicU64>,
    pub extra_exec: AtomicU64,
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn silent_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}

/// Runs code under check, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
}

pub const HANG: Duration = Duration::from_secs(40);

impl Ctx {
    pub fn new(id: &str, thorough: bool) -> Ctx {
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
        let root = PathBuf::from(std::env::var("FFMC_ROOT").unwrap_or_else(|_| "/verif".into()));
        let scratch = std::env::temp_dir().join(format!("ffmc-{}-{}", id, std::process::id()));
        Ctx {
            id: id.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            threads,
            root,
            scratch,
            t0: Instant::now(),
            slots: (0..threads + 1).map(|_| Slot::default()).collect(),
            tallies: (0..threads + 1).map(|_| Mutex::default()).collect(),
            stop: AtomicBool::new(false),
            violation: Mutex::default(),
            trace: std::env::var_os("FFMC_TRACE").map(PathBuf::from),
            visited: if thorough { zeroed(1 << 27) } else { vec![] },
            extra_exec: AtomicU64::new(0),
        }
    }

    fn now_ms(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64 + 1
    }

    fn visit(&self, w: usize, si: usize, s: &Space, case: Case, path: &[u32]) {
        let slot = &self.slots[w];
        {
            let mut g = slot.what.lock().unwrap();
            g.0 = si;
            g.1.clear();
            g.1.extend_from_slice(path);
        }
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t.join(format!("w{w}")), format!("{}\n{:?}\n", s.name, path));
        }
        slot.started_ms.store(self.now_ms(), Ordering::Relaxed);
        let r = guarded(|| (s.judge)(&W { ctx: self, id: w }, &case)).and_then(|r| r);
        slot.started_ms.store(0, Ordering::Relaxed);
        let mut t = self.tallies[w].lock().unwrap();
        t.executions += 1;
        if w == 0 {
            // One actual case per space: the last one of worker 0 at a power of two up to 1024.
            let n = match &t.sample {
                Some((i, n, _)) if *i == si => n + 1,
                _ => 1,
            };
            if n <= 1024 && n.is_power_of_two() {
                t.sample = Some((si, n, describe(s, &case, path)));
            } else if let Some(x) = &mut t.sample {
                x.1 = n;
            }
        }
        let h = case.doc.hash() ^ plan_hash(&case);
        if self.visited.is_empty() {
            t.hashes.push(h);
        } else {
            let i = mix(h) as usize % (self.visited.len() * 64);
            self.visited[i / 64].fetch_or(1 << (i % 64), Ordering::Relaxed);
        }
        match r {
            Ok(o) => *t.outcomes.entry(o).or_default() += 1,
            Err(m) => {
                drop(t);
                self.stop.store(true, Ordering::Relaxed);
                self.violation.lock().unwrap().push((si, path.to_vec(), m, Some(case)));
            }
        }
    }

    fn replay_file(&self, space: &str, path: &[u32], what: &str, case: Option<&Case>) -> PathBuf {
        let dir = self.root.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}.txt", self.id));
        let mut t = format!(
            "# replay with: /verif/check.sh replay {}\nproperty {}\ntier {}\nspace {}\npath {}\nwhat {}\n",
            f.display(), self.id, if self.thorough { "thorough" } else { "quick" }, space,
            path.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            what.replace('\n', " | "),
        );
        if let Some(c) = case {
            t += &format!("plan {}\naux {:?}\nabout {}\n", c.plan.text(), c.aux, c.doc.describe().replace('\n', " "));
            if c.doc.segs.iter().map(|s| s.data.len()).sum::<usize>() < 4 << 20 {
                t += &c.doc.to_text();
            }
        }
        std::fs::write(&f, t).expect("cannot write the replay file");
        f
    }

    pub fn report(&self, space: &str, path: &[u32], what: &str, case: Option<&Case>) {
        let f = self.replay_file(space, path, what, case);
        println!("VIOLATION property={} replay={}", self.id, f.display());
        println!("  space {space}: {what}");
        if let Some(c) = case {
            println!("  content: {}", c.doc.describe().chars().take(600).collect::<String>());
            if c.plan != Plan::default() {
                println!("  environment: {}", c.plan.text());
            }
        }
    }

    /// Explores all spaces; returns whether the property held.
    pub fn run(&self, spaces: &[Space], level: &str, technique: &str, assumptions: &[&str]) -> bool {
        silent_panics();
        let done = AtomicBool::new(false);
        let mut per_space = vec![];
        let mut paths = 0;
        let mut edges = 0;
        let mut samples = vec![];
        std::thread::scope(|sc| {
            sc.spawn(|| {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(100));
                    for s in &self.slots {
                        let t = s.started_ms.load(Ordering::Relaxed);
                        if t != 0 && self.now_ms() > t + HANG.as_millis() as u64 {
                            let (si, path) = s.what.lock().unwrap().clone();
                            if s.started_ms.load(Ordering::Relaxed) != t {
                                continue;
                            }
                            let sp = &spaces[si];
                            let case = (sp.body)(&mut Ch::new(path.clone()));
                            self.report(&sp.name, &path, &format!("no answer within {} s", HANG.as_secs()), case.as_ref());
                            self.cleanup();
                            std::process::exit(1);
                        }
                    }
                }
            });
            for (si, s) in spaces.iter().enumerate() {
                if self.stop.load(Ordering::Relaxed) {
                    break;
                }
                let t = Instant::now();
                let tree = explore(
                    self.threads,
                    &|ch| guarded(|| (s.body)(ch)).unwrap_or_else(|m| {
                        eprintln!("space {} cannot make a case: {m}", s.name);
                        self.cleanup();
                        std::process::exit(2);
                    }),
                    &|w, c, p| self.visit(w, si, s, c, p),
                    &|| self.stop.load(Ordering::Relaxed),
                );
                paths += tree.paths;
                edges += tree.edges;
                let sample = self.tallies[0].lock().unwrap().sample.take();
                if samples.len() < 20
                    && let Some((_, _, x)) = sample
                {
                    samples.push(x);
                }
                per_space.push((s.name.clone(), tree.paths, t.elapsed().as_secs_f64()));
                if std::env::var_os("FFMC_VERBOSE").is_some() {
                    eprintln!("{:40} {:>10} cases {:>8.2} s", s.name, tree.paths, t.elapsed().as_secs_f64());
                }
            }
            done.store(true, Ordering::Relaxed);
        });
        let mut v = std::mem::take(&mut *self.violation.lock().unwrap());
        // The first violation in exploration order, shortest path first.
        v.sort_by(|a, b| (a.0, a.1.len(), &a.1).cmp(&(b.0, b.1.len(), &b.1)));
        let mut hashes = vec![];
        let mut outcomes: BTreeMap<u64, u64> = BTreeMap::new();
        let mut execs = 0;
        for t in &self.tallies {
            let mut t = t.lock().unwrap();
            hashes.append(&mut t.hashes);
            execs += t.executions;
            for (k, n) in &t.outcomes {
                *outcomes.entry(*k).or_default() += n;
            }
        }
        hashes.sort_unstable();
        hashes.dedup();
        let states = hashes.len() + self.visited.iter().map(|x| x.load(Ordering::Relaxed).count_ones() as usize).sum::<usize>();
        execs += self.extra_exec.load(Ordering::Relaxed);
        if let Some((si, path, what, case)) = v.first() {
            self.report(&spaces[*si].name, path, what, case.as_ref());
        }
        let held = v.is_empty();
        let q = |s: &str| format!("\"{}\"", s.chars().flat_map(|c| match c {
            '"' => "\\\"".chars().collect::<Vec<_>>(),
            '\\' => "\\\\".chars().collect(),
            c if (c as u32) < 32 => vec![' '],
            c => vec![c],
        }).collect::<String>());
        let list = |v: Vec<String>| format!("[{}]", v.join(", "));
        let counts = if level == "model_checking" {
            format!("\"states\": {}, \"transitions\": {edges}, \"traces_validated_against_impl\": {execs}", states)
        } else {
            format!("\"evaluations\": {execs}, \"distinct_nontrivial\": {}", states)
        };
        let rule = if level == "model_checking" {
            "A state is a distinct case (content, environment plan, parameters; counted by hash; in the thorough tier in a table of 2^33 bits, which gives a lower bound), a transition an edge of the choice trees that generate the cases, a validated trace one execution of the real code whose result was compared."
        } else {
            "An evaluation is one execution of the real code whose result was compared, distinct ones have another content, environment plan or parameter (counted by hash)."
        };
        let ev = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  {counts},\n  \"distinct_outcomes\": {}, \"all_choice_trees_exhausted\": {},\n  \"method\": {},\n  \"rule\": {},\n  \"spaces\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
            q(&self.id), q(if self.thorough { "thorough" } else { "quick" }), self.seed, q(level), outcomes.len(), held,
            q(technique), q(rule),
            list(per_space.iter().map(|(n, p, s)| format!("{{\"space\": {}, \"cases\": {p}, \"wall_s\": {s:.2}}}", q(n))).collect()),
            list(samples.iter().map(|s| q(s)).collect()),
            list(assumptions.iter().map(|s| q(s)).collect()),
            self.t0.elapsed().as_secs_f64(), v.len(),
        );
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), ev).expect("cannot write the evidence");
        println!(
            "{} {}: {} spaces, {} cases, {} distinct states, {} transitions, {} distinct outcomes, {} executions compared, {:.1} s",
            self.id, if held { "held" } else { "violated" }, per_space.len(), paths, states, edges, outcomes.len(), execs, self.t0.elapsed().as_secs_f64()
        );
        self.cleanup();
        held
    }

    /// Evidence of a run that was cut short by the death of the process.
    pub fn write_minimal_evidence(&self, what: &str) {
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.id)), format!(
            "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"explanation\": \"{what}\"}}, \"wall_s\": {:.1}, \"violations\": 1}}\n",
            self.id, if self.thorough { "thorough" } else { "quick" }, self.seed, self.t0.elapsed().as_secs_f64()));
    }

    pub fn cleanup(&self) {
        if self.scratch.exists() {
            let _ = std::fs::remove_dir_all(&self.scratch);
        }
    }

    /// Runs one case again.
    pub fn replay(&self, spaces: &[Space], space: &str, path: Vec<u32>) -> Result<bool, String> {
        silent_panics();
        let si = spaces.iter().position(|s| s.name == space).ok_or("unknown space")?;
        let s = &spaces[si];
        let case = guarded(|| (s.body)(&mut Ch::new(path.clone()))).ok().flatten().ok_or("no such case on this tree")?;
        // Spaces that the sources direct may have other cases on another tree.
        if std::env::var("FFMC_ABOUT").is_ok_and(|a| a != case.doc.describe().replace('\n', " ").trim()) {
            return Err("the path leads to another case on this tree".into());
        }
        println!("replaying {space} {path:?}\n  content: {}\n  environment: {}", case.doc.describe(), case.plan.text());
        std::thread::scope(|sc| {
            let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || {
                self.visit(0, si, s, case, &path);
            }).unwrap();
            let t = Instant::now();
            while !h.is_finished() {
                if t.elapsed() > HANG {
                    println!("  no answer within {} s", HANG.as_secs());
                    println!("VIOLATION property={} replay=-", self.id);
                    std::process::exit(1);
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        });
        self.cleanup();
        let v = self.violation.lock().unwrap();
        if let Some((_, _, what, _)) = v.first() {
            println!("  {what}");
            println!("VIOLATION property={} replay=-", self.id);
        }
        Ok(v.is_empty())
    }
}

/// Memory that takes no room until it is used.
fn zeroed(n: usize) -> Vec<AtomicU64> {
    let v = std::mem::ManuallyDrop::new(vec![0u64; n]);
    // SAFETY: an AtomicU64 is laid out like a u64.
    unsafe { Vec::from_raw_parts(v.as_ptr() as *mut AtomicU64, v.len(), v.capacity()) }
}

fn mix(h: u64) -> u64 {
    let h = (h ^ h >> 32).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^ h >> 29
}

fn describe(s: &Space, c: &Case, path: &[u32]) -> String {
    let d: String = c.doc.describe().chars().take(200).collect();
    let mut t = format!("{} {path:?}: {d}", s.name);
    if c.plan != Plan::default() {
        t += &format!(" under {}", c.plan.text().chars().take(160).collect::<String>());
    }
    if !c.aux.is_empty() {
        t += &format!(" parameters {:?}", c.aux);
    }
    t
}

fn plan_hash(c: &Case) -> u64 {
    if c.plan == Plan::default() && c.aux.is_empty() {
        return 0;
    }
    let mut h = 0x1234_5678_9abc_def1u64;
    for b in format!("{:?}{:?}", c.plan, c.aux).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
