//! The exploration engine: choice-tree enumeration, parallel work distribution, replayable cases, watchdog, evidence.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub const MAX_VIOLATIONS: usize = 3;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static SLOT: RefCell<Option<usize>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_text(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {} at {}", msg, loc));
        if std::env::var("JMC_TRACE").is_ok() {
            eprintln!("{} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
    }));
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-text panic".into()
    }
}

/// Run code under test, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Does this code panic (refuse)?
pub fn refuses<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// Read the arguments: the property and a case to replay.
pub fn unknown(id: &str) -> ! {
    eprintln!("unknown property {}", id);
    std::process::exit(2);
}

pub fn start() -> (&'static str, &'static Report) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: jmc <property> [--replay FILE]");
        std::process::exit(2);
    }
    let replay = args.iter().position(|a| a == "--replay").map(|i| {
        let text = std::fs::read_to_string(&args[i + 1]).expect("cannot read the replay file");
        text.lines().find_map(|l| l.strip_prefix("case=")).expect("no case in the replay file").to_string()
    });
    install_panic_hook();
    
    let rep: &'static Report = Box::leak(Box::new(Report::new(&args[1], replay)));
    (rep.property.as_str(), rep)
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub msg: String,
}

pub struct Known {
    pub property: String,
    pub case: String,
    pub msg: String,
    pub what: String,
}

struct IdPtr(*const (dyn Fn() -> String));
unsafe impl Send for IdPtr {}

struct Slot {
    started: Instant,
    limit: Duration,
    id: IdPtr,
}

pub struct Report {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub executions: AtomicU64,
    pub nontrivial: AtomicU64,
    pub capped: AtomicBool,
    stop: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    known: Vec<Known>,
    samples: Mutex<Vec<String>>,
    bounds: Mutex<Vec<String>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    assumptions: Mutex<Vec<String>>,
    pub replay: Option<String>,
    slots: Mutex<Vec<Option<Slot>>>,
    verif_dir: String,
    pub deadline: Duration,
    /// this process does only every n-th scenario and reports to a parent process
    pub shard: Option<(usize, usize)>,
    counter: AtomicUsize,
    /// group -> member -> (multiset hash, size): all members of a group must be equal
    facts: Mutex<BTreeMap<String, BTreeMap<String, (u128, u64)>>>,
}

impl Report {
    pub fn new(property: &str, replay: Option<String>) -> Report {
        let verif_dir = std::env::var("JMC_VERIF").unwrap_or_else(|_| "/verif".into());
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        // a worker process leaves the judgement about known findings to its parent
        let known = if std::env::var("JMC_SHARD").is_ok() { vec![] } else { load_known(&verif_dir, property) };
        Report {
            property: property.into(),
            thorough,
            seed,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            executions: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            capped: AtomicBool::new(false),
            stop: AtomicBool::new(false),
            violations: Mutex::new(vec![]),
            known_hit: Mutex::new(BTreeMap::new()),
            known,
            samples: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            outcomes: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            replay,
            slots: Mutex::new(vec![]),
            verif_dir,
            deadline: Duration::from_secs(if thorough { 7200 } else { 600 }),
            shard: std::env::var("JMC_SHARD").ok().map(|s| {
                let (i, n) = s.split_once('/').unwrap();
                (i.parse().unwrap(), n.parse().unwrap())
            }),
            counter: AtomicUsize::new(0),
            facts: Mutex::new(BTreeMap::new()),
        }
    }

    /// Does the next scenario belong to this process? To be asked in the same order by all of them.
    pub fn mine(&self) -> bool {
        let k = self.counter.fetch_add(1, SeqCst);
        match self.shard {
            None => true,
            Some((i, n)) => k % n == i,
        }
    }

    /// Add to a member of a group of multisets that must all be equal in the end.
    pub fn fact(&self, group: &str, member: &str, sum: u128, count: u64) {
        let mut f = self.facts.lock().unwrap();
        let e = f.entry(group.into()).or_default().entry(member.into()).or_insert((0, 0));
        e.0 = e.0.wrapping_add(sum);
        e.1 += count;
    }

    /// Are all members of each group equal? Scaled to a common size, since conditions may exclude different numbers.
    pub fn judge_facts(&self, what: &str) {
        let facts = self.facts.lock().unwrap().clone();
        for (g, members) in facts {
            let mut it = members.iter();
            if let Some((n0, first)) = it.next() {
                for (n, x) in it {
                    if x != first {
                        self.fail(
                            g.clone(),
                            format!("{}: {} ({} executions) differs from {} ({} executions)", what, n, x.1, n0, first.1),
                        );
                        break;
                    }
                }
            }
        }
    }

    /// Run this property in `n` single-threaded processes and merge what they report.
    pub fn run_shards(&self, n: usize) {
        let exe = std::env::current_exe().expect("own path");
        std::thread::scope(|sc| {
            for i in 0..n {
                let exe = exe.clone();
                sc.spawn(move || {
                    let out = std::process::Command::new(&exe)
                        .arg(&self.property)
                        .env("JMC_SHARD", format!("{}/{}", i, n))
                        .stderr(std::process::Stdio::inherit())
                        .output()
                        .expect("cannot start a worker process");
                    let text = String::from_utf8_lossy(&out.stdout).into_owned();
                    let mut complete = false;
                    for line in text.lines() {
                        let f: Vec<&str> = line.split('\t').collect();
                        match f[0] {
                            "STAT" => {
                                self.add_states(f[1].parse().unwrap());
                                self.add_transitions(f[2].parse().unwrap());
                                self.add_execs(f[3].parse().unwrap());
                                if f[4] == "1" {
                                    self.capped.store(true, Relaxed);
                                }
                                complete = true;
                            }
                            "BOUND" => self.bound(f[1]),
                            "SAMPLE" => {
                                let mut s = self.samples.lock().unwrap();
                                if s.len() < 8 && !s.iter().any(|x| x == f[1]) {
                                    s.push(f[1].into())
                                }
                            }
                            "ASSUME" => {
                                let mut s = self.assumptions.lock().unwrap();
                                if !s.iter().any(|x| x == f[1]) {
                                    s.push(f[1].into())
                                }
                            }
                            "OUTCOME" => self.outcome(f[1], f[2].parse().unwrap()),
                            "FACT" => self.fact(f[1], f[2], f[3].parse().unwrap(), f[4].parse().unwrap()),
                            "FAIL" => self.fail(f[1].into(), f[2].into()),
                            _ => (),
                        }
                    }
                    if !complete {
                        self.fail(format!("worker {}/{}", i, n), format!("the process running the code under test died: {}", out.status));
                    }
                });
            }
        });
    }

    fn finish_shard(&self) -> i32 {
        use std::io::Write;
        let clean = |s: &str| s.replace(['\t', '\n', '\r'], " ");
        let mut o = String::new();
        for b in self.bounds.lock().unwrap().iter() {
            o.push_str(&format!("BOUND\t{}\n", clean(b)));
        }
        for b in self.samples.lock().unwrap().iter() {
            o.push_str(&format!("SAMPLE\t{}\n", clean(b)));
        }
        for b in self.assumptions.lock().unwrap().iter() {
            o.push_str(&format!("ASSUME\t{}\n", clean(b)));
        }
        for (k, n) in self.outcomes.lock().unwrap().iter() {
            o.push_str(&format!("OUTCOME\t{}\t{}\n", clean(k), n));
        }
        for (g, members) in self.facts.lock().unwrap().iter() {
            for (m, (sum, count)) in members {
                o.push_str(&format!("FACT\t{}\t{}\t{}\t{}\n", clean(g), clean(m), sum, count));
            }
        }
        for v in self.violations.lock().unwrap().iter() {
            o.push_str(&format!("FAIL\t{}\t{}\n", clean(&v.case), clean(&v.msg)));
        }
        o.push_str(&format!(
            "STAT\t{}\t{}\t{}\t{}\n",
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.executions.load(Relaxed),
            self.capped.load(Relaxed) as u8
        ));
        let out = std::io::stdout();
        let _ = out.lock().write_all(o.as_bytes());
        let _ = out.lock().flush();
        self.violated() as i32
    }

    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        false
    }

    /// To be called now and then by long loops: is the wall-clock cap reached?
    pub fn over_deadline(&self) -> bool {
        if self.start.elapsed() > self.deadline {
            self.capped.store(true, Relaxed);
            self.stop.store(true, Relaxed);
            return true;
        }
        false
    }

    pub fn bound(&self, text: impl Into<String>) {
        let t = text.into();
        let mut b = self.bounds.lock().unwrap();
        if !b.contains(&t) {
            b.push(t)
        }
    }

    pub fn assume(&self, text: &str) {
        self.assumptions.lock().unwrap().push(text.into());
    }

    pub fn sample(&self, text: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 8 {
            s.push(text());
        }
    }

    pub fn outcome(&self, text: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(text.into()).or_insert(0) += n;
    }

    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }

    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }

    pub fn add_execs(&self, n: u64) {
        self.executions.fetch_add(n, Relaxed);
    }

    pub fn fail(&self, case: String, msg: String) {
        for k in &self.known {
            if k.case == case && msg.contains(&k.msg) {
                *self.known_hit.lock().unwrap().entry(k.what.clone()).or_insert(0) += 1;
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if v.iter().any(|x| x.case == case) {
            return;
        }
        if v.len() < MAX_VIOLATIONS {
            v.push(Violation { case, msg });
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }

    pub fn violated(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    fn slot_enter(&self, id: &dyn Fn() -> String, limit: Duration) -> usize {
        let idx = SLOT.with(|s| {
            let mut s = s.borrow_mut();
            if s.is_none() {
                let mut slots = self.slots.lock().unwrap();
                slots.push(None);
                *s = Some(slots.len() - 1);
            }
            s.unwrap()
        });
        // the pointer is only used by the watchdog while this call is still executing
        let ptr: *const (dyn Fn() -> String + '_) = id;
        let ptr: *const (dyn Fn() -> String + 'static) = unsafe { std::mem::transmute(ptr) };
        self.slots.lock().unwrap()[idx] = Some(Slot { started: Instant::now(), limit, id: IdPtr(ptr) });
        idx
    }

    fn slot_leave(&self, idx: usize) {
        self.slots.lock().unwrap()[idx] = None;
    }

    /// One replayable case. `id` names it uniquely; `f` executes it and judges it.
    pub fn case(&self, id: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        self.case_limit(120, id, f)
    }

    pub fn case_limit(
        &self,
        limit_s: u64,
        id: impl Fn() -> String,
        f: impl FnOnce() -> Result<(), String>,
    ) -> bool {
        if self.stopped() {
            return false;
        }
        if let Some(r) = &self.replay {
            if *r != id() {
                return true;
            }
        }
        let slot = self.slot_enter(&id, Duration::from_secs(limit_s));
        self.executions.fetch_add(1, Relaxed);
        let res = match guarded(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        self.slot_leave(slot);
        match res {
            Ok(()) => true,
            Err(m) => {
                self.fail(id(), m);
                false
            }
        }
    }

    /// Explore the whole choice tree of `run` in parallel. `budget` bounds the number of costly (scheduling) deviations
    /// per execution. Every worker has its own accumulator, all of them are returned.
    pub fn explore<A: Default + Send>(
        &self,
        scenario: &str,
        budget: u32,
        threads: usize,
        run: impl Fn(&mut Choices, &mut A) -> Result<(), String> + Sync,
    ) -> Vec<A> {
        self.explore_part(scenario, budget, threads, false, run)
    }

    /// Like `explore`; if `wide`, all worker processes call this and divide the tree among themselves.
    pub fn explore_part<A: Default + Send>(
        &self,
        scenario: &str,
        budget: u32,
        threads: usize,
        wide: bool,
        run: impl Fn(&mut Choices, &mut A) -> Result<(), String> + Sync,
    ) -> Vec<A> {
        if self.stopped() {
            return vec![];
        }
        let name = |c: &[u32]| format!("{}|dev={}|choices={}", scenario, budget, join(c));
        if let Some(r) = &self.replay {
            let prefix = format!("{}|dev={}|choices=", scenario, budget);
            if !r.starts_with(&prefix) {
                return vec![];
            }
            let prefix: Vec<u32> =
                r[prefix.len()..].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let mut acc = A::default();
            let mut ch = Choices::new(prefix, budget);
            self.executions.fetch_add(1, Relaxed);
            let res = guarded(|| run(&mut ch, &mut acc)).unwrap_or_else(Err);
            if let Err(m) = res {
                self.fail(name(&ch.taken()), m);
            }
            return vec![acc];
        }
        let points = AtomicU64::new(0);
        // one execution; what is left to explore next to it
        let execute = |prefix: Vec<u32>, acc: &mut A, count: bool| -> Vec<Vec<u32>> {
            let plen = prefix.len();
            let pid = prefix.clone();
            let mut ch = Choices::new(prefix, budget);
            let id = || name(&pid);
            let slot = self.slot_enter(&id, Duration::from_secs(120));
            let res = guarded(|| run(&mut ch, acc)).unwrap_or_else(Err);
            self.slot_leave(slot);
            if count {
                self.executions.fetch_add(1, Relaxed);
                points.fetch_add((ch.trace.len() - plen.min(ch.trace.len())) as u64, Relaxed);
            }
            if let Err(m) = res {
                self.fail(name(&ch.taken()), m);
            }
            let taken = ch.taken();
            let mut cost: u32 = ch.trace[..plen.min(ch.trace.len())].iter().map(|t| (t.costly && t.chosen > 0) as u32).sum();
            let mut fresh = vec![];
            for i in plen..ch.trace.len() {
                let t = &ch.trace[i];
                if !t.costly || cost + 1 <= budget {
                    for alt in 1..t.n {
                        let mut p = taken[..i].to_vec();
                        p.push(alt);
                        fresh.push(p);
                    }
                }
                cost += (t.costly && t.chosen > 0) as u32;
            }
            fresh
        };
        let mut initial = vec![vec![]];
        let mut first = A::default();
        let mut root = 1;
        if let (true, Some((me, of))) = (wide, self.shard) {
            // every process opens up the tree in the same way, then takes its part of the open branches
            let mut queue = std::collections::VecDeque::from(vec![vec![]]);
            while queue.len() < 64 * of && !self.stopped() {
                let Some(p) = queue.pop_front() else { break };
                queue.extend(execute(p, &mut first, me == 0));
            }
            initial = queue.into_iter().enumerate().filter(|(j, _)| j % of == me).map(|x| x.1).collect();
            if me != 0 {
                first = A::default();
                root = 0;
            }
        }
        let shared: Mutex<Vec<Vec<u32>>> = Mutex::new(initial);
        let cv = Condvar::new();
        let active = AtomicUsize::new(0);
        let idle = AtomicUsize::new(0);
        let out = Mutex::new(vec![first]);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| {
                    let mut acc = A::default();
                    let mut local: Vec<Vec<u32>> = vec![];
                    let mut n = 0u64;
                    'work: loop {
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => {
                                let mut g = shared.lock().unwrap();
                                loop {
                                    if let Some(p) = g.pop() {
                                        active.fetch_add(1, SeqCst);
                                        break p;
                                    }
                                    if active.load(SeqCst) == 0 || self.stopped() {
                                        cv.notify_all();
                                        break 'work;
                                    }
                                    idle.fetch_add(1, SeqCst);
                                    g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                                    idle.fetch_sub(1, SeqCst);
                                }
                            }
                        };
                        n += 1;
                        if self.stopped() || (n & 0xFF == 0 && self.over_deadline()) {
                            active.fetch_sub(1, SeqCst);
                            cv.notify_all();
                            break;
                        }
                        let mut fresh = execute(prefix, &mut acc, true);
                        fresh.reverse();
                        local.append(&mut fresh);
                        if local.len() > 1 && idle.load(Relaxed) > 0 {
                            let half = local.len() / 2;
                            let give: Vec<_> = local.drain(..half).collect();
                            shared.lock().unwrap().extend(give);
                            cv.notify_all();
                        }
                        if local.is_empty() {
                            active.fetch_sub(1, SeqCst);
                            cv.notify_all();
                        }
                    }
                    out.lock().unwrap().push(acc);
                });
            }
        });
        // every distinct node of the choice tree is a state, every resolved choice or completed run a transition
        self.add_states(points.load(Relaxed) + root);
        self.add_transitions(points.load(Relaxed));
        out.into_inner().unwrap()
    }

    fn write_replay(&self, v: &Violation, n: usize) -> String {
        let dir = format!("{}/replays", self.verif_dir);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.txt", dir, self.property, n);
        let text = format!(
            "property={}\ntier={}\ncase={}\nmessage={}\nrerun=JMC={} ./check.sh {} --replay {}\n",
            self.property,
            if self.thorough { "thorough" } else { "quick" },
            v.case,
            v.msg.replace('\n', " "),
            "",
            self.property,
            path
        );
        let _ = std::fs::write(&path, text);
        path
    }

    /// Write the evidence file, print the verdict, return the exit code.
    pub fn finish(&self) -> i32 {
        if self.shard.is_some() {
            return self.finish_shard();
        }
        let violations = self.violations.lock().unwrap();
        let mut e = String::from("{\n");
        let field = |e: &mut String, k: &str, v: String| e.push_str(&format!("  {}: {},\n", quote(k), v));
        field(&mut e, "property", quote(&self.property));
        field(&mut e, "tier", quote(if self.thorough { "thorough" } else { "quick" }));
        field(&mut e, "seed", self.seed.to_string());
        field(&mut e, "level", quote("model_checking"));
        let mut c = String::from("{");
        c.push_str(&format!("\"states\": {}, ", self.states.load(Relaxed)));
        c.push_str(&format!("\"transitions\": {}, ", self.transitions.load(Relaxed)));
        c.push_str(&format!("\"traces_validated_against_impl\": {}, ", self.executions.load(Relaxed)));
        let nt = self.nontrivial.load(Relaxed);
        if nt > 0 {
            c.push_str(&format!("\"distinct_nontrivial\": {}, ", nt));
        }
        c.push_str(&format!("\"exhaustive\": {}, ", !self.capped.load(Relaxed) && violations.is_empty() && self.replay.is_none()));
        c.push_str(&format!(
            "\"bounds\": [{}], ",
            self.bounds.lock().unwrap().iter().map(|b| quote(b)).collect::<Vec<_>>().join(", ")
        ));
        c.push_str(&format!(
            "\"outcomes\": {{{}}}, ",
            self.outcomes.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", quote(k), v)).collect::<Vec<_>>().join(", ")
        ));
        c.push_str(&format!(
            "\"explanation\": {}, ",
            quote("every execution counted runs the real code of /repo; states are nodes of the explored state/choice space, transitions are edges between them")
        ));
        let mut samples = self.samples.lock().unwrap().clone();
        if samples.is_empty() {
            samples.push("(none recorded)".into());
        }
        c.push_str(&format!("\"samples\": [{}]", samples.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", ")));
        c.push('}');
        field(&mut e, "coverage", c);
        field(
            &mut e,
            "assumptions",
            format!("[{}]", self.assumptions.lock().unwrap().iter().map(|b| quote(b)).collect::<Vec<_>>().join(", ")),
        );
        field(&mut e, "violations", violations.len().to_string());
        e.push_str(&format!("  \"wall_s\": {:.3}\n}}\n", self.start.elapsed().as_secs_f64()));
        let dir = format!("{}/evidence", self.verif_dir);
        let _ = std::fs::create_dir_all(&dir);
        if self.replay.is_none() {
            std::fs::write(format!("{}/{}.json", dir, self.property), e).expect("cannot write evidence");
        }
        println!(
            "{} {}: executions={} states={} transitions={} wall={:.1}s{}",
            self.property,
            if self.thorough { "thorough" } else { "quick" },
            self.executions.load(Relaxed),
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.start.elapsed().as_secs_f64(),
            if self.capped.load(Relaxed) { " CAPPED by wall clock" } else { "" }
        );
        for (what, n) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({} case(s))", self.property, what, n);
        }
        if violations.is_empty() {
            if self.replay.is_some() && self.executions.load(Relaxed) == 0 {
                println!("replay: no such case");
                return 2;
            }
            return 0;
        }
        for (i, v) in violations.iter().enumerate() {
            let path = match &self.replay {
                Some(_) => "(replayed)".to_string(),
                None => self.write_replay(v, i),
            };
            println!("  case: {}\n  reason: {}", clip(&v.case), clip(&v.msg));
            println!("VIOLATION property={} replay={}", self.property, path);
        }
        1
    }

    /// Started once per process: reports a case that does not terminate.
    pub fn watchdog(&'static self) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let hung = {
                let slots = self.slots.lock().unwrap();
                slots
                    .iter()
                    .flatten()
                    .find(|s| s.started.elapsed() > s.limit)
                    .map(|s| (unsafe { (*s.id.0)() }, s.limit))
            };
            if let Some((case, limit)) = hung {
                self.fail(case, format!("does not terminate within {} s", limit.as_secs()));
                self.capped.store(true, Relaxed);
                let code = self.finish();
                std::process::exit(if code == 1 { 1 } else { 3 });
            }
        });
    }
}

fn clip(s: &str) -> String {
    if s.len() > 1500 {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1
        }
        format!("{}... ({} bytes)", &s[..end], s.len())
    } else {
        s.to_string()
    }
}

pub fn join<T: ToString>(xs: &[T]) -> String {
    xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// known_findings.txt: `known: property=C28 case=<exact case id> msg=<substring> what=<text>`; separated by tabs.
fn load_known(dir: &str, property: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", dir)).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        if !line.starts_with("known:") {
            continue;
        }
        let get = |k: &str| {
            line.split('\t')
                .map(|f| f.trim_start_matches("known:").trim())
                .find(|f| f.starts_with(&format!("{}=", k)))
                .map(|f| f[k.len() + 1..].to_string())
                .unwrap_or_default()
        };
        let k = Known { property: get("property"), case: get("case"), msg: get("msg"), what: get("what") };
        if k.property == property && !k.case.is_empty() && !k.msg.is_empty() {
            out.push(k);
        }
    }
    out
}

pub fn threads() -> usize {
    if std::env::var("JMC_SHARD").is_ok() {
        return 1;
    }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

/// Distribute 0..n over all cores.
pub fn par_for(rep: &Report, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n || rep.stopped() || rep.over_deadline() {
                    break;
                }
                f(i);
            });
        }
    });
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub chosen: u32,
    pub n: u32,
    pub costly: bool,
}

/// The resolution of all nondeterministic choices of one execution.
pub struct Choices {
    prefix: Vec<u32>,
    pub trace: Vec<Choice>,
    budget: u32,
    cost: u32,
}

impl Choices {
    pub fn new(prefix: Vec<u32>, budget: u32) -> Choices {
        Choices { prefix, trace: vec![], budget, cost: 0 }
    }

    fn next(&mut self, n: u32, costly: bool) -> u32 {
        assert!(n > 0);
        let i = self.trace.len();
        let chosen = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if chosen >= n {
            panic!("replay diverged: choice {} of {} at point {} - the code under test is not deterministic", chosen, n, i);
        }
        if costly && chosen > 0 {
            self.cost += 1;
        }
        self.trace.push(Choice { chosen, n, costly });
        chosen
    }

    /// A free choice: all alternatives are always explored.
    pub fn pick(&mut self, n: u32) -> u32 {
        self.next(n, false)
    }

    /// A scheduling choice: alternatives other than 0 count against the deviation budget.
    pub fn deviate(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.next(n, true)
    }

    pub fn budget_left(&self) -> u32 {
        self.budget.saturating_sub(self.cost)
    }

    pub fn taken(&self) -> Vec<u32> {
        self.trace.iter().map(|t| t.chosen).collect()
    }
}
