//! C24: OR computations share tables of precomputed coefficients in the whole process. Every execution runs in a process
//! forked for it, so it starts with empty tables; within it all scheduling decisions belong to the explorer.

use crate::engine::*;
use crate::fieldlist::*;
use crate::fields::Field;
use crate::net::*;
use crate::sharing::{lend, Ch};
use jester_maths::prime::*;
use std::cell::{Cell, RefCell};

/// One OR computation of a fresh network.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Spec {
    field: u64,
    bits: Vec<u64>,
    n: usize,
    prog: Prog,
}

fn spec(field: u64, bits: &[u64]) -> Spec {
    Spec { field, bits: bits.to_vec(), n: 1, prog: Prog::OrAll }
}

impl Spec {
    fn parties(mut self, n: usize) -> Spec {
        self.n = n;
        self
    }
    fn text(&self) -> String {
        let b: String = self.bits.iter().map(|b| if *b == 1 { '1' } else { '0' }).collect();
        format!("F{}:{}{}{}", self.field, b, if self.n > 1 { format!("/{}", self.n) } else { String::new() }, if self.prog == Prog::Or { "s" } else { "" })
    }
    /// more bits than the field can count: nothing is promised about this computation itself
    fn excessive(&self) -> bool {
        self.bits.len() as u64 >= self.field
    }
}

trait Job {
    fn units(&self) -> usize;
    fn runnable(&self, i: usize) -> bool;
    fn poll(&mut self, i: usize) -> Result<(), String>;
    fn settle(&mut self) -> bool;
    fn done(&self) -> bool;
    fn check(&self) -> Result<(), String>;
    fn cancel(&mut self);
}

struct OrJob<F: Field> {
    c: Computation<F>,
    spec: Spec,
    cancelled: bool,
}

fn job<F: Field>(s: &Spec, seed: u64) -> Box<dyn Job> {
    let p = s.field;
    let mut net = Net::new(s.n, s.n, p, move |v| match v {
        // the sum of all contributions is not zero
        Var::Rng { party: 0, .. } => 1 + hashed(seed, v, p - 1),
        Var::Rng { .. } => 0,
        _ => hashed(seed, v, p),
    });
    net.rng_limit = 200 + 8 * s.bits.len();
    let inputs: Vec<Vec<u64>> = s.bits.iter().enumerate().map(|(k, b)| hashed_shares(*b, seed * 1000 + k as u64, s.n, s.n, p)).collect();
    Box::new(OrJob { c: Computation::<F>::new(net, s.prog, &inputs), spec: s.clone(), cancelled: false })
}

fn start(s: &Spec, seed: u64) -> Box<dyn Job> {
    match s.field {
        2 => job::<F2>(s, seed),
        3 => job::<F3>(s, seed),
        5 => job::<F5>(s, seed),
        7 => job::<F7>(s, seed),
        11 => job::<F11>(s, seed),
        13 => job::<F13>(s, seed),
        17 => job::<F17>(s, seed),
        19 => job::<F19>(s, seed),
        23 => job::<F23>(s, seed),
        29 => job::<F29>(s, seed),
        31 => job::<F31>(s, seed),
        37 => job::<F37>(s, seed),
        41 => job::<F41>(s, seed),
        43 => job::<F43>(s, seed),
        47 => job::<F47>(s, seed),
        53 => job::<F53>(s, seed),
        59 => job::<F59>(s, seed),
        61 => job::<F61>(s, seed),
        67 => job::<F67>(s, seed),
        71 => job::<F71>(s, seed),
        73 => job::<F73>(s, seed),
        79 => job::<F79>(s, seed),
        83 => job::<F83>(s, seed),
        89 => job::<F89>(s, seed),
        97 => job::<F97>(s, seed),
        257 => job::<F257>(s, seed),
        65537 => job::<F65537>(s, seed),
        0x1fff_ffff_ffff_ffff => job::<Mersenne61>(s, seed),
        f => panic!("no field of {} elements", f),
    }
}
const M61: u64 = 0x1fff_ffff_ffff_ffff;

impl<F: Field> Job for OrJob<F> {
    fn units(&self) -> usize {
        self.spec.n
    }
    fn runnable(&self, i: usize) -> bool {
        !self.cancelled && self.c.runnable(i)
    }
    fn poll(&mut self, i: usize) -> Result<(), String> {
        let r = self.c.poll(i);
        if r.is_err() && self.spec.excessive() {
            self.cancel();
            return Ok(());
        }
        r.map_err(|e| format!("{}: {}", self.spec.text(), e))
    }
    fn settle(&mut self) -> bool {
        let d = self.c.deliverable();
        for (k, i) in &d {
            self.c.deliver(*k, *i);
        }
        !d.is_empty()
    }
    fn done(&self) -> bool {
        self.cancelled || self.c.done()
    }
    fn check(&self) -> Result<(), String> {
        if self.cancelled || self.spec.excessive() {
            return Ok(());
        }
        let r = self.c.results().map_err(|e| format!("{}: {}", self.spec.text(), e))?;
        let want = self.spec.bits.iter().any(|b| *b == 1) as u64;
        if r != [want] {
            return Err(format!("{} gives {:?} instead of {}", self.spec.text(), r, want));
        }
        Ok(())
    }
    fn cancel(&mut self) {
        self.cancelled = true;
        for t in self.c.tasks.iter_mut() {
            *t = None;
        }
    }
}

// ------------------------------------------------------------------------------------------------------- lock scheduling

thread_local! {
    static POINTS: RefCell<Option<Ch>> = RefCell::new(None);
    /// the running task is not to take any further lock in this poll
    static PAUSED: Cell<bool> = Cell::new(false);
    static CANCEL: Cell<bool> = Cell::new(false);
    static MODES: Cell<u32> = Cell::new(0);
}

/// At each acquisition of a table lock: go on; pause the whole task; act as if only this lock were taken by somebody
/// else; abandon the task.
fn lock_point() -> bool {
    if PAUSED.with(|p| p.get()) {
        return true;
    }
    let modes = MODES.with(|m| m.get());
    let k = POINTS.with(|p| p.borrow().as_ref().map_or(0, |c| c.borrow_mut().deviate(modes)));
    match k {
        0 => false,
        2 => true,
        k => {
            PAUSED.with(|p| p.set(true));
            CANCEL.with(|c| c.set(k == 3));
            true
        }
    }
}

/// Run all computations at once, every scheduling decision taken by the choices.
fn concurrently(specs: &[Spec], ch: &Ch, seed: u64, modes: u32) -> Result<(), String> {
    let mut jobs: Vec<Box<dyn Job>> = specs.iter().enumerate().map(|(i, s)| start(s, seed + i as u64)).collect();
    let units: Vec<(usize, usize)> = jobs.iter().enumerate().flat_map(|(j, b)| (0..b.units()).map(move |i| (j, i))).collect();
    POINTS.with(|p| *p.borrow_mut() = Some(ch.clone()));
    MODES.with(|m| m.set(modes));
    jester_sharing::verif::set_lock_point(Some(lock_point));
    let mut current = units[0];
    let mut paused = false;
    let mut steps = 0;
    let r = loop {
        for j in jobs.iter_mut() {
            j.settle();
        }
        if jobs.iter().all(|j| j.done()) {
            break Ok(());
        }
        let mut ready: Vec<(usize, usize)> = units.iter().copied().filter(|(j, i)| jobs[*j].runnable(*i)).collect();
        if ready.is_empty() {
            let left: Vec<String> = specs.iter().zip(&jobs).filter(|(_, j)| !j.done()).map(|(s, _)| s.text()).collect();
            break Err(format!("deadlock: {} wait for ever", left.join(", ")));
        }
        // the current task first, or last if it was just paused
        if let Some(k) = ready.iter().position(|u| *u == current) {
            let u = ready.remove(k);
            if paused {
                if ready.is_empty() {
                    ready.push(u);
                }
            } else {
                ready.insert(0, u);
            }
        }
        let k = if paused { ch.borrow_mut().pick(ready.len() as u32) } else { ch.borrow_mut().deviate(ready.len() as u32) };
        current = ready[k as usize];
        PAUSED.with(|p| p.set(false));
        CANCEL.with(|c| c.set(false));
        if let Err(e) = jobs[current.0].poll(current.1) {
            break Err(e);
        }
        paused = PAUSED.with(|p| p.get());
        if CANCEL.with(|c| c.get()) {
            jobs[current.0].cancel();
        }
        steps += 1;
        if steps > 100_000 {
            break Err("the computations keep running without finishing".into());
        }
    };
    jester_sharing::verif::set_lock_point(None);
    POINTS.with(|p| *p.borrow_mut() = None);
    r?;
    jobs.iter().map(|j| j.check()).collect()
}

/// One computation alone, in order.
fn alone(s: &Spec, seed: u64) -> Result<(), String> {
    let mut ch = Choices::new(vec![], 0);
    lend(&mut ch, |ch| concurrently(&[s.clone()], ch, seed, 1))
}

// --------------------------------------------------------------------------------------------------------- fresh processes

fn wire(ch: &Choices, r: &Result<(), String>) -> Vec<u8> {
    let mut b = vec![];
    b.extend((ch.trace.len() as u32).to_le_bytes());
    for c in &ch.trace {
        b.extend(c.chosen.to_le_bytes());
        b.extend(c.n.to_le_bytes());
        b.push(c.costly as u8);
    }
    match r {
        Ok(()) => b.push(0),
        Err(m) => {
            b.push(1);
            b.extend(m.as_bytes());
        }
    }
    b
}

fn unwire(b: &[u8], ch: &mut Choices) -> Option<Result<(), String>> {
    let word = |i: usize| b.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
    let n = word(0)? as usize;
    ch.trace.clear();
    for k in 0..n {
        let i = 4 + 9 * k;
        ch.trace.push(Choice { chosen: word(i)?, n: word(i + 4)?, costly: *b.get(i + 8)? == 1 });
    }
    let rest = b.get(4 + 9 * n..)?;
    match rest.first()? {
        0 => Some(Ok(())),
        _ => Some(Err(String::from_utf8_lossy(&rest[1..]).into_owned())),
    }
}

/// Carry out an execution in a forked process; one that does not come to an end is killed.
fn forked(ch: &mut Choices, seconds: u32, f: impl FnOnce(&Ch) -> Result<(), String>) -> Result<(), String> {
    let limit = seconds as i64 * 1000;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(2 * seconds);
            let r = lend(ch, f);
            let b = wire(ch, &r);
            let mut at = 0;
            while at < b.len() {
                let k = libc::write(fds[1], b[at..].as_ptr() as *const libc::c_void, b.len() - at);
                if k <= 0 {
                    break;
                }
                at += k as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut got = vec![];
        let started = std::time::Instant::now();
        let mut late = false;
        loop {
            let left = limit - started.elapsed().as_millis() as i64;
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let k = if left > 0 { libc::poll(&mut p, 1, left as i32) } else { 0 };
            if k == 0 {
                late = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut buf = [0u8; 4096];
            let k = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if k <= 0 {
                break;
            }
            got.extend_from_slice(&buf[..k as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if late {
            return Err("the computations block for ever".into());
        }
        unwire(&got, ch).unwrap_or_else(|| Err(format!("the process running the computations died (status {})", status)))
    }
}

// ------------------------------------------------------------------------------------------------------------------ checks

/// All sequences of the given length over an alphabet of steps, each from a fresh process.
fn sequences(rep: &Report, name: &str, steps: &[Vec<Spec>], depth: usize) {
    let scenario = format!("{} depth={}", name, depth);
    let started = std::time::Instant::now();
    rep.explore_part(&scenario, 0, 1, true, |ch, _: &mut ()| {
        forked(ch, 400, |ch| {
            let mut before: Vec<String> = vec![];
            for _ in 0..depth {
                let k = ch.borrow_mut().pick(steps.len() as u32) as usize;
                for (i, s) in steps[k].iter().enumerate() {
                    alone(s, 1 + i as u64).map_err(|e| if before.is_empty() { e } else { format!("after {}: {}", before.join(" "), e) })?;
                    before.push(s.text());
                }
            }
            Ok(())
        })
    });
    crate::sharing::slow(started, &scenario);
}

/// All interleavings of concurrent computations up to a budget of deviations, after some earlier ones.
fn interleavings(rep: &Report, warm: &[Spec], specs: &[Spec], budget: u32, modes: u32) {
    let text = |s: &[Spec]| s.iter().map(|x| x.text()).collect::<Vec<_>>().join("+");
    let scenario = format!("concurrent {} after [{}] modes={}", text(specs), text(warm), modes);
    let started = std::time::Instant::now();
    rep.explore_part(&scenario, budget, 1, true, |ch, _: &mut ()| {
        forked(ch, 60, |ch| {
            for s in warm {
                alone(s, 7)?;
            }
            concurrently(specs, ch, 3, modes)?;
            // the tables must be left in order
            for (i, s) in specs.iter().enumerate() {
                alone(s, 11 + i as u64).map_err(|e| format!("afterwards: {}", e))?;
            }
            Ok(())
        })
    });
    crate::sharing::slow(started, &format!("{} dev={}", scenario, budget));
}

fn step(field: u64, l: usize) -> Vec<Spec> {
    let mut v = vec![spec(field, &vec![0; l])];
    let mut one = vec![0; l];
    one[l - 1] = 1;
    v.push(spec(field, &one));
    v.push(spec(field, &vec![1; l]));
    v
}

pub fn c24(rep: &Report) {
    let th = rep.thorough;
    let more = th as u32;
    let mut steps: Vec<Vec<Spec>> = vec![];
    for (f, ls) in [(3, vec![1, 2]), (5, vec![1, 2, 3, 4]), (7, vec![2, 3, 6]), (11, vec![4, 7]), (257, vec![5]), (M61, vec![3])] {
        for l in ls {
            steps.push(step(f, l));
        }
    }
    steps.push(vec![Spec { field: 13, bits: vec![1], n: 1, prog: Prog::Or }, Spec { field: 13, bits: vec![0], n: 1, prog: Prog::Or }]);
    steps.push(vec![spec(7, &[0, 0, 1]).parties(3), spec(7, &[0, 0, 0]).parties(3)]);
    // computations that are refused
    steps.push(vec![spec(3, &[1, 0, 1, 1]), spec(5, &[0, 1, 0, 0, 0, 0])]);
    sequences(rep, "sequences", &steps, if th { 4 } else { 3 });
    let few: Vec<Vec<Spec>> = vec![step(5, 2), step(5, 4), step(7, 3), step(7, 1), step(M61, 4)];
    sequences(rep, "long sequences", &few, if th { 7 } else { 5 });
    rep.bound(format!(
        "all sequences of {} out of {} steps (computations in fields of 3, 5, 7, 11, 13, 257 and 2^61-1 elements with 1 to 7 bits, several parties, excessive numbers of bits), of {} out of 5 steps",
        if th { 4 } else { 3 },
        steps.len(),
        if th { 7 } else { 5 }
    ));
    // large numbers of bits, and many fields one after another
    let wide: Vec<Vec<Spec>> =
        [(M61, 33), (M61, 65), (257, 40), (65537, 24), (31, 30), (13, 11), (M61, 1)].iter().map(|(f, l)| step(*f, *l)).collect();
    sequences(rep, "wide sequences", &wide, if th { 3 } else { 2 });
    let primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 257, 65537, M61];
    for bits in [1usize, 3, 8] {
        let mut runs = vec![];
        for (turn, f) in primes.iter().chain(primes.iter().rev()).chain(primes.iter()).enumerate() {
            let l = (bits + turn % 3).min(*f as usize - 1);
            runs.push(spec(*f, &vec![0; l]));
            let mut one = vec![0; l];
            one[turn % l] = 1;
            runs.push(spec(*f, &one));
        }
        rep.explore_part(&format!("many fields, {} bits", bits), 0, 1, true, |ch, _: &mut ()| {
            let k = ch.pick(primes.len() as u32) as usize;
            forked(ch, 400, |_| {
                for (i, s) in runs.iter().cycle().skip(2 * k).take(runs.len()).enumerate() {
                    alone(s, 1 + i as u64).map_err(|e| format!("after {} others: {}", i, e))?;
                }
                Ok(())
            })
        });
    }
    rep.bound(format!("all sequences of {} out of 7 computations with up to 65 bits; 28 fields three times in one process, from every starting point, with 1 to 10 bits", if th { 3 } else { 2 }));
    let all = 4;
    let s = spec;
    interleavings(rep, &[], &[s(257, &[1]), s(257, &[0])], 3 + more, all);
    interleavings(rep, &[], &[s(257, &[0]), s(65537, &[1])], 2 + more, all);
    interleavings(rep, &[], &[s(257, &[0, 1]), s(257, &[0])], 2 + more, all);
    interleavings(rep, &[], &[s(257, &[0, 0]), s(257, &[1, 0])], 2, all);
    interleavings(rep, &[], &[s(257, &[0]), s(257, &[1, 0, 0])], 2, all);
    interleavings(rep, &[], &[s(257, &[0, 1]), s(5, &[0, 1])], 2, all);
    interleavings(rep, &[s(257, &[0])], &[s(257, &[0, 1]), s(257, &[0])], 2, all);
    interleavings(rep, &[s(5, &[1, 0])], &[s(257, &[0]), s(5, &[0, 0])], 2, all);
    interleavings(rep, &[s(257, &[0, 0])], &[s(257, &[0, 1]), s(257, &[1, 1])], 2, all);
    interleavings(rep, &[], &[s(257, &[0]), s(257, &[1]), s(257, &[0])], 2, all);
    interleavings(rep, &[], &[s(257, &[1]), s(65537, &[0]), s(5, &[1])], 2, all);
    interleavings(rep, &[], &[s(257, &[1]).parties(2)], 2 + more, all);
    interleavings(rep, &[], &[s(257, &[0, 1]).parties(2)], 1 + more, all);
    interleavings(rep, &[], &[s(257, &[1]).parties(2), s(257, &[0]).parties(2)], 1 + more, all);
    interleavings(rep, &[], &[s(257, &[0, 0, 1, 0]), s(257, &[0, 0, 1])], 1, all);
    interleavings(rep, &[], &[s(257, &[0, 0, 0, 0, 0, 0]), s(65537, &[0, 0, 1])], 1, all);
    rep.bound(format!(
        "concurrent computations (2 or 3 at once, up to 6 bits, same and different fields and sizes, cold and warm tables): all schedules with up to {} deviations, a deviation being a pause of the whole task, a single busy lock, a task switch or a cancellation at any table lock",
        2 + more
    ));
    rep.assume("the tables are reached through their locks only (scheduling points lie in front of each acquisition)");
    rep.assume("masks are fixed and not zero");
    rep.sample(|| "fresh process: F5 with 4 bits, then F7 with 3 bits, then F5 with 2 bits: each equals the OR of its bits".into());
    rep.sample(|| "F257 with 1 bit paused at its 9th table lock, F257 with 2 bits runs to its end, the first resumes: both right".into());
}
