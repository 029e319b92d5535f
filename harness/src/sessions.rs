//! C29: protocols compose. Every short program over all protocols, whose steps work on inputs, on earlier results and on
//! linear combinations of them, run by the same parties one after the other; long ones; and independent sessions of one
//! process interleaved at every point.

use crate::engine::*;
use crate::fieldlist::*;
use crate::fields::Field;
use crate::net::*;
use crate::util::*;
use jester_maths::prime::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// A step before its operands are chosen: L is the newest, P the one before, 0/1 the first and second value; bits likewise.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Shape {
    MulL0,
    SquareL,
    MulBitL,
    Mul2,
    Mul3,
    InvL,
    InvP,
    Inv2,
    Or1,
    Ors2,
    Ors3,
    SelL0,
    SelLP,
    SelBits,
    Rand,
    Rands,
    Add,
    Scale,
    Not,
}
use Shape::*;
const SHAPES: [Shape; 19] =
    [MulL0, SquareL, MulBitL, Mul2, Mul3, InvL, InvP, Inv2, Or1, Ors2, Ors3, SelL0, SelLP, SelBits, Rand, Rands, Add, Scale, Not];
/// one of each protocol, single and batched
const CORE: [Shape; 12] = [MulL0, SquareL, Mul3, InvL, Inv2, Ors2, Ors3, SelL0, SelBits, Rand, Rands, Not];

/// Inputs: two values and two bits (1 and 0).
fn build(shapes: &[Shape]) -> Vec<Step> {
    let (mut vals, mut bits, mut len) = (vec![0, 1], vec![2, 3], 4);
    let mut out = vec![];
    for s in shapes {
        let (v, b) = (vals.len(), bits.len());
        let (l, p, v0, v1) = (vals[v - 1], vals[v - 2], vals[0], vals[1]);
        let (bl, bp, b0) = (bits[b - 1], bits[b - 2], bits[0]);
        let (step, new_vals, new_bits) = match s {
            MulL0 => (Step::Mul(l, v0), 1, 0),
            SquareL => (Step::Mul(l, l), 1, 0),
            MulBitL => (Step::Mul(bl, l), 1, 0),
            Mul2 => (Step::MulAll([l, v0, p, v1, 0, 0], 2), 2, 0),
            Mul3 => (Step::MulAll([l, p, v1, l, v1, l], 3), 3, 0),
            InvL => (Step::Inv(l), 1, 0),
            InvP => (Step::Inv(p), 1, 0),
            Inv2 => (Step::InvAll([v1, l, 0], 2), 2, 0),
            Or1 => (Step::Or(bl), 0, 1),
            Ors2 => (Step::OrAll([b0, bl, 0], 2), 0, 1),
            Ors3 => (Step::OrAll([bl, bp, bl], 3), 0, 1),
            SelL0 => (Step::Sel(bl, l, v0), 1, 0),
            SelLP => (Step::Sel(bp, l, p), 1, 0),
            SelBits => (Step::Sel(b0, bl, bp), 0, 1),
            Rand => (Step::Rand, 1, 0),
            Rands => (Step::Rands, 2, 0),
            Add => (Step::Add(l, v1), 1, 0),
            Scale => (Step::Scale(l, 3), 1, 0),
            Not => (Step::Not(bl), 0, 1),
        };
        out.push(step);
        vals.extend(len..len + new_vals);
        bits.extend(len..len + new_bits);
        len += new_vals + new_bits;
    }
    out
}

/// The program on clear values, as far as the parties came; None if it leaves the properties of the protocols.
fn clear(steps: &[Step], inputs: &[u64], net: &Net) -> Option<Vec<u64>> {
    let p = net.p;
    let sub = |a: u64, b: u64| addmod(a, p - b % p, p);
    let mut x = inputs.to_vec();
    let inverse = |a: u64| if a == 0 { None } else { Some(powmod(a, p - 2, p)) };
    for (k, s) in steps.iter().enumerate() {
        let from = match net.marks.get(k) {
            Some(m) => *m,
            None => break,
        };
        let mut joint = net.joint.iter().filter(|j| j.0 >= from).map(|j| j.1);
        match *s {
            Step::Mul(a, b) => x.push(mulmod(x[a], x[b], p)),
            Step::MulAll(i, n) => {
                let r: Vec<u64> = i.chunks(2).take(n).map(|c| mulmod(x[c[0]], x[c[1]], p)).collect();
                x.extend(r)
            }
            Step::Inv(a) => x.push(inverse(x[a])?),
            Step::InvAll(i, n) => {
                let r: Option<Vec<u64>> = i.iter().take(n).map(|a| inverse(x[*a])).collect();
                x.extend(r?)
            }
            Step::Or(a) => x.push(x[a]),
            Step::OrAll(i, n) => x.push(i.iter().take(n).any(|a| x[*a] == 1) as u64),
            Step::Sel(c, a, b) => x.push(if x[c] == 1 { x[a] } else { x[b] }),
            Step::Rand => match joint.next() {
                Some(j) => x.push(j),
                None => break,
            },
            Step::Rands => {
                for _ in 0..2 {
                    match joint.next() {
                        Some(j) => x.push(j),
                        None => return Some(x),
                    }
                }
            }
            Step::Add(a, b) => x.push(addmod(x[a], x[b], p)),
            Step::Scale(a, k) => x.push(mulmod(x[a], k, p)),
            Step::Not(a) => x.push(sub(1, x[a])),
        }
    }
    Some(x)
}

static ABANDONED: AtomicU64 = AtomicU64::new(0);
static ILLEGAL: AtomicU64 = AtomicU64::new(0);

struct Session<F> {
    c: Computation<F>,
    steps: Vec<Step>,
    inputs: Vec<u64>,
    opened_twice: bool,
}

impl<F: Field> Session<F> {
    fn new(p: u64, n: usize, t: usize, steps: Vec<Step>, inputs: &[u64], seed: u64) -> Session<F> {
        let shared: Vec<Vec<u64>> = inputs.iter().enumerate().map(|(k, v)| hashed_shares(*v, seed * 1000 + k as u64, n, t, p)).collect();
        let mut net = Net::new(n, t, p, move |v| hashed(seed, v, p));
        net.lazy = seed % 2 == 0;
        // whether a value opened twice shows that randomness was used twice
        let opened_twice = p >> 60 != 0;
        let text: &'static [Step] = Box::leak(steps.clone().into_boxed_slice());
        let c = Computation::<F>::new(net, Prog::Session(text), &shared);
        Session { c, steps, inputs: inputs.to_vec(), opened_twice }
    }

    fn judge(&self, ran: Result<(), String>) -> Result<u64, String> {
        let net = self.c.net.lock().unwrap();
        if net.abandoned || matches!(&ran, Err(e) if e.contains(EXHAUSTED)) {
            ABANDONED.fetch_add(1, Relaxed);
            return Ok(0);
        }
        let want = match clear(&self.steps, &self.inputs, &net) {
            Some(w) => w,
            None => {
                ILLEGAL.fetch_add(1, Relaxed);
                return Ok(0);
            }
        };
        let at = net.marks.len();
        ran.map_err(|e| format!("step {} of {:?}: {}", at, self.steps, e))?;
        if self.opened_twice {
            let mut seen = BTreeMap::new();
            for (op, o) in &net.opened {
                if let Some(before) = seen.insert(*o, *op) {
                    return Err(format!("operations {} and {} of {:?} reveal the same value although all randomness differs", before, op, self.steps));
                }
            }
        }
        let count = net.operations() as u64;
        drop(net);
        let got = self.c.results().map_err(|e| format!("{:?}: {}", self.steps, e))?;
        if got != want {
            return Err(format!("{:?} on {:?} gives {:?} instead of {:?}", self.steps, self.inputs, got, want));
        }
        Ok(count)
    }

    fn whole(mut self) -> Result<u64, String> {
        let r = self.c.run().map(|_| ());
        self.judge(r)
    }

    /// One poll or one delivery; false if there is nothing left to do.
    fn event(&mut self) -> Result<bool, String> {
        if self.c.abandoned() {
            return Ok(false);
        }
        for i in 0..self.c.tasks.len() {
            if self.c.runnable(i) {
                return self.c.poll(i).map(|_| true);
            }
        }
        if self.c.done() {
            return Ok(false);
        }
        match self.c.deliverable().first() {
            Some(&(k, i)) => {
                self.c.deliver(k, i);
                Ok(true)
            }
            None => Err(self.c.stuck()),
        }
    }

    fn rest(&mut self) -> Result<(), String> {
        while self.event()? {}
        Ok(())
    }
}

/// The programs of a length, numbered.
fn nth(set: &[Shape], len: usize, mut i: usize) -> Vec<Shape> {
    (0..len)
        .map(|_| {
            let s = set[i % set.len()];
            i /= set.len();
            s
        })
        .collect()
}

fn programs<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize, set: &[Shape], len: usize, seed: u64) {
    let inputs = [5 % p, p - 2, 1, 0];
    let total = set.len().pow(len as u32);
    let step = 64;
    for from in (0..total).step_by(step) {
        if !rep.mine() {
            continue;
        }
        for i in from..total.min(from + step) {
            let shapes = nth(set, len, i);
            rep.case(
                || format!("{} n={} t={} seed={} {:?}", name, n, t, seed, shapes),
                || {
                    let count = Session::<F>::new(p, n, t, build(&shapes), &inputs, seed).whole()?;
                    rep.add_states(count);
                    rep.add_transitions(count);
                    Ok(())
                },
            );
        }
    }
}

fn long<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize, times: usize) {
    let inputs = [5 % p, p - 2, 1, 0];
    let mut all: Vec<(String, Vec<Shape>)> = SHAPES.iter().map(|s| (format!("{:?}", s), vec![*s])).collect();
    all.push(("all in turn".into(), SHAPES.to_vec()));
    all.push(("core in turn".into(), CORE.to_vec()));
    for (what, unit) in all {
        if !rep.mine() {
            continue;
        }
        rep.case_limit(
            600,
            || format!("{} n={} t={} {} times {}", name, n, t, times, what),
            || {
                let shapes: Vec<Shape> = (0..times).map(|i| unit[i % unit.len()]).collect();
                let count = Session::<F>::new(p, n, t, build(&shapes), &inputs, 3).whole()?;
                rep.add_states(count);
                rep.add_transitions(count);
                Ok(())
            },
        );
    }
}

/// Session b runs as a whole after each number of events of session a, and both in turns.
fn nested<A: Field, B: Field>(rep: &Report, name: &str, pa: u64, pb: u64, sa: &[Shape], sb: &[Shape], size: (usize, usize)) {
    if !rep.mine() {
        return;
    }
    let (n, t) = size;
    let make = || {
        (
            Session::<A>::new(pa, n, t, build(sa), &[5 % pa, pa - 2, 1, 0], 1),
            Session::<B>::new(pb, 5 - n, 2, build(sb), &[4 % pb, pb - 1, 0, 1], 2),
        )
    };
    let mut cut = 0;
    let mut more = true;
    while more && !rep.stopped() {
        rep.case(
            || format!("{} n={} t={} {:?} after {} events of {:?}", name, n, t, sb, cut, sa),
            || {
                let (mut a, mut b) = make();
                let mut ra = Ok(());
                let mut k = 0;
                while k < cut && ra.is_ok() {
                    match a.event() {
                        Ok(true) => k += 1,
                        Ok(false) => break,
                        Err(e) => ra = Err(e),
                    }
                }
                more = k == cut && ra.is_ok();
                let rb = b.rest();
                if ra.is_ok() {
                    ra = a.rest();
                }
                rep.add_transitions(2);
                rep.add_states(a.judge(ra)? + b.judge(rb)?);
                Ok(())
            },
        );
        if rep.replay.is_some() {
            more = cut < 200;
        }
        cut += 1;
    }
    for stride in [1, 2, 5] {
        rep.case(
            || format!("{} n={} t={} {:?} in turns of {} with {:?}", name, n, t, sb, stride, sa),
            || {
                let (mut a, mut b) = make();
                let (mut ra, mut rb) = (Ok(true), Ok(true));
                while matches!(ra, Ok(true)) || matches!(rb, Ok(true)) {
                    for _ in 0..stride {
                        if matches!(ra, Ok(true)) {
                            ra = a.event();
                        }
                    }
                    if matches!(rb, Ok(true)) {
                        rb = b.event();
                    }
                }
                rep.add_transitions(2);
                rep.add_states(a.judge(ra.map(|_| ()))? + b.judge(rb.map(|_| ()))?);
                Ok(())
            },
        );
    }
}

pub fn c29(rep: &Report) {
    let th = rep.thorough;
    let m61 = (1u64 << 61) - 1;
    long::<Mersenne61>(rep, "Mersenne61", m61, 3, 2, if th { 3000 } else { 300 });
    long::<Mersenne61>(rep, "Mersenne61", m61, 1, 1, if th { 12_000 } else { 1100 });
    rep.bound("one step, or all in turn, repeated 300 (thorough: 3000) times among 3 parties and 1100 (12000) times by one");
    for len in 1..=2 {
        for (k, (n, t)) in [(1, 1), (2, 2), (3, 2), (4, 3), (5, 5)].into_iter().enumerate() {
            for seed in [2 * k as u64 + 1, 2 * k as u64 + 2] {
                programs::<Mersenne61>(rep, "Mersenne61", m61, n, t, &SHAPES, len, seed);
                programs::<F257>(rep, "F257", 257, n, t, &SHAPES, len, seed);
                programs::<F11>(rep, "F11", 11, n, t, &SHAPES, len, seed);
            }
        }
    }
    programs::<Mersenne61>(rep, "Mersenne61", m61, 2, 2, &SHAPES, 3, 1);
    programs::<Mersenne61>(rep, "Mersenne61", m61, 3, 2, &SHAPES, 3, 2);
    programs::<F257>(rep, "F257", 257, 3, 3, &SHAPES, 3, 3);
    programs::<F7>(rep, "F7", 7, 3, 2, &CORE, 3, 4);
    programs::<Mersenne61>(rep, "Mersenne61", m61, 4, 3, &SHAPES, 3, 9);
    programs::<Mersenne61>(rep, "Mersenne61", m61, 2, 2, &CORE, 4, 5);
    programs::<F257>(rep, "F257", 257, 3, 2, &CORE, 4, 6);
    if th {
        programs::<Mersenne61>(rep, "Mersenne61", m61, 3, 2, &SHAPES, 4, 6);
        programs::<F257>(rep, "F257", 257, 2, 2, &SHAPES, 4, 7);
        programs::<Mersenne61>(rep, "Mersenne61", m61, 2, 1, &CORE, 5, 8);
    }
    rep.bound(format!("all programs of up to 3 (thorough: 4) steps over {} step shapes and of 4 (5) steps over {} of them; fields of 7, 11, 257 and 2^61-1 elements, 1 to 5 parties", SHAPES.len(), CORE.len()));
    for a in SHAPES {
        for b in SHAPES {
            nested::<Mersenne61, Mersenne61>(rep, "same field", m61, m61, &[a], &[b], (2, 2));
            nested::<Mersenne61, F257>(rep, "fields of 2^61-1 and 257", m61, 257, &[a], &[b], (3, 3));
            if CORE.contains(&a) && CORE.contains(&b) {
                nested::<F257, F257>(rep, "F257", 257, 257, &[a, b], &[b, a], (2, 2));
                nested::<Mersenne61, Mersenne61>(rep, "same field", m61, m61, &[a, b], &[a, b], (3, 2));
            }
            if th {
                for c in CORE {
                    nested::<F257, F257>(rep, "F257", 257, 257, &[a, c], &[b, c], (3, 2));
                    nested::<Mersenne31, Mersenne61>(rep, "fields of 2^31-1 and 2^61-1", (1 << 31) - 1, m61, &[c, a], &[b], (2, 2));
                }
            }
        }
    }
    for (what, c) in [("executions outside the property: a joint mask is zero", &ABANDONED), ("executions outside the property: zero is inverted", &ILLEGAL)] {
        rep.outcome(what, c.load(Relaxed));
    }
    rep.bound("two independent sessions of one process, all pairs of steps, and pairs of steps in both orders: one runs as a whole after each number of polls and deliveries of the other, and both in turns");
    rep.assume("steps that invert zero, and executions in which a joint mask is zero, are outside the protocols' properties");
    rep.assume("randomness is fixed: well spread, different for each use");
    rep.sample(|| "[Inv2, Ors3, SelL0] among 3 parties: invert two values, or three bits, select between results by the new bit".into());
}
