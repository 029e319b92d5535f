//! C18 - C23, C25, C26: the multi-party protocols, all parties executed together over a simulated network.

use crate::engine::*;
use crate::fieldlist::*;
use crate::fields::Field;
use crate::net::*;
use crate::shamir::coalitions;
use crate::util::*;
use jester_maths::prime::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Ch = Rc<RefCell<Choices>>;

/// Lend the choices of an execution to closures.
pub fn lend(ch: &mut Choices, f: impl FnOnce(&Ch) -> Result<(), String>) -> Result<(), String> {
    let rc = Rc::new(RefCell::new(std::mem::replace(ch, Choices::new(vec![], 0))));
    let r = guarded(|| f(&rc));
    std::mem::swap(ch, &mut rc.borrow_mut());
    r.unwrap_or_else(Err)
}

/// How a scenario fixes what is not enumerated.
#[derive(Clone)]
pub struct Plan {
    pub p: u64,
    pub n: usize,
    pub t: usize,
    pub prog: Prog,
    pub seed: u64,
    /// are the polynomials that share the inputs enumerated?
    pub input_polys: bool,
    pub nonzero: bool,
    pub lazy: bool,
    /// big enough to be divided among the worker processes
    pub wide: bool,
}

impl Plan {
    pub fn new(p: u64, n: usize, t: usize, prog: Prog) -> Plan {
        Plan { p, n, t, prog, seed: 1, input_polys: false, nonzero: true, lazy: false, wide: false }
    }
    pub fn seed(mut self, s: u64) -> Plan {
        self.seed = s;
        self.lazy = s % 2 == 0;
        self
    }
    pub fn polys(mut self) -> Plan {
        self.input_polys = true;
        self
    }
    pub fn zero_masks(mut self) -> Plan {
        self.nonzero = false;
        self
    }
    pub fn wide(mut self) -> Plan {
        self.wide = true;
        self
    }
    pub fn text(&self) -> String {
        format!(
            "p={} n={} t={} {:?} seed={}{}{}",
            self.p,
            self.n,
            self.t,
            self.prog,
            self.seed,
            if self.lazy { " lazy" } else { "" },
            if self.input_polys { " polys" } else { "" }
        )
    }

    fn shared(&self, ch: &Ch, secrets: &[u64]) -> Vec<Vec<u64>> {
        secrets
            .iter()
            .enumerate()
            .map(|(k, s)| {
                if self.input_polys {
                    let coef: Vec<u64> = (1..self.t).map(|_| ch.borrow_mut().pick(self.p as u32) as u64).collect();
                    shares(*s, &coef, self.n, self.p)
                } else {
                    hashed_shares(*s, self.seed * 1000 + k as u64, self.n, self.t, self.p)
                }
            })
            .collect()
    }

    fn net(&self, ch: &Ch, explored: fn(Var) -> bool) -> Net {
        let (p, seed) = (self.p, self.seed);
        let c = ch.clone();
        let mut net = Net::new(self.n, self.t, p, move |v| if explored(v) { c.borrow_mut().pick(p as u32) as u64 } else { hashed(seed, v, p) });
        net.nonzero = self.nonzero;
        net.lazy = self.lazy;
        net
    }
}

/// Run to the end; None if the execution is outside the property.
pub fn run<F: Field>(plan: &Plan, net: Net, inputs: &[Vec<u64>]) -> Result<Option<(Vec<u64>, Computation<F>)>, String> {
    let mut c = Computation::<F>::new(net, plan.prog, inputs);
    match c.run() {
        Ok(Some(_)) => {
            let r = c.results()?;
            Ok(Some((r, c)))
        }
        Ok(None) => Ok(None),
        Err(e) if e.contains(EXHAUSTED) => Ok(None),
        Err(_) if c.abandoned() => Ok(None),
        Err(e) => Err(e),
    }
}

type Expect = fn(&[u64], &Net, u64) -> Vec<u64>;

/// All assignments of `domain[k]` to the inputs and of everything explored; the results must be as expected.
fn functional<F: Field>(
    rep: &Report,
    tag: &str,
    plan: Plan,
    domains: Vec<Vec<u64>>,
    explored: fn(Var) -> bool,
    triples: Option<usize>,
    expect: Expect,
) {
    if !plan.wide && !rep.mine() {
        return;
    }
    let scenario = format!("{} {}", tag, plan.text());
    let started = std::time::Instant::now();
    let abandoned: Vec<u64> = rep.explore_part(&scenario, 0, threads(), plan.wide, |ch, acc: &mut u64| {
        lend(ch, |ch| {
            let secrets: Vec<u64> = domains.iter().map(|d| d[ch.borrow_mut().pick(d.len() as u32) as usize]).collect();
            let inputs = plan.shared(ch, &secrets);
            match run::<F>(&plan, plan.net(ch, explored), &inputs)? {
                None => *acc += 1,
                Some((got, c)) => {
                    let net = c.net.lock().unwrap();
                    let want = expect(&secrets, &net, plan.p);
                    if got != want {
                        return Err(format!("secrets {:?} give {:?} instead of {:?}", secrets, got, want));
                    }
                    if let Some(k) = triples {
                        if net.triples != k {
                            return Err(format!("{} triples are used for {} products", net.triples, k));
                        }
                    }
                }
            }
            Ok(())
        })
    });
    slow(started, &scenario);
    let a: u64 = abandoned.iter().sum();
    if a > 0 {
        rep.outcome("executions outside the property (a joint mask is zero)", a);
    }
}

/// With JMC_SLOW=seconds, name the scenarios that take longer.
pub fn slow(started: std::time::Instant, scenario: &str) {
    if let Some(limit) = std::env::var("JMC_SLOW").ok().and_then(|s| s.parse::<f64>().ok()) {
        let t = started.elapsed().as_secs_f64();
        if t > limit {
            eprintln!("{:7.1}s {}", t, scenario);
        }
    }
}

pub fn all(p: u64) -> Vec<u64> {
    (0..p).collect()
}

fn nonzero(p: u64) -> Vec<u64> {
    (1..p).collect()
}

fn everything(_: Var) -> bool {
    true
}
fn nothing(_: Var) -> bool {
    false
}
fn triple_values(v: Var) -> bool {
    matches!(v, Var::TripleA { .. } | Var::TripleB { .. })
}
fn triple_all(v: Var) -> bool {
    matches!(v, Var::TripleA { .. } | Var::TripleB { .. } | Var::TriplePoly { .. })
}
fn generators(v: Var) -> bool {
    matches!(v, Var::Rng { .. })
}
fn generators_and_triples(v: Var) -> bool {
    generators(v) || triple_values(v)
}
fn polynomials(v: Var) -> bool {
    matches!(v, Var::DistPoly { .. } | Var::TriplePoly { .. })
}
fn contributions(v: Var) -> bool {
    matches!(v, Var::Rng { .. } | Var::DistPoly { .. })
}

/// Distinct values for each position of a batch.
fn spread(k: usize, seed: u64, p: u64, from: u64) -> Vec<u64> {
    (0..k as u64).map(|i| from + (i * 7 + seed * 3 + i * i * seed) % (p - from)).collect()
}

fn single(v: Vec<u64>) -> Vec<Vec<u64>> {
    v.into_iter().map(|x| vec![x]).collect()
}

/// Many parties: one computation with fixed randomness for each number of parties and threshold.
fn crowds(rep: &Report, prog: Prog, secrets: &[u64], triples: Option<usize>, expect: Expect) {
    let ns: &[usize] = if rep.thorough {
        &[6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513]
    } else {
        &[6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 257]
    };
    for (i, &n) in ns.iter().enumerate().rev() {
        let mut ts = vec![2, n / 2, n - 1, n];
        ts.dedup();
        for t in ts {
            if n > 33 && t > 20 && t < n {
                continue;
            }
            let seed = (i + t) as u64 % 4 + 1;
            let plan = |p| {
                let plan = Plan::new(p, n, t, prog).seed(seed);
                if matches!(prog, Prog::Random | Prog::Randoms(_)) {
                    plan.zero_masks()
                } else {
                    plan
                }
            };
            functional::<Mersenne61>(rep, "Mersenne61 many parties", plan((1 << 61) - 1), single(secrets.to_vec()), nothing, triples, expect);
            functional::<F257>(rep, "F257 many parties", plan(257), single(secrets.iter().map(|x| x % 257).collect()), nothing, triples, expect);
        }
    }
    rep.bound(format!("{:?} parties ({:?}): thresholds 2, half, all but one, all; fixed values and randomness, two fields", ns, prog));
}

// ------------------------------------------------------------------------------------------------------------------- C18

fn product(x: &[u64], _: &Net, p: u64) -> Vec<u64> {
    x.chunks(2).map(|c| mulmod(c[0], c[1], p)).collect()
}

fn mul_batches<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize, sizes: &[usize], seeds: u64) {
    for &k in sizes {
        for seed in 1..=seeds {
            functional::<F>(
                rep,
                &format!("{} batch={}", name, k),
                Plan::new(p, n, t, Prog::MultiplyAll).seed(seed),
                single(spread(2 * k, seed, p, 0)),
                nothing,
                Some(k),
                product,
            );
        }
    }
}

pub fn c18(rep: &Report) {
    let th = rep.thorough;
    let pl = |p, n, t| Plan::new(p, n, t, Prog::Multiply);
    functional::<F3>(rep, "F3 complete", pl(3, 2, 2).polys(), vec![all(3), all(3)], everything, Some(1), product);
    functional::<F5>(rep, "F5 triples", pl(5, 2, 2), vec![all(5), all(5)], triple_all, Some(1), product);
    functional::<F5>(rep, "F5 values", pl(5, 3, 2).polys(), vec![all(5), all(5)], triple_values, Some(1), product);
    functional::<F5>(rep, "F5 values", pl(5, 3, 3), vec![all(5), all(5)], triple_values, Some(1), product);
    functional::<F5>(rep, "F5 values", pl(5, 4, 2).seed(2), vec![all(5), all(5)], triple_values, Some(1), product);
    functional::<F5>(rep, "F5 values", pl(5, 4, 3).seed(3), vec![all(5), all(5)], triple_values, Some(1), product);
    functional::<F5>(rep, "F5 values", pl(5, 4, 4), vec![all(5), all(5)], triple_values, Some(1), product);
    functional::<F5>(rep, "F5 polynomials", pl(5, 3, 3).polys(), vec![vec![3], vec![4]], polynomials, Some(1), product);
    functional::<F7>(rep, "F7 values", pl(7, 3, 2).seed(4), vec![all(7), all(7)], triple_values, Some(1), product);
    functional::<F11>(rep, "F11 values", pl(11, 3, 2), vec![all(11), all(11)], triple_values, Some(1), product);
    if th {
        functional::<F5>(rep, "F5 complete", pl(5, 2, 2).polys(), vec![all(5), all(5)], everything, Some(1), product);
        functional::<F5>(rep, "F5 complete", pl(5, 3, 2).polys(), vec![all(5), all(5)], everything, Some(1), product);
        functional::<F13>(rep, "F13 values", pl(13, 4, 3), vec![all(13), all(13)], triple_values, Some(1), product);
    }
    rep.bound("single products: F3 n=2 complete; F5 (n 2..4, t 2..4), F7, F11: all secrets and triples, sharing polynomials enumerated or fixed in turn");
    let ba = |p, n, t| Plan::new(p, n, t, Prog::MultiplyAll);
    for k in 0..=2 {
        functional::<F3>(rep, &format!("F3 batch={}", k), ba(3, 2, 2), vec![all(3); 2 * k], triple_values, Some(k), product);
    }
    functional::<F3>(rep, "F3 batch=3", ba(3, 2, 2).seed(2), vec![all(3); 6], if th { triple_values } else { nothing }, Some(3), product);
    functional::<F5>(rep, "F5 batch=2", ba(5, 3, 2).seed(2), vec![all(5); 4], if th { triple_values } else { nothing }, Some(2), product);
    let sizes: Vec<usize> = if th { (0..=24).chain([40, 100]).collect() } else { (0..=9).chain([16, 33]).collect() };
    mul_batches::<F257>(rep, "F257", 257, 3, 2, &sizes, 6);
    mul_batches::<F251>(rep, "F251", 251, 4, 4, &sizes, 4);
    mul_batches::<Mersenne31>(rep, "Mersenne31", (1 << 31) - 1, 3, 3, &sizes, 4);
    mul_batches::<Mersenne61>(rep, "Mersenne61", (1 << 61) - 1, 4, 2, &sizes, 4);
    let mut large: Vec<usize> = around(if th { 12 } else { 10 });
    large.extend(LARGER);
    mul_batches::<Mersenne61>(rep, "Mersenne61", (1 << 61) - 1, 3, 2, &large, 1);
    mul_batches::<F257>(rep, "F257", 257, 2, 2, &large, 1);
    rep.bound(format!("batches of {:?} products", large));
    rep.bound(format!("batches of {:?} products with different factors at each position, several seeds of triples and polynomials; batches up to 2 (F3: 3) with all secrets and triples", sizes));
    crowds(rep, Prog::Multiply, &[5, (1 << 61) - 3], Some(1), product);
    crowds(rep, Prog::MultiplyAll, &[5, 77, 6, 1 << 40, 0, 3], Some(3), product);
    crate::bignet::wide_fields(rep, "C18");
    rep.assume("triples are valid and different for each product; the network delivers each opening to all parties");
    rep.sample(|| "F3 n=2 t=2: secrets 2,2, input polynomials 1,0, triple (1,2,2) shared with coefficients 0,2,1".into());
}

const LARGER: [usize; 3] = [1537, 2500, 5000];

/// Batch sizes next to powers of two.
fn around(top: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (4..=top).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    v.extend([100, 1000]);
    v.sort_unstable();
    v
}

// ------------------------------------------------------------------------------------------------------------------- C19

fn joint_sums(_: &[u64], net: &Net, _: u64) -> Vec<u64> {
    net.joint.iter().map(|j| j.1).collect()
}

/// With all contributions of the others fixed in every way, the results are uniform over one party's generator.
fn uniform<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize, k: usize, seed: u64) {
    if !rep.mine() {
        return;
    }
    let prog = if k == 1 { Prog::Random } else { Prog::Randoms(k) };
    let plan = Plan::new(p, n, t, prog).seed(seed).zero_masks();
    let scenario = format!("{} uniform {}", name, plan.text());
    type Acc = BTreeMap<(usize, Vec<Vec<u64>>), BTreeMap<(usize, Vec<u64>), u128>>;
    let accs = rep.explore(&scenario, 0, threads(), |ch, acc: &mut Acc| {
        lend(ch, |ch| {
            let drawn: Rc<RefCell<Vec<Vec<u64>>>> = Rc::new(RefCell::new(vec![vec![]; n]));
            let (c, d) = (ch.clone(), drawn.clone());
            let mut net = Net::new(n, t, p, move |v| match v {
                Var::Rng { party, .. } => {
                    let x = c.borrow_mut().pick(p as u32) as u64;
                    d.borrow_mut()[party].push(x);
                    x
                }
                _ => hashed(seed, v, p),
            });
            net.nonzero = false;
            net.lazy = plan.lazy;
            net.rng_limit = k + 2;
            if let Some((got, _)) = run::<F>(&plan, net, &[])? {
                let d = drawn.borrow();
                for i in 0..n {
                    let mut others = d.clone();
                    let own = std::mem::take(&mut others[i]).len();
                    *acc.entry((i, others)).or_default().entry((own, got.clone())).or_insert(0) += 1;
                }
            }
            Ok(())
        })
    });
    if rep.replay.is_some() || rep.violated() {
        return;
    }
    let mut merged: Acc = BTreeMap::new();
    for a in accs {
        for (key, m) in a {
            for (r, c) in m {
                *merged.entry(key.clone()).or_default().entry(r).or_insert(0) += c;
            }
        }
    }
    rep.add_states(merged.len() as u64);
    for ((i, others), m) in merged {
        let most = m.keys().map(|x| x.0).max().unwrap();
        let mut dist: BTreeMap<Vec<u64>, u128> = BTreeMap::new();
        for ((own, r), c) in m {
            *dist.entry(r).or_insert(0) += c * (p as u128).pow((most - own) as u32);
        }
        let full = p.pow(k as u32) as usize;
        if dist.len() != full || dist.values().any(|c| c != dist.values().next().unwrap()) {
            rep.fail(
                format!("{} party={} others={:?}", scenario, i + 1, others),
                format!("over the generator of one party the joint random numbers take {} of {} values or are not equally likely", dist.len(), full),
            );
            return;
        }
    }
}

pub fn c19(rep: &Report) {
    let th = rep.thorough;
    let pl = |p, n, t| Plan::new(p, n, t, Prog::Random).zero_masks();
    functional::<F3>(rep, "F3 complete", pl(3, 1, 1), vec![], everything, None, joint_sums);
    functional::<F3>(rep, "F3 complete", pl(3, 2, 2), vec![], everything, None, joint_sums);
    functional::<F5>(rep, "F5 complete", pl(5, 2, 2), vec![], everything, None, joint_sums);
    functional::<F5>(rep, "F5 complete", pl(5, 3, 2), vec![], everything, None, joint_sums);
    functional::<F5>(rep, "F5 contributions", pl(5, 4, 3).seed(2), vec![], generators, None, joint_sums);
    functional::<F5>(rep, "F5 contributions", pl(5, 4, 4), vec![], generators, None, joint_sums);
    functional::<F5>(rep, "F5 polynomials", pl(5, 3, 3), vec![], polynomials, None, joint_sums);
    functional::<F7>(rep, "F7 contributions", pl(7, 4, 2), vec![], generators, None, joint_sums);
    functional::<F31>(rep, "F31 contributions", pl(31, 3, 2), vec![], generators, None, joint_sums);
    if th {
        functional::<F5>(rep, "F5 complete", pl(5, 3, 3), vec![], everything, None, joint_sums);
        functional::<F7>(rep, "F7 complete", pl(7, 3, 2), vec![], everything, None, joint_sums);
    }
    let several = |p, n, t, k| Plan::new(p, n, t, Prog::Randoms(k)).zero_masks();
    functional::<F3>(rep, "F3 two", several(3, 2, 2, 2), vec![], everything, None, joint_sums);
    functional::<F3>(rep, "F3 three", several(3, 2, 2, 3), vec![], generators, None, joint_sums);
    functional::<F5>(rep, "F5 two", several(5, 3, 2, 2), vec![], generators, None, joint_sums);
    for seed in 1..=4 {
        functional::<F257>(rep, "F257", several(257, 4, 3, 9).seed(seed), vec![], nothing, None, joint_sums);
        functional::<Mersenne61>(rep, "Mersenne61", several((1 << 61) - 1, 5, 4, 9).seed(seed), vec![], nothing, None, joint_sums);
    }
    for k in around(if th { 11 } else { 9 }).into_iter().chain(LARGER) {
        functional::<Mersenne61>(rep, "Mersenne61", several((1 << 61) - 1, 3, 2, k).seed(3), vec![], nothing, None, joint_sums);
    }
    rep.bound("in a large field: numbers of concurrent generations next to all powers of two up to 512 (thorough: 2048), and 1537, 2500 and 5000");
    rep.bound("F3, F5 (n up to 3) complete: all contributions and polynomials; more parties and larger fields with one of both fixed; up to 9 concurrent generations");
    for seed in 1..=2 {
        uniform::<F3>(rep, "F3", 3, 2, 2, 1, seed);
        uniform::<F3>(rep, "F3", 3, 2, 2, 2, seed);
        uniform::<F3>(rep, "F3", 3, 2, 2, 3, seed);
        uniform::<F5>(rep, "F5", 5, 3, 2, 1, seed);
        uniform::<F5>(rep, "F5", 5, 3, 3, 2, seed);
        uniform::<F5>(rep, "F5", 5, 4, 3, 1, seed);
        uniform::<F7>(rep, "F7", 7, 2, 2, 2, seed);
        uniform::<F7>(rep, "F7", 7, 4, 4, 1, seed);
        uniform::<F13>(rep, "F13", 13, 3, 2, 1, seed);
    }
    rep.bound("distribution over one party's generator, for every party and every choice of the others, one to three numbers at once");
    crowds(rep, Prog::Random, &[], None, joint_sums);
    crowds(rep, Prog::Randoms(3), &[], None, joint_sums);
    crate::bignet::wide_fields(rep, "C19");
    rep.assume("the expected result is the sum of what the parties distribute; the network delivers all contributions");
    rep.sample(|| "F5 n=3 t=2: contributions 4,0,3 shared with coefficients 1,1,2 give shares of 2".into());
}

// ------------------------------------------------------------------------------------------------------------------- C20

fn inverses(x: &[u64], _: &Net, p: u64) -> Vec<u64> {
    x.iter().map(|v| powmod(*v, p - 2, p)).collect()
}

pub fn c20(rep: &Report) {
    let th = rep.thorough;
    for prog in [Prog::Invert, Prog::InvertAll] {
        let pl = |p, n, t| Plan::new(p, n, t, prog);
        functional::<F3>(rep, "F3 complete", pl(3, 2, 2).polys(), vec![nonzero(3)], everything, None, inverses);
        functional::<F5>(rep, "F5 masks", pl(5, 2, 2).polys(), vec![nonzero(5)], generators_and_triples, None, inverses);
        functional::<F5>(rep, "F5 masks", pl(5, 3, 2), vec![nonzero(5)], generators_and_triples, None, inverses);
        functional::<F5>(rep, "F5 masks", pl(5, 4, 3).seed(2), vec![nonzero(5)], generators_and_triples, None, inverses);
        functional::<F5>(rep, "F5 masks", pl(5, 4, 4).seed(3), vec![nonzero(5)], generators, None, inverses);
        functional::<F5>(rep, "F5 polynomials", pl(5, 2, 2).polys(), vec![nonzero(5)], polynomials, None, inverses);
        functional::<F7>(rep, "F7 masks", pl(7, 2, 2), vec![nonzero(7)], generators_and_triples, None, inverses);
        functional::<F11>(rep, "F11 masks", pl(11, 3, 3).seed(2), vec![nonzero(11)], generators, None, inverses);
        if th {
            functional::<F7>(rep, "F7 masks", pl(7, 3, 2).seed(2), vec![nonzero(7)], generators_and_triples, None, inverses);
            functional::<F5>(rep, "F5 polynomials", pl(5, 3, 2).polys(), vec![nonzero(5)], polynomials, None, inverses);
        }
        for seed in 1..=6 {
            functional::<F251>(rep, "F251 all", pl(251, 3, 2).seed(seed), vec![nonzero(251)], nothing, None, inverses);
            functional::<Mersenne31>(
                rep,
                "Mersenne31",
                pl((1 << 31) - 1, 4, 3).seed(seed),
                vec![vec![1, 2, 3, (1 << 30) - 1, 1 << 30, (1 << 31) - 3, (1 << 31) - 2]],
                nothing,
                None,
                inverses,
            );
        }
    }
    rep.bound("single inversions: F3 n=2 complete; F5, F7, F11 (n up to 4): all secrets, masks split in all ways, triples; all secrets of F251");
    let ba = |p, n, t| Plan::new(p, n, t, Prog::InvertAll);
    functional::<F3>(rep, "F3 batch=2", ba(3, 2, 2), vec![nonzero(3); 2], generators_and_triples, None, inverses);
    functional::<F5>(rep, "F5 batch=2", ba(5, 2, 2).seed(2), vec![nonzero(5); 2], generators, None, inverses);
    functional::<F5>(rep, "F5 batch=3", ba(5, 1, 1), vec![nonzero(5); 3], generators, None, inverses);
    functional::<F5>(rep, "F5 batch=3", ba(5, 3, 3).seed(3), vec![nonzero(5); 3], nothing, None, inverses);
    let sizes: Vec<usize> = if th { (0..=24).chain([40, 100]).collect() } else { (0..=9).chain([16, 33]).collect() };
    for &k in &sizes {
        for seed in 1..=4 {
            functional::<F257>(rep, &format!("F257 batch={}", k), ba(257, 3, 2).seed(seed), single(spread(k, seed, 257, 1)), nothing, None, inverses);
            let p = (1 << 61) - 1;
            functional::<Mersenne61>(rep, &format!("Mersenne61 batch={}", k), ba(p, 4, 3).seed(seed), single(spread(k, seed, p, 1)), nothing, None, inverses);
        }
    }
    let mut large: Vec<usize> = around(if th { 12 } else { 10 });
    large.extend(LARGER);
    for &k in &large {
        let p = (1 << 61) - 1;
        functional::<Mersenne61>(rep, &format!("Mersenne61 batch={}", k), ba(p, 3, 2).seed(5), single(spread(k, 5, p, 1)), nothing, None, inverses);
        functional::<F257>(rep, &format!("F257 batch={}", k), ba(257, 2, 2).seed(5), single(spread(k, 5, 257, 1)), nothing, None, inverses);
    }
    rep.bound(format!("batches of {:?} values", large));
    rep.bound(format!("batches of {:?} different values, several seeds; batches of 2 and 3 with all secrets and masks", sizes));
    crowds(rep, Prog::Invert, &[1 << 50], None, inverses);
    crowds(rep, Prog::InvertAll, &[9, 10, (1 << 61) - 2], None, inverses);
    crate::bignet::wide_fields(rep, "C20");
    rep.assume("secrets are not zero; executions in which a joint mask is zero are left out");
    rep.sample(|| "F5 n=2: secret 3, contributions 4 and 3 (mask 2), triple (1,4,4): both hold consistent shares of 2".into());
}

// ------------------------------------------------------------------------------------------------------------------- C21

fn or(x: &[u64], _: &Net, _: u64) -> Vec<u64> {
    vec![x.iter().any(|b| *b == 1) as u64]
}

fn or_all<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize, lens: std::ops::RangeInclusive<usize>, seeds: std::ops::RangeInclusive<u64>) {
    for l in lens {
        for seed in seeds.clone() {
            functional::<F>(rep, &format!("{} bits={}", name, l), Plan::new(p, n, t, Prog::OrAll).seed(seed), vec![vec![0, 1]; l], nothing, None, or);
        }
    }
}

fn or_some<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize, l: usize, seeds: std::ops::RangeInclusive<u64>) {
    let mut vectors: Vec<Vec<u64>> = vec![vec![0; l], vec![1; l]];
    for i in [0, 1, l / 2, l - 1] {
        let mut v = vec![0; l];
        v[i] = 1;
        vectors.push(v.clone());
        vectors.push(v.iter().map(|b| 1 - b).collect());
    }
    vectors.push((0..l as u64).map(|i| i % 2).collect());
    vectors.push((0..l as u64).map(|i| (i * i + i / 3) % 2).collect());
    for seed in seeds {
        for v in &vectors {
            functional::<F>(rep, &format!("{} {:?}", name, v), Plan::new(p, n, t, Prog::OrAll).seed(seed), single(v.clone()), nothing, None, or);
        }
    }
}

pub fn c21(rep: &Report) {
    let th = rep.thorough;
    let pl = |p, n, t| Plan::new(p, n, t, Prog::OrAll);
    for prog in [Prog::Or, Prog::OrAll] {
        let one = |p, n, t| Plan::new(p, n, t, prog);
        functional::<F3>(rep, "F3 one bit", one(3, 2, 2).polys(), vec![vec![0, 1]], generators_and_triples, None, or);
        functional::<F5>(rep, "F5 one bit", one(5, 2, 2), vec![vec![0, 1]], generators, None, or);
        functional::<F5>(rep, "F5 one bit", one(5, 1, 1), vec![vec![0, 1]], generators_and_triples, None, or);
        functional::<F3>(rep, "F3 one bit", one(3, 2, 2).polys(), vec![vec![0, 1]], polynomials, None, or);
        for seed in 1..=4 {
            functional::<F7>(rep, "F7 one bit", one(7, 3, 2).seed(seed), vec![vec![0, 1]], nothing, None, or);
            functional::<Mersenne61>(rep, "Mersenne61 one bit", one((1 << 61) - 1, 4, 3).seed(seed), vec![vec![0, 1]], nothing, None, or);
        }
    }
    functional::<F3>(rep, "F3 two bits", pl(3, 1, 1).wide(), vec![vec![0, 1]; 2], generators_and_triples, None, or);
    functional::<F3>(rep, "F3 two bits", pl(3, 2, 2), vec![vec![0, 1]; 2], generators, None, or);
    functional::<F5>(rep, "F5 two bits", pl(5, 1, 1), vec![vec![0, 1]; 2], generators, None, or);
    functional::<F5>(rep, "F5 three bits", pl(5, 1, 1).wide(), vec![vec![0, 1]; 3], generators, None, or);
    functional::<F7>(rep, "F7 two bits", pl(7, 1, 1), vec![vec![0, 1]; 2], generators, None, or);
    if th {
        functional::<F5>(rep, "F5 two bits", pl(5, 2, 2).wide(), vec![vec![0, 1]; 2], generators, None, or);
    }
    rep.bound("masks: all contributions of all parties for one and two bits in F3, F5, F7 (three bits in F5), with all triples for one bit (two bits in F3)");
    or_all::<F3>(rep, "F3", 3, 2, 2, 1..=2, 1..=20);
    or_all::<F5>(rep, "F5", 5, 3, 2, 1..=4, 1..=16);
    or_all::<F5>(rep, "F5", 5, 4, 4, 1..=4, 1..=8);
    or_all::<F7>(rep, "F7", 7, 3, 3, 1..=6, 1..=8);
    or_all::<F7>(rep, "F7", 7, 6, 4, 1..=6, 1..=2);
    or_all::<F11>(rep, "F11", 11, 3, 2, 1..=(if th { 10 } else { 8 }), 1..=3);
    or_all::<F13>(rep, "F13", 13, 2, 2, 1..=(if th { 12 } else { 8 }), 1..=(if th { 4 } else { 1 }));
    or_some::<F11>(rep, "F11", 11, 3, 2, 9, 1..=4);
    or_some::<F11>(rep, "F11", 11, 3, 2, 10, 1..=4);
    or_some::<F13>(rep, "F13", 13, 4, 3, 12, 1..=4);
    or_some::<F17>(rep, "F17", 17, 3, 2, 16, 1..=4);
    or_some::<F31>(rep, "F31", 31, 3, 2, 30, 1..=2);
    or_some::<F257>(rep, "F257", 257, 3, 2, 21, 1..=2);
    or_some::<F65537>(rep, "F65537", 65537, 2, 2, 13, 1..=2);
    for l in 1..=(if th { 10 } else { 6 }) {
        or_all::<Mersenne61>(rep, "Mersenne61", (1 << 61) - 1, 3, 2, l..=l, 1..=2);
        or_all::<FB32p15>(rep, "2^32+15", 4294967311, 2, 2, l..=l, 1..=2);
    }
    or_some::<Mersenne61>(rep, "Mersenne61", (1 << 61) - 1, 3, 2, if th { 40 } else { 20 }, 1..=1);
    or_some::<F61>(rep, "F61", 61, 2, 2, 60, 1..=1);
    or_some::<F127>(rep, "F127", 127, 2, 2, 126, 1..=1);
    for l in [31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129].iter().chain(if th { &[255, 256, 257][..] } else { &[] }) {
        or_some::<Mersenne61>(rep, "Mersenne61", (1 << 61) - 1, 2, 2, *l, 1..=1);
    }
    for l in [255, 256, 257] {
        for v in [vec![0; l], [vec![0; l - 1], vec![1]].concat(), vec![1; l]] {
            let p = (1 << 61) - 1;
            functional::<Mersenne61>(rep, &format!("Mersenne61 {} bits {}", l, v.iter().sum::<u64>()), pl(p, 1, 1), single(v), nothing, None, or);
        }
    }
    rep.bound("boundary vectors of 31 to 129 (thorough: 257) bits in a large field, of 60 and 126 bits in F61 and F127; none, one and all of 255 to 257 bits at a single party");
    rep.bound("every bit vector of every length below the prime in F3, F5, F7, up to 8 (thorough: all) in F11 and F13, up to 6 (thorough: 10) in large fields; boundary vectors of up to 30 bits; genuine sharings among 2 to 6 parties");
    crowds(rep, Prog::Or, &[1], None, or);
    crowds(rep, Prog::OrAll, &[0, 0, 0], None, or);
    crowds(rep, Prog::OrAll, &[0, 1], None, or);
    crate::bignet::wide_fields(rep, "C21");
    rep.assume("inputs are bits; executions in which a joint mask is zero are left out");
    rep.sample(|| "F5 n=3 t=2: bits 0,1,0,1 with fixed random masks give consistent shares of 1".into());
}

// ------------------------------------------------------------------------------------------------------------------- C22

fn selected(x: &[u64], _: &Net, _: u64) -> Vec<u64> {
    vec![if x[0] == 1 { x[1] } else { x[2] }]
}

pub fn c22(rep: &Report) {
    let th = rep.thorough;
    let pl = |p, n, t| Plan::new(p, n, t, Prog::Select);
    let dom = |p| vec![vec![0, 1], all(p), all(p)];
    functional::<F3>(rep, "F3 complete", pl(3, 2, 2).polys(), dom(3), everything, None, selected);
    functional::<F5>(rep, "F5 values", pl(5, 2, 2), dom(5), triple_all, None, selected);
    functional::<F5>(rep, "F5 values", pl(5, 3, 2), dom(5), triple_values, None, selected);
    functional::<F5>(rep, "F5 values", pl(5, 3, 3).seed(2), dom(5), triple_values, None, selected);
    functional::<F5>(rep, "F5 values", pl(5, 4, 3).seed(3), dom(5), triple_values, None, selected);
    functional::<F5>(rep, "F5 values", pl(5, 4, 4).seed(4), dom(5), triple_values, None, selected);
    functional::<F5>(rep, "F5 polynomials", pl(5, 3, 2).polys(), vec![vec![0, 1], vec![4], vec![2]], polynomials, None, selected);
    functional::<F7>(rep, "F7 values", pl(7, 4, 2).seed(2), dom(7), triple_values, None, selected);
    functional::<F7>(rep, "F7 inputs", pl(7, 3, 2).polys(), dom(7), nothing, None, selected);
    functional::<F31>(rep, "F31 values", pl(31, 3, 2), dom(31), nothing, None, selected);
    if th {
        functional::<F5>(rep, "F5 complete", pl(5, 2, 2).polys(), dom(5), triple_all, None, selected);
        functional::<F5>(rep, "F5 polynomials", pl(5, 3, 3).polys(), vec![vec![0, 1], vec![1], vec![3]], polynomials, None, selected);
        functional::<F11>(rep, "F11 values", pl(11, 3, 2), dom(11), triple_values, None, selected);
    }
    for seed in 1..=8 {
        let p = (1u64 << 61) - 1;
        let v = vec![0, 1, 2, p / 2, p / 2 + 1, p - 2, p - 1];
        functional::<Mersenne61>(rep, "Mersenne61", pl(p, 4, 3).seed(seed), vec![vec![0, 1], v.clone(), v], nothing, None, selected);
    }
    rep.bound("F3 n=2 complete; F5 and F7 (n up to 4, t up to 4): both conditions, all operands and triples; boundary operands in a 61-bit field");
    crowds(rep, Prog::Select, &[1, 1 << 45, 7], Some(1), selected);
    crowds(rep, Prog::Select, &[0, 1 << 45, 7], Some(1), selected);
    crate::bignet::wide_fields(rep, "C22");
    rep.assume("the condition is a bit");
    rep.sample(|| "F5 n=3: condition 0, operands 4 and 2, triple (3,3,4): consistent shares of 2".into());
}

// ------------------------------------------------------------------------------------------------------------------- C23

fn hash_view(opened: &[(usize, u64)], view: &[&Vec<u64>]) -> u128 {
    let mut h = [0x243f6a8885a308d3u64, 0x13198a2e03707344];
    let mut add = |v: u64| {
        for (i, x) in h.iter_mut().enumerate() {
            let mut r = MixRng(*x ^ v.wrapping_mul(0x9e3779b97f4a7c15 + 2 * i as u64));
            *x = r.next();
        }
    };
    for (op, v) in opened {
        add(1 + *op as u64);
        add(*v);
    }
    for v in view {
        add(0xffff_ffff);
        for x in v.iter() {
            add(*x);
        }
    }
    (h[0] as u128) << 64 | h[1] as u128
}

/// For each secret input, the multiset of (openings, view of a coalition) over all enumerated randomness. `split` leading
/// random values are fixed per work unit, so the work spreads over processes.
#[allow(clippy::too_many_arguments)]
fn leak<F: Field>(
    rep: &Report,
    name: &str,
    plan: &Plan,
    secrets: &[Vec<u64>],
    coalition_max: usize,
    only: Option<usize>,
    explored: fn(Var) -> bool,
    products: bool,
    split: u32,
) {
    let p = plan.p;
    let cos: Vec<Vec<usize>> = match only {
        Some(i) => vec![vec![i]],
        None => coalitions(plan.n, coalition_max),
    };
    let scenario = format!("{} {}", name, plan.text());
    if rep.replay.as_ref().map_or(false, |r| !r.starts_with(&format!("{}|", scenario))) {
        return;
    }
    for s in secrets {
        for part in 0..p.pow(split) {
            if !rep.mine() {
                continue;
            }
            let mut sums = vec![(0u128, 0u64); cos.len() + 1];
            let mut errors = 0u64;
            // depth-first enumeration of the random values, without recording each path
            let mut prefix: Vec<u32> = vec![];
            let mut nodes = 0u64;
            let mut runs = 0u64;
            loop {
                let mut ch = Choices::new(prefix.clone(), 0);
                let r = lend(&mut ch, |ch| {
                    let mut fixed = (0..split).map(|k| (part / p.pow(k) % p) as u32).collect::<Vec<u32>>();
                    fixed.reverse();
                    let inputs: Vec<Vec<u64>> = s
                        .iter()
                        .enumerate()
                        .map(|(k, x)| {
                            let coef: Vec<u64> = (1..plan.t)
                                .map(|_| {
                                    if plan.input_polys {
                                        ch.borrow_mut().pick(p as u32) as u64
                                    } else {
                                        hashed(plan.seed, Var::DistPoly { party: 9, op: 99, k }, p)
                                    }
                                })
                                .collect();
                            shares(*x, &coef, plan.n, p)
                        })
                        .collect();
                    let c = ch.clone();
                    let seed = plan.seed;
                    let mut net = Net::new(plan.n, plan.t, p, move |v| {
                        if explored(v) {
                            match fixed.pop() {
                                Some(x) => x as u64,
                                None => c.borrow_mut().pick(p as u32) as u64,
                            }
                        } else if generators(v) {
                            0
                        } else {
                            hashed(seed, v, p)
                        }
                    });
                    net.keep_views = true;
                    net.view_products = products;
                    net.rng_limit = 2 * s.len() + 2;
                    let mut comp = Computation::<F>::new(net, plan.prog, &inputs);
                    match comp.run() {
                        Ok(Some(_)) => (),
                        Ok(None) => return Ok(()),
                        Err(_) => {
                            if !comp.abandoned() {
                                errors += 1;
                            }
                            return Ok(());
                        }
                    }
                    let net = comp.net.lock().unwrap();
                    for (i, co) in cos.iter().enumerate() {
                        let v: Vec<&Vec<u64>> = co.iter().map(|m| &net.views[*m]).collect();
                        let h = hash_view(&net.opened, &v);
                        sums[i].0 = sums[i].0.wrapping_add(h);
                        sums[i].1 += 1;
                    }
                    let last = sums.len() - 1;
                    sums[last].0 = sums[last].0.wrapping_add(hash_view(&net.opened, &[]));
                    sums[last].1 += 1;
                    Ok(())
                });
                if r.is_err() {
                    errors += 1;
                }
                runs += 1;
                nodes += (ch.trace.len() - prefix.len().min(ch.trace.len())) as u64 + 1;
                // next path
                let mut t = ch.trace;
                while let Some(l) = t.last() {
                    if l.chosen + 1 < l.n {
                        break;
                    }
                    t.pop();
                }
                match t.last_mut() {
                    None => break,
                    Some(l) => l.chosen += 1,
                }
                prefix = t.iter().map(|x| x.chosen).collect();
                if runs & 0xfff == 0 && (rep.stopped() || rep.over_deadline()) {
                    break;
                }
            }
            rep.add_execs(runs);
            rep.add_states(nodes);
            rep.add_transitions(nodes);
            if errors > 0 {
                rep.outcome("executions that failed (not judged by this property)", errors);
            }
            let member = format!("secrets {:?}", s);
            for (i, (sum, count)) in sums.iter().enumerate() {
                let group = match cos.get(i) {
                    Some(co) => format!("{}|coalition {:?}", scenario, co.iter().map(|x| x + 1).collect::<Vec<_>>()),
                    None => format!("{}|openings alone", scenario),
                };
                rep.fact(&group, &member, *sum, *count);
            }
        }
    }
}

fn tuples(domains: &[Vec<u64>]) -> Vec<Vec<u64>> {
    domains.iter().fold(vec![vec![]], |acc, d| {
        acc.into_iter()
            .flat_map(|a| {
                d.iter().map(move |x| {
                    let mut b = a.clone();
                    b.push(*x);
                    b
                })
            })
            .collect()
    })
}

fn one_side(v: Var) -> bool {
    match v {
        Var::Rng { party, .. } | Var::DistPoly { party, .. } => party == 0,
        Var::TriplePoly { which, .. } => which != 2,
        _ => true,
    }
}

/// With equal secrets at all positions and all masks and triples different from each other, values opened twice show
/// that one of them was used twice.
fn fresh(rep: &Report, prog: Prog, k: usize, n: usize, t: usize, seed: u64) {
    if !rep.mine() {
        return;
    }
    let p = (1u64 << 61) - 1;
    let plan = Plan::new(p, n, t, prog).seed(seed);
    let values: &[u64] = match prog {
        Prog::OrAll => &[0, 1],
        _ => &[1, 987654321987654321],
    };
    for &v in values {
        let count = if prog == Prog::MultiplyAll { 2 * k } else { k };
        rep.case(
            || format!("openings {} batch={} value={}", plan.text(), k, v),
            || {
                let x: Vec<Vec<u64>> = (0..count).map(|i| hashed_shares(v, seed * 1000 + i as u64, n, t, p)).collect();
                let net = Net::new(n, t, p, move |v| hashed(seed, v, p));
                let mut c = Computation::<Mersenne61>::new(net, prog, &x);
                // a failing run is the business of other properties
                if !matches!(c.run(), Ok(Some(_))) {
                    return Ok(());
                }
                let net = c.net.lock().unwrap();
                let mut seen = BTreeMap::new();
                for (at, (op, o)) in net.opened.iter().enumerate() {
                    if let Some(before) = seen.insert(*o, at) {
                        return Err(format!(
                            "openings {} and {} (operation {}) reveal the same value although all masks differ",
                            before + 1,
                            at + 1,
                            op
                        ));
                    }
                }
                rep.add_states(net.opened.len() as u64);
                rep.add_transitions(net.opened.len() as u64);
                Ok(())
            },
        );
    }
}

mod square {
    use jester_maths::prime::PrimeField;
    use jester_maths::prime_fields;
    use mashup::*;
    // the whole numbers modulo the square of 2^31 - 1
    prime_fields!(pub Square("4611686014132420609", 10));
}

const ROOT: u64 = (1 << 31) - 1;

/// What is opened, and everything held by the coalition, in the execution in which each random value and each secret has
/// its usual value, except that `moved` is larger by 2^31 - 1.
fn trace(plan: &Plan, secrets: &[u64], coalition: &[usize], moved: Option<Result<Var, usize>>) -> Option<(Vec<u64>, Vec<Var>)> {
    use num::One;
    let m = ROOT * ROOT;
    let vars = Rc::new(RefCell::new(vec![]));
    let value = move |v: Var, seed: u64| {
        let x = hashed(seed, v, m);
        if moved == Some(Ok(v)) {
            addmod(x, ROOT, m)
        } else {
            x
        }
    };
    let inputs: Vec<Vec<u64>> = secrets
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let s = if moved == Some(Err(i)) { addmod(*s, ROOT, m) } else { *s };
            let coef: Vec<u64> = (1..plan.t)
                .map(|k| {
                    let v = Var::DistPoly { party: 99, op: i, k };
                    vars.borrow_mut().push(v);
                    value(v, plan.seed)
                })
                .collect();
            shares(s, &coef, plan.n, m)
        })
        .collect();
    let (seen, seed) = (vars.clone(), plan.seed);
    let mut net = Net::new(plan.n, plan.t, m, move |v| {
        seen.borrow_mut().push(v);
        value(v, seed)
    });
    net.keep_views = true;
    net.lazy = plan.lazy;
    // the inverses used must be those of the ring
    let x = square::Square::from(num::BigUint::from(hashed(seed, Var::TripleA { op: 999, j: 0 }, m)));
    if !(x.clone() * x.inverse()).is_one() {
        return None;
    }
    let mut c = Computation::<square::Square>::new(net, plan.prog, &inputs);
    if !matches!(c.run(), Ok(Some(_))) {
        return None;
    }
    let net = c.net.lock().unwrap();
    let mut seen: Vec<u64> = net.opened.iter().map(|o| o.1).collect();
    for i in coalition {
        seen.extend_from_slice(&net.views[*i]);
    }
    drop(net);
    let v = vars.borrow().clone();
    Some((seen, v))
}

/// The directions in which what is seen moves when a secret moves must be among those in which it moves when random values
/// do: otherwise its distribution depends on the secret. Computations are carried out modulo the square of a prime, where
/// the effect of adding the prime to one value is, exactly, the derivative.
fn tangent(rep: &Report, prog: Prog, k: usize, n: usize, t: usize, coalition: &[usize]) {
    if !rep.mine() {
        return;
    }
    let count = match prog {
        Prog::MultiplyAll => 2 * k,
        _ => k,
    };
    rep.case(
        || format!("directions p=(2^31-1)^2 n={} t={} {:?} size={} coalition={:?}", n, t, prog, k, coalition),
        || {
            let m = ROOT * ROOT;
            let mut found = String::new();
            for seed in 1..=3 {
                let plan = Plan::new(m, n, t, prog).seed(seed);
                let secrets: Vec<u64> = (0..count).map(|i| hashed(seed, Var::TripleB { op: 777, j: i }, m)).collect();
                let base = match trace(&plan, &secrets, coalition, None) {
                    Some(b) => b,
                    None => {
                        rep.outcome("direction analyses not carried out", 1);
                        return Ok(());
                    }
                };
                let derivative = |moved| -> Option<Vec<u64>> {
                    let (seen, _) = trace(&plan, &secrets, coalition, Some(moved))?;
                    if seen.len() != base.0.len() {
                        return None;
                    }
                    seen.iter()
                        .zip(&base.0)
                        .map(|(a, b)| {
                            let d = addmod(*a, m - *b, m);
                            if d % ROOT == 0 {
                                Some(d / ROOT)
                            } else {
                                None
                            }
                        })
                        .collect()
                };
                // vectors in echelon form, by the position of their first non-zero entry
                let mut basis: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
                let reduce = |basis: &BTreeMap<usize, Vec<u64>>, mut v: Vec<u64>| -> Option<(usize, Vec<u64>)> {
                    for at in 0..v.len() {
                        if v[at] == 0 {
                            continue;
                        }
                        match basis.get(&at) {
                            None => {
                                let inv = powmod(v[at], ROOT - 2, ROOT);
                                for x in v.iter_mut() {
                                    *x = *x * inv % ROOT;
                                }
                                return Some((at, v));
                            }
                            Some(b) => {
                                let f = ROOT - v[at];
                                for (x, y) in v.iter_mut().zip(b).skip(at) {
                                    *x = (*x + f * y) % ROOT;
                                }
                            }
                        }
                    }
                    None
                };
                let mut seen = std::collections::BTreeSet::new();
                for v in &base.1 {
                    if !seen.insert(*v) {
                        continue;
                    }
                    match derivative(Ok(*v)) {
                        Some(d) => {
                            if let Some((at, d)) = reduce(&basis, d) {
                                basis.insert(at, d);
                            }
                        }
                        None => {
                        rep.outcome("direction analyses not carried out", 1);
                        return Ok(());
                    }
                    }
                }
                rep.add_states((seen.len() + count) as u64);
                rep.add_transitions((seen.len() + count) as u64);
                let mut leaking = None;
                for i in 0..count {
                    match derivative(Err(i)) {
                        Some(d) => {
                            if reduce(&basis, d).is_some() {
                                leaking = Some(i);
                                break;
                            }
                        }
                        None => {
                        rep.outcome("direction analyses not carried out", 1);
                        return Ok(());
                    }
                    }
                }
                match leaking {
                    None => {
                        rep.outcome("direction analyses carried out", 1);
                        return Ok(());
                    }
                    Some(i) => {
                        found = format!(
                            "what is opened{} moves with secret {} in a way no random value can hide ({} values seen, {} independent directions from {} random values)",
                            if coalition.is_empty() { "" } else { " or held by the coalition" },
                            i + 1,
                            base.0.len(),
                            basis.len(),
                            seen.len()
                        )
                    }
                }
            }
            Err(found)
        },
    );
}

pub fn c23(rep: &Report) {
    let th = rep.thorough;
    for k in (1..=10).chain(around(if th { 11 } else { 9 })) {
        for seed in 1..=2 {
            for (n, t) in [(1, 1), (3, 2), (9, 4), (17, 17)] {
                if n > 3 && (k > 8 && k != 33 || seed > 1) {
                    continue;
                }
                fresh(rep, Prog::MultiplyAll, k, n, t, seed);
                fresh(rep, Prog::InvertAll, k, n, t, seed);
                if k <= if th { 65 } else { 33 } {
                    if n <= 3 || k <= 8 {
                        fresh(rep, Prog::OrAll, k, n, t, seed);
                    }
                }
            }
        }
    }
    rep.bound("batches next to powers of two up to 512 (thorough: 2048; or: 32, 64): all openings differ when all masks and triples differ and the secrets are equal");
    rep.bound("the directions in which openings and a coalition's view move with each secret lie in the span of those in which they move with the random values: batches of 1 to 12, 15, 16, 17, 33, 65 (or: up to 6 and 17; thorough: up to 33), 1 to 5 parties, all sequences of two protocols, longer sessions");
    let sizes: Vec<usize> = (1..=12).chain(if th { vec![15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 129] } else { vec![15, 16, 17, 33, 65] }).collect();
    for &k in &sizes {
        for (n, t, coalition) in [(1, 1, &[][..]), (3, 2, &[0]), (3, 2, &[2]), (5, 3, &[1, 3])] {
            if k <= if n == 1 { 200 } else if th { 33 } else { 12 } {
                tangent(rep, Prog::MultiplyAll, k, n, t, coalition);
                tangent(rep, Prog::InvertAll, k, n, t, coalition);
            }
            if k <= match (n, th) { (1, false) => 17, (1, true) => 33, (3, false) => 6, (_, false) => 3, (3, true) => 12, _ => 6 } {
                tangent(rep, Prog::OrAll, k, n, t, coalition);
            }
            if k == 1 {
                tangent(rep, Prog::Or, 1, n, t, coalition);
                tangent(rep, Prog::Invert, 1, n, t, coalition);
                tangent(rep, Prog::Multiply, 2, n, t, coalition);
                tangent(rep, Prog::Select, 3, n, t, coalition);
                for s in secret_sessions() {
                    tangent(rep, Prog::Session(s), 3, n, t, coalition);
                }
            }
        }
    }
    let pl = |p, n, t, prog| Plan::new(p, n, t, prog).polys();
    let op = |p, prog| Plan::new(p, 1, 1, prog);
    let bits = |l| tuples(&vec![vec![0, 1]; l]);
    // products
    for prog in [Prog::Multiply, Prog::MultiplyAll] {
        leak::<F3>(rep, "F3", &pl(3, 2, 2, prog), &tuples(&[all(3), all(3)]), 1, None, everything, true, 1);
        leak::<F5>(rep, "F5", &op(5, prog), &tuples(&[all(5), all(5)]), 0, None, everything, true, 0);
        if th {
            leak::<F5>(rep, "F5", &pl(5, 2, 2, prog), &tuples(&[all(5), all(5)]), 1, None, everything, true, 1);
            leak::<F5>(rep, "F5", &pl(5, 3, 2, prog), &tuples(&[vec![0, 3], vec![0, 1]]), 1, None, everything, true, 1);
        }
    }
    leak::<F3>(rep, "F3 batch=2", &op(3, Prog::MultiplyAll), &tuples(&vec![all(3); 4]), 0, None, everything, true, 0);
    leak::<F3>(rep, "F3 batch=3", &op(3, Prog::MultiplyAll), &tuples(&vec![vec![0, 1], all(3), vec![1, 2], all(3), vec![0, 2], vec![0, 1]]), 0, None, everything, true, 0);
    leak::<F5>(rep, "F5 batch=2", &op(5, Prog::MultiplyAll), &tuples(&vec![vec![0, 1, 4], vec![0, 2, 3], vec![1, 4], vec![0, 3]]), 0, None, everything, true, 0);
    // inversions
    for prog in [Prog::Invert, Prog::InvertAll] {
        leak::<F3>(rep, "F3", &pl(3, 2, 2, prog), &tuples(&[nonzero(3)]), 1, None, everything, true, 2);
        leak::<F5>(rep, "F5", &op(5, prog), &tuples(&[nonzero(5)]), 0, None, everything, true, 0);
        leak::<F7>(rep, "F7", &op(7, prog), &tuples(&[nonzero(7)]), 0, None, everything, true, 0);
    }
    leak::<F3>(rep, "F3 batch=2", &op(3, Prog::InvertAll), &tuples(&vec![nonzero(3); 2]), 0, None, everything, true, 0);
    leak::<F3>(rep, "F3 batch=3", &op(3, Prog::InvertAll), &tuples(&vec![nonzero(3); 3]), 0, None, everything, true, 0);
    leak::<F5>(rep, "F5 batch=2", &op(5, Prog::InvertAll), &tuples(&vec![nonzero(5); 2]), 0, None, everything, true, 0);
    // or
    for prog in [Prog::Or, Prog::OrAll] {
        leak::<F3>(rep, "F3 one bit", &op(3, prog), &bits(1), 0, None, everything, true, 0);
        leak::<F5>(rep, "F5 one bit", &op(5, prog), &bits(1), 0, None, everything, true, 1);
    }
    leak::<F7>(rep, "F7 one bit", &op(7, Prog::OrAll), &bits(1), 0, None, everything, true, 1);
    leak::<F3>(rep, "F3 one bit", &pl(3, 2, 2, Prog::OrAll), &bits(1), 1, Some(1), one_side, false, 2);
    // two bits in a field of three elements: the sum of the bits plus one must not be zero
    leak::<F3>(rep, "F3 two bits", &op(3, Prog::OrAll), &[vec![0, 0], vec![1, 0], vec![0, 1]], 0, None, everything, true, 4);
    if th {
        leak::<F3>(rep, "F3 one bit", &pl(3, 2, 2, Prog::Or), &bits(1), 1, Some(1), one_side, false, 2);
    }
    // selection
    leak::<F3>(rep, "F3", &pl(3, 2, 2, Prog::Select), &tuples(&[vec![0, 1], all(3), all(3)]), 1, None, everything, true, 1);
    leak::<F5>(rep, "F5", &op(5, Prog::Select), &tuples(&[vec![0, 1], all(5), all(5)]), 0, None, everything, true, 0);
    rep.bound("F3 n=2 t=2 complete (products, inversions, selections; one bit of the or against party 2), openings alone in F5 and F7; batches of 2 and 3; the or of two bits in F3: for every secret input the multiset of (openings, coalition's view) over all randomness");
    rep.assume("triples and the parties' generators are uniform; executions in which a joint mask is zero are left out");
    rep.assume("directions: what is opened is an algebraic function of secrets and random values around the points examined");
    rep.assume("multisets are compared by a 128-bit sum of hashes");
    rep.sample(|| "F3 n=2: product of 1 and 2 versus 0 and 0: the pairs (openings, what party 2 holds) over all 3^7 random choices are the same multiset".into());
}

pub fn c23_judge(rep: &Report) {
    rep.judge_facts("what is opened and seen depends on the secrets");
}

// ------------------------------------------------------------------------------------------------------------------- C25

/// All completion and polling orders up to the budget of deviations from in-order delivery.
fn schedules<F: Field>(rep: &Report, name: &str, plan: Plan, secrets: Vec<u64>, budget: u32, full: bool) {
    let started = std::time::Instant::now();
    let scenario = format!("{} {:?} {}", name, secrets, plan.text());
    let draw = |plan: &Plan| {
        let (p, seed) = (plan.p, plan.seed);
        let mut net = Net::new(plan.n, plan.t, p, move |v| hashed(seed, v, p));
        // an opened zero leads to an undefined inverse, so such masks are not used here
        net.nonzero = plan.nonzero;
        net.lazy = plan.lazy;
        net
    };
    let inputs: Vec<Vec<u64>> =
        secrets.iter().enumerate().map(|(k, s)| hashed_shares(*s, plan.seed * 1000 + k as u64, plan.n, plan.t, plan.p)).collect();
    let base = match guarded(|| run::<F>(&plan, draw(&plan), &inputs)).unwrap_or_else(Err) {
        Ok(Some((r, c))) => {
            let k = c.net.lock().unwrap().kinds();
            (r, k)
        }
        Ok(None) => {
            if rep.shard.map_or(true, |s| s.0 == 0) {
                rep.outcome("scenarios outside the property (a joint mask is zero)", 1);
            }
            return;
        }
        Err(e) => {
            rep.fail(format!("{}|in order", scenario), e);
            return;
        }
    };
    rep.explore_part(&scenario, budget, threads(), true, |ch, _: &mut ()| {
        let mut net = draw(&plan);
        net.rotate = ch.pick(plan.n as u32) as usize;
        let mut c = Computation::<F>::new(net, plan.prog, &inputs);
        let mut steps = 0;
        while !c.done() {
            let polls: Vec<usize> = (0..plan.n).filter(|i| c.runnable(*i)).collect();
            let deliveries = c.deliverable();
            let total = polls.len() + deliveries.len();
            if total == 0 {
                return Err(c.stuck());
            }
            let k = if full { ch.pick(total as u32) } else { ch.deviate(total as u32) } as usize;
            if k < polls.len() {
                c.poll(polls[k])?;
            } else {
                let (op, i) = deliveries[k - polls.len()];
                c.deliver(op, i);
            }
            steps += 1;
            if steps > 100_000 {
                return Err("the parties keep running without finishing".into());
            }
        }
        let r = c.results()?;
        if r != base.0 {
            return Err(format!("the results are {:?} instead of {:?} under in-order delivery", r, base.0));
        }
        let net = c.net.lock().unwrap();
        if net.kinds() != base.1 {
            return Err("the parties issue other communication operations than under in-order delivery".into());
        }
        Ok(())
    });
    slow(started, &scenario);
}

pub fn c25(rep: &Report) {
    let th = rep.thorough;
    let more = th as u32;
    for seed in 1..=(if th { 4 } else { 2 }) {
        // even seeds: messages are only sent when a future is first polled
        let pl = |p, n, t, prog| Plan::new(p, n, t, prog).seed(seed);
        schedules::<F257>(rep, "product", pl(257, 3, 2, Prog::Multiply), vec![5, 77], 3 + more, false);
        schedules::<F257>(rep, "product", pl(257, 2, 2, Prog::Multiply), vec![5, 77], 4 + 2 * more, false);
        schedules::<F257>(rep, "products", pl(257, 2, 2, Prog::MultiplyAll), vec![5, 77, 6, 9], 3 + more, false);
        schedules::<F257>(rep, "products", pl(257, 3, 3, Prog::MultiplyAll), vec![5, 77, 6, 9, 250, 3], 2 + more, false);
        schedules::<F257>(rep, "inverse", pl(257, 2, 2, Prog::Invert), vec![9], 3 + more, false);
        schedules::<F257>(rep, "inverse", pl(257, 3, 2, Prog::Invert), vec![9], 2 + more, false);
        schedules::<F257>(rep, "inverses", pl(257, 2, 2, Prog::InvertAll), vec![9, 10, 200], 2 + more, false);
        schedules::<F257>(rep, "inverses", pl(257, 3, 3, Prog::InvertAll), vec![9, 10], 2 + more, false);
        schedules::<F257>(rep, "or", pl(257, 2, 2, Prog::Or), vec![1], 2 + more, false);
        schedules::<F257>(rep, "or", pl(257, 2, 2, Prog::OrAll), vec![0, 1, 0], 2, false);
        schedules::<F257>(rep, "or", pl(257, 3, 2, Prog::OrAll), vec![0, 0], 2, false);
        schedules::<F257>(rep, "or", pl(257, 2, 2, Prog::OrAll), vec![1, 1], 2 + more, false);
        schedules::<F257>(rep, "selection", pl(257, 3, 2, Prog::Select), vec![1, 40, 50], 3 + more, false);
        schedules::<F257>(rep, "selection", pl(257, 2, 2, Prog::Select), vec![0, 40, 50], 4 + more, false);
        schedules::<F257>(rep, "random", pl(257, 3, 3, Prog::Random), vec![], 5 + more, false);
        schedules::<F257>(rep, "randoms", pl(257, 3, 2, Prog::Randoms(3)), vec![], 3 + more, false);
        schedules::<F257>(rep, "randoms", pl(257, 4, 2, Prog::Randoms(2)), vec![], 3 + more, false);
        schedules::<F257>(rep, "sequence", pl(257, 2, 2, Prog::Chain), vec![1, 40, 50, 7], 2 + more, false);
    }
    // more parties and longer batches, one deviation
    for seed in 1..=2 {
        let pl = |n, t, prog| Plan::new(257, n, t, prog).seed(seed);
        for (n, t) in [(5, 3), (8, 8)] {
            schedules::<F257>(rep, "product", pl(n, t, Prog::Multiply), vec![5, 77], 1 + more, false);
            schedules::<F257>(rep, "inverse", pl(n, t, Prog::Invert), vec![9], 1 + more, false);
            schedules::<F257>(rep, "selection", pl(n, t, Prog::Select), vec![0, 40, 50], 1 + more, false);
            schedules::<F257>(rep, "random", pl(n, t, Prog::Random), vec![], 2, false);
            schedules::<F257>(rep, "or", pl(n, t, Prog::OrAll), vec![0, 1], 1, false);
        }
        schedules::<F257>(rep, "products", pl(3, 2, Prog::MultiplyAll), (1..=16).collect(), 1 + more, false);
        schedules::<F257>(rep, "inverses", pl(3, 2, Prog::InvertAll), (1..=9).collect(), 1 + more, false);
        schedules::<F257>(rep, "randoms", pl(3, 2, Prog::Randoms(17)), vec![], 1, false);
        schedules::<F257>(rep, "or", pl(2, 2, Prog::OrAll), vec![0, 0, 1, 0, 0, 1, 1, 0, 0], 1, false);
    }
    rep.bound("5 and 8 parties; batches of 8 products, 9 inverses, 17 random numbers, the or of 9 bits: one deviation (random numbers: two; thorough: two)");
    for seed in 1..=2 {
        let pl = |p, n, t, prog| Plan::new(p, n, t, prog).seed(seed);
        schedules::<F5>(rep, "every order, product", pl(5, 2, 2, Prog::Multiply), vec![3, 4], 0, true);
        schedules::<F5>(rep, "every order, random", pl(5, 2, 2, Prog::Random).zero_masks(), vec![], 0, true);
        schedules::<F5>(rep, "every order, random", pl(5, 3, 2, Prog::Random).zero_masks(), vec![], 0, true);
        schedules::<F5>(rep, "every order, selection", pl(5, 2, 2, Prog::Select), vec![1, 2, 4], 0, true);
        schedules::<F257>(rep, "every order, two products", pl(257, 1, 1, Prog::MultiplyAll), vec![3, 4, 9, 8], 0, true);
        schedules::<F257>(rep, "every order, two inverses", pl(257, 1, 1, Prog::InvertAll), vec![3, 9], 0, true);
        schedules::<F257>(rep, "every order, or of two", pl(257, 1, 1, Prog::OrAll), vec![1, 0], if th { 8 } else { 6 }, false);
        if th {
            schedules::<F5>(rep, "every order, randoms", pl(5, 2, 2, Prog::Randoms(2)).zero_masks(), vec![], 0, true);
        }
    }
    rep.bound("2 and 3 parties, eager and lazy senders, every protocol: all orders of completions and polls with up to 2..5 (thorough: one more) deviations from in-order delivery; every order without bound for single products, selections, random numbers and for batches at a single party");
    rep.assume("the network completes every operation eventually and delivers the same values to all parties");
    rep.sample(|| "product, n=3: party 2 receives the second opening before its first while party 1 is not yet polled".into());
}

// ------------------------------------------------------------------------------------------------------------------- C26

fn rounds<F: Field>(plan: &Plan, inputs: &[u64]) -> Result<usize, String> {
    let x: Vec<Vec<u64>> =
        inputs.iter().enumerate().map(|(k, s)| hashed_shares(*s, plan.seed * 1000 + k as u64, plan.n, plan.t, plan.p)).collect();
    let (p, seed) = (plan.p, plan.seed);
    let mut net = Net::new(plan.n, plan.t, p, move |v| hashed(seed, v, p));
    net.lazy = plan.lazy;
    net.nonzero = false;
    let mut c = Computation::<F>::new(net, plan.prog, &x);
    c.run().map(|r| r.unwrap_or(0))
}

pub fn c26(rep: &Report) {
    let th = rep.thorough;
    let p = (1u64 << 61) - 1;
    let max = if th { 64 } else { 40 };
    for (n, t) in [(1, 1), (2, 2), (3, 2), (5, 4), (9, 5), (16, 16)] {
        for seed in 1..=2 {
            for (prog, name) in [(Prog::MultiplyAll, "products"), (Prog::InvertAll, "inverses"), (Prog::OrAll, "or")] {
                let max = if prog == Prog::OrAll { max.min(if th { 40 } else { 24 }) } else { max };
                let per = if prog == Prog::MultiplyAll { 2 } else { 1 };
                let plan = Plan::new(p, n, t, prog).seed(seed);
                let ins = |k: usize| -> Vec<u64> {
                    (0..k * per).map(|i| if prog == Prog::OrAll { i as u64 % 2 } else { i as u64 + 1 }).collect()
                };
                let mut two = None;
                let far: &[usize] = match (prog == Prog::OrAll, th) {
                    (false, _) => &[63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025],
                    (true, false) if n == 1 => &[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200],
                    (true, false) => &[31, 32, 33, 63, 64, 65, 100],
                    (true, true) if n == 1 => &[63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257],
                    (true, true) => &[63, 64, 65, 100, 127, 128, 129],
                };
                for k in (2..=max).chain(far.iter().copied().filter(|k| *k > max)) {
                    // many parties: fewer sizes
                    if n > 5 && (k > 12 && k != 33 && k != 129 || prog == Prog::OrAll && k > if th { 12 } else { 7 }) {
                        continue;
                    }
                    if !rep.mine() {
                        continue;
                    }
                    rep.case(
                        || format!("{} {} batch={}", name, plan.text(), k),
                        || {
                            let two = match two {
                                Some(r) => r,
                                None => {
                                    let r = rounds::<Mersenne61>(&plan, &ins(2))?;
                                    two = Some(r);
                                    r
                                }
                            };
                            let r = rounds::<Mersenne61>(&plan, &ins(k))?;
                            if r > two {
                                return Err(format!("a batch of {} takes {} rounds, a batch of two {}", k, r, two));
                            }
                            rep.add_states(r as u64);
                            rep.add_transitions(r as u64);
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    rep.bound("batch sizes next to powers of two up to 1024 (or: 100, at a single party 200; thorough: 129 and 257)");
    rep.bound(format!("every batch size from 2 to {} (or: up to {}), 1 to 5 parties (9 and 16: up to 12, 33, 129; or: up to 7), eager and lazy senders", max, if th { 40 } else { 24 }));
    rep.assume("a round delivers everything that was sent before it; triples are supplied in one round per request");
    rep.sample(|| "products n=3 lazy: 17 pairs take as many rounds as 2 pairs".into());
}
