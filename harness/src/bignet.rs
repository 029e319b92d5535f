//! The protocols over fields with more than 64 bits: all parties over a network in which every value is a whole number.
//! C18 - C22: the results for boundary operands and boundary random values, one position of the random values deviating
//! at a time.

use crate::engine::*;
use crate::fieldlist::*;
use crate::fields::Field;
use crate::net::{party_protocols, Prog, Step, Rng, Share, Task};
use crate::sharing::{lend, Ch};
use crate::util::*;
use futures::Future;
use jester_maths::prime::*;
use jester_sharing::beaver_randomization_multiplication::{BeaverCommunicationScheme, BeaverRerandomizationMultiplication};
use jester_sharing::joint_conditional_selection::JointConditionalSelection;
use jester_sharing::joint_unbounded_or::JointUnboundedOrFunction;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::sum_random_number_generation::SumRandomNumberGeneration;
use jester_sharing::unbounded_inversion::JointUnboundedInversion;
use jester_sharing::*;
use num::{BigUint, One, Zero};
use std::collections::HashMap;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// What a random value is used for: kind, operation or party, position, coefficient.
type Var = (u8, usize, usize, usize);
const RNG: u8 = 0;
const A: u8 = 1;
const B: u8 = 2;
const POLY: u8 = 3;
const DIST: u8 = 4;

fn hashed(seed: u64, v: Var, p: &BigUint) -> BigUint {
    let mut r = MixRng(seed ^ (v.0 as u64) << 60 ^ (v.1 as u64) << 40 ^ (v.2 as u64) << 16 ^ v.3 as u64);
    r.next();
    BigUint::new((0..p.bits() / 32 + 2).map(|_| r.next() as u32).collect()) % p
}

/// Which random values are not hashed: those of one kind and one position are all `value`.
#[derive(Clone, Debug)]
struct Deviation {
    kind: u8,
    position: usize,
    value: BigUint,
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Kind {
    Reveal,
    Distribute,
    Triples(usize),
}

#[derive(Clone)]
enum Payload {
    Value(BigUint),
    Shares(Vec<BigUint>),
    Triples(Vec<[BigUint; 3]>),
}

struct Op {
    kind: Kind,
    sent: Vec<Option<Vec<BigUint>>>,
    secrets: Vec<BigUint>,
    results: Option<Vec<Payload>>,
}

struct Net {
    n: usize,
    t: usize,
    p: BigUint,
    seed: u64,
    deviation: Option<Deviation>,
    lazy: bool,
    nonzero: bool,
    ops: Vec<Op>,
    abandoned: bool,
    error: Option<String>,
    joint: Vec<BigUint>,
    triples: usize,
    drawn: usize,
    /// anything sent or delivered since the last look
    progress: bool,
}

fn eval(coef: &[BigUint], x: u64, p: &BigUint) -> BigUint {
    coef.iter().rev().fold(BigUint::zero(), |a, c| (a * x + c) % p)
}

/// The value at x0 of the polynomial of degree below t through the first t shares.
fn at(shares: &[BigUint], t: usize, x0: usize, p: &BigUint) -> BigUint {
    type W = HashMap<(BigUint, usize, usize), Vec<BigUint>>;
    thread_local! {
        static WEIGHTS: std::cell::RefCell<W> = Default::default();
    }
    let modulo = |a: usize, b: usize| if a >= b { BigUint::from(a - b) % p } else { p - BigUint::from(b - a) % p };
    let weights = WEIGHTS.with(|w| {
        w.borrow_mut()
            .entry((p.clone(), t, x0))
            .or_insert_with(|| {
                (1..=t)
                    .map(|i| {
                        let (num, den) = (1..=t).filter(|j| *j != i).fold((BigUint::one(), BigUint::one()), |(n, d), j| {
                            (n * modulo(x0, j) % p, d * modulo(i, j) % p)
                        });
                        num * den.modpow(&(p - 2u32), p) % p
                    })
                    .collect()
            })
            .clone()
    });
    weights.iter().zip(shares).fold(BigUint::zero(), |a, (w, s)| (a + w * s) % p)
}

impl Net {
    fn draw(&self, v: Var) -> BigUint {
        match &self.deviation {
            Some(d) if d.kind == v.0 && d.position == v.2 => &d.value % &self.p,
            _ => hashed(self.seed, v, &self.p),
        }
    }

    fn interpolate(&self, shares: &[BigUint]) -> Result<BigUint, String> {
        for x in self.t + 1..=self.n {
            if at(shares, self.t, x, &self.p) != shares[x - 1] {
                return Err(format!("the shares {:?} are not consistent shares of threshold {}", shares, self.t));
            }
        }
        Ok(at(shares, self.t, 0, &self.p))
    }

    fn share_of(&self, secret: &BigUint, kind: u8, op: usize, j: usize, k0: usize) -> Vec<BigUint> {
        let mut coef = vec![secret.clone()];
        coef.extend((1..self.t).map(|k| self.draw((kind, op, j, k0 + k))));
        (1..=self.n as u64).map(|x| eval(&coef, x, &self.p)).collect()
    }

    fn fail(&mut self, m: String) {
        self.error.get_or_insert(m);
    }

    fn begin(&mut self, party: usize, op: usize, kind: Kind) {
        if op == self.ops.len() {
            let n = self.n;
            self.ops.push(Op { kind, sent: vec![None; n], secrets: vec![BigUint::zero(); n], results: None });
        } else if self.ops[op].kind != kind {
            let k = self.ops[op].kind.clone();
            self.fail(format!("communication operation {} of party {} is {:?} but another party's is {:?}", op, party, kind, k));
        }
    }

    fn send(&mut self, party: usize, op: usize, data: Vec<BigUint>) {
        if self.ops[op].sent[party].is_some() {
            return;
        }
        self.progress = true;
        self.ops[op].sent[party] = Some(data);
        if self.ops[op].sent.iter().any(|s| s.is_none()) {
            return;
        }
        let n = self.n;
        let sent: Vec<Vec<BigUint>> = self.ops[op].sent.iter().map(|s| s.clone().unwrap()).collect();
        let results = match self.ops[op].kind {
            Kind::Reveal => {
                let shares: Vec<BigUint> = sent.iter().map(|s| s[0].clone()).collect();
                match self.interpolate(&shares) {
                    Ok(v) => vec![Payload::Value(v); n],
                    Err(m) => return self.fail(format!("opening (operation {}): {}", op, m)),
                }
            }
            Kind::Distribute => {
                let sum = self.ops[op].secrets.iter().fold(BigUint::zero(), |a, s| (a + s) % &self.p);
                if sum.is_zero() && self.nonzero {
                    self.abandoned = true;
                }
                self.joint.push(sum);
                (0..n).map(|i| Payload::Shares((0..n).map(|j| sent[j][i].clone()).collect())).collect()
            }
            Kind::Triples(count) => {
                let mut per_party = vec![vec![]; n];
                for j in 0..count {
                    let (a, b) = (self.draw((A, op, self.triples + j, 0)), self.draw((B, op, self.triples + j, 0)));
                    let c = &a * &b % &self.p;
                    let s: Vec<Vec<BigUint>> = [a, b, c].iter().enumerate().map(|(w, v)| self.share_of(v, POLY, op, j, w * 64)).collect();
                    for (i, out) in per_party.iter_mut().enumerate() {
                        out.push([s[0][i].clone(), s[1][i].clone(), s[2][i].clone()]);
                    }
                }
                self.triples += count;
                per_party.into_iter().map(Payload::Triples).collect()
            }
        };
        self.ops[op].results = Some(results);
    }
}

type Shared = Arc<Mutex<Net>>;

pub struct Party<F> {
    id: usize,
    net: Shared,
    seq: usize,
    marker: std::marker::PhantomData<F>,
}

struct Wait {
    net: Shared,
    op: usize,
    party: usize,
    data: Option<Vec<BigUint>>,
}

impl Future for Wait {
    type Output = Payload;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Payload> {
        let data = self.data.take();
        let mut net = self.net.lock().unwrap();
        if let Some(d) = data {
            net.send(self.party, self.op, d);
        }
        match &net.ops[self.op].results {
            Some(r) => {
                let r = r[self.party].clone();
                net.progress = true;
                Poll::Ready(r)
            }
            None => Poll::Pending,
        }
    }
}

impl<F: Field> Party<F> {
    fn mark(&mut self) {}

    fn op(&mut self, kind: Kind) -> usize {
        let op = self.seq;
        self.seq += 1;
        self.net.lock().unwrap().begin(self.id, op, kind);
        op
    }

    fn start(&mut self, op: usize, data: Vec<BigUint>) -> Wait {
        let mut net = self.net.lock().unwrap();
        let data = if net.lazy {
            Some(data)
        } else {
            net.send(self.id, op, data);
            None
        };
        Wait { net: self.net.clone(), op, party: self.id, data }
    }
}

impl<F: Field> ShamirSecretSharingScheme<F> for Party<F> {}

impl<F: Field> CliqueCommunicationScheme<F, Share<F>> for Party<F> {
    fn reveal_shares(&mut self, share: Share<F>) -> Pin<Box<dyn Future<Output = F> + Send>> {
        let op = self.op(Kind::Reveal);
        if share.0 != self.id + 1 {
            let id = self.id;
            self.net.lock().unwrap().fail(format!("party {} opens a share numbered {}", id + 1, share.0));
        }
        let wait = self.start(op, vec![share.1.as_uint()]);
        Box::pin(async move {
            match wait.await {
                Payload::Value(v) => F::from(v),
                _ => panic!("the parties' communication operations do not match"),
            }
        })
    }

    fn distribute_secret(&mut self, secret: F) -> Pin<Box<dyn Future<Output = Vec<Share<F>>> + Send>> {
        let op = self.op(Kind::Distribute);
        let id = self.id;
        let shares = {
            let mut net = self.net.lock().unwrap();
            net.ops[op].secrets[id] = secret.as_uint();
            net.share_of(&secret.as_uint(), DIST, op, id, 0)
        };
        let wait = self.start(op, shares);
        Box::pin(async move {
            match wait.await {
                Payload::Shares(v) => v.into_iter().map(|s| (id + 1, F::from(s))).collect(),
                _ => panic!("the parties' communication operations do not match"),
            }
        })
    }
}

impl<F: Field> BeaverCommunicationScheme<Share<F>> for Party<F> {
    fn get_reconstruction_threshold(&self) -> usize {
        self.net.lock().unwrap().t
    }

    fn obtain_beaver_triples<'a>(
        &'a mut self,
        count: usize,
    ) -> Pin<Box<dyn Future<Output = Vec<(Share<F>, Share<F>, Share<F>)>> + Send + 'a>> {
        let op = self.op(Kind::Triples(count));
        let id = self.id;
        let wait = self.start(op, vec![]);
        Box::pin(async move {
            match wait.await {
                Payload::Triples(v) => v
                    .into_iter()
                    .map(|[a, b, c]| ((id + 1, F::from(a)), (id + 1, F::from(b)), (id + 1, F::from(c))))
                    .collect(),
                _ => panic!("the parties' communication operations do not match"),
            }
        })
    }
}

party_protocols!();

fn rng_of(net: &Shared, party: usize) -> Rng {
    let net = net.clone();
    let mut words: Vec<u32> = vec![];
    let mut idx = 0;
    WordRng {
        next: Box::new(move || {
            if words.is_empty() {
                let mut net = net.lock().unwrap();
                net.drawn += 1;
                if net.drawn > 20_000 {
                    panic!("{}", EXHAUSTED);
                }
                let v = net.draw((RNG, party, idx, 0));
                idx += 1;
                let bits = net.p.bits() as usize;
                let count = (bits + 31) / 32;
                words = v.to_u32_digits();
                words.resize(count, 0);
                words[count - 1] <<= count * 32 - bits;
                words.reverse();
            }
            words.pop().unwrap()
        }),
    }
}

struct Done {
    values: Vec<BigUint>,
    joint: Vec<BigUint>,
    triples: usize,
}

/// All parties in turn until each is done; None if a joint mask is zero.
fn run<F: Field>(net: Net, prog: Prog, inputs: &[Vec<BigUint>]) -> Result<Option<Done>, String> {
    let n = net.n;
    let net: Shared = Arc::new(Mutex::new(net));
    let mut tasks: Vec<Option<Task<F>>> = (0..n)
        .map(|i| {
            let x: Vec<Share<F>> = inputs.iter().map(|s| (i + 1, F::from(s[i].clone()))).collect();
            let party = Party { id: i, net: net.clone(), seq: 0, marker: std::marker::PhantomData };
            Some(program(prog, party, rng_of(&net, i), x))
        })
        .collect();
    let mut out: Vec<Vec<Share<F>>> = vec![vec![]; n];
    let waker = futures::task::noop_waker();
    let mut cx = Context::from_waker(&waker);
    while tasks.iter().any(|t| t.is_some()) {
        net.lock().unwrap().progress = false;
        for i in 0..n {
            if let Some(task) = tasks[i].as_mut() {
                let polled = match guarded(|| task.as_mut().poll(&mut cx)) {
                    Ok(p) => p,
                    Err(e) if e.contains(EXHAUSTED) => return Ok(None),
                    Err(e) => return Err(format!("party {}: {}", i + 1, e)),
                };
                if let Poll::Ready(o) = polled {
                    out[i] = o;
                    tasks[i] = None;
                    net.lock().unwrap().progress = true;
                }
            }
            let net = net.lock().unwrap();
            if net.abandoned {
                return Ok(None);
            }
            if let Some(e) = &net.error {
                return Err(e.clone());
            }
        }
        if !net.lock().unwrap().progress {
            return Err("deadlock: parties wait for ever".into());
        }
    }
    let net = net.lock().unwrap();
    for (i, o) in out.iter().enumerate() {
        if o.len() != out[0].len() || o.iter().any(|s| s.0 != i + 1) {
            return Err(format!("party {} has {} results or wrong numbers; party 1 has {} results", i + 1, o.len(), out[0].len()));
        }
    }
    let values: Result<Vec<BigUint>, String> =
        (0..out[0].len()).map(|j| net.interpolate(&out.iter().map(|o| o[j].1.as_uint()).collect::<Vec<_>>())).collect();
    Ok(Some(Done { values: values?, joint: net.joint.clone(), triples: net.triples }))
}

// ----------------------------------------------------------------------------------------------------------------- checks

/// Values next to zero, to the prime, to half of it, and to the borders of machine words.
pub fn boundary(p: &BigUint) -> Vec<BigUint> {
    let mut v: Vec<BigUint> = vec![BigUint::zero(), BigUint::one(), BigUint::from(2u32), p >> 1usize, (p >> 1usize) + 1u32, p - 2u32, p - 1u32];
    for k in [32usize, 63, 64, 65, 96, 127, 128] {
        let w = BigUint::one() << k;
        for x in [&w - 1u32, w.clone(), &w + 1u32] {
            if x < *p {
                v.push(x);
            }
        }
    }
    v.push((p / 3u32) + 1u32);
    v.sort();
    v.dedup();
    v
}

struct Case<'a> {
    name: String,
    prog: Prog,
    n: usize,
    t: usize,
    p: &'a BigUint,
    seeds: u64,
    domains: Vec<Vec<BigUint>>,
    /// kinds and positions of random values that take boundary values
    deviations: Vec<(u8, usize)>,
    nonzero: bool,
    expect: fn(&[BigUint], &[BigUint], &BigUint) -> Vec<BigUint>,
    triples: Option<usize>,
}

fn check<F: Field>(rep: &Report, c: &Case) {
    if !rep.mine() {
        return;
    }
    let scenario = format!("{} {:?} n={} t={}", c.name, c.prog, c.n, c.t);
    let started = std::time::Instant::now();
    let b = boundary(c.p);
    let mut deviations = vec![None];
    for (kind, position) in &c.deviations {
        deviations.extend(b.iter().map(|v| Some(Deviation { kind: *kind, position: *position, value: v.clone() })));
    }
    let outside: Vec<u64> = rep.explore_part(&scenario, 0, threads(), false, |ch, acc: &mut u64| {
        lend(ch, |ch: &Ch| {
            let seed = 1 + ch.borrow_mut().pick(c.seeds as u32) as u64;
            let secrets: Vec<BigUint> = c.domains.iter().map(|d| d[ch.borrow_mut().pick(d.len() as u32) as usize].clone()).collect();
            let deviation = deviations[ch.borrow_mut().pick(deviations.len() as u32) as usize].clone();
            let net = Net {
                n: c.n,
                t: c.t,
                p: c.p.clone(),
                seed,
                deviation,
                lazy: seed % 2 == 0,
                nonzero: c.nonzero,
                ops: vec![],
                abandoned: false,
                error: None,
                joint: vec![],
                triples: 0,
                drawn: 0,
                progress: false,
            };
            let inputs: Vec<Vec<BigUint>> = secrets.iter().enumerate().map(|(k, s)| net.share_of(s, 9, k, 0, 0)).collect();
            let about = format!("secrets {:?} seed {} {:?}", secrets, seed, net.deviation);
            match run::<F>(net, c.prog, &inputs).map_err(|e| format!("{}: {}", about, e))? {
                None => *acc += 1,
                Some(d) => {
                    let want = (c.expect)(&secrets, &d.joint, c.p);
                    if d.values != want {
                        return Err(format!("{} give {:?} instead of {:?}", about, d.values, want));
                    }
                    if c.triples.map_or(false, |k| k != d.triples) {
                        return Err(format!("{}: {} triples are used", about, d.triples));
                    }
                }
            }
            Ok(())
        })
    });
    crate::sharing::slow(started, &scenario);
    let a: u64 = outside.iter().sum();
    if a > 0 {
        rep.outcome("executions outside the property (a joint mask is zero)", a);
    }
}

fn product(x: &[BigUint], _: &[BigUint], p: &BigUint) -> Vec<BigUint> {
    x.chunks(2).map(|c| &c[0] * &c[1] % p).collect()
}
fn inverses(x: &[BigUint], _: &[BigUint], p: &BigUint) -> Vec<BigUint> {
    x.iter().map(|v| v.modpow(&(p - 2u32), p)).collect()
}
fn sums(_: &[BigUint], joint: &[BigUint], _: &BigUint) -> Vec<BigUint> {
    joint.to_vec()
}
fn or(x: &[BigUint], _: &[BigUint], _: &BigUint) -> Vec<BigUint> {
    vec![if x.iter().any(|b| b.is_one()) { BigUint::one() } else { BigUint::zero() }]
}
fn selected(x: &[BigUint], _: &[BigUint], _: &BigUint) -> Vec<BigUint> {
    vec![if x[0].is_one() { x[1].clone() } else { x[2].clone() }]
}

fn case<'a>(name: &str, prog: Prog, n: usize, t: usize, p: &'a BigUint, domains: Vec<Vec<BigUint>>, expect: fn(&[BigUint], &[BigUint], &BigUint) -> Vec<BigUint>) -> Case<'a> {
    Case { name: name.into(), prog, n, t, p, seeds: 2, domains, deviations: vec![], nonzero: true, expect, triples: None }
}

/// `heavy` fields (thousands of bits) get fewer combinations.
fn field<F: Field>(rep: &Report, id: &str, name: &str, heavy: bool) {
    let p = F::field_prime().as_uint();
    let b = boundary(&p);
    let some: Vec<BigUint> = if heavy { vec![BigUint::one(), (&p / 3u32) + 1u32, &p - 1u32] } else { b.clone() };
    let positive: Vec<BigUint> = some.iter().filter(|x| !x.is_zero()).cloned().collect();
    let bits = vec![BigUint::zero(), BigUint::one()];
    // different values for each position of a batch
    let spread = |k: usize, salt: u64| -> Vec<Vec<BigUint>> {
        (0..k).map(|i| vec![if i % 3 == 0 { positive[(i / 3) % positive.len()].clone() } else { hashed(salt, (8, i, 0, 0), &p) }]).collect()
    };
    let groups: &[(usize, usize)] = if heavy { &[(2, 2), (3, 2)] } else { &[(2, 2), (3, 2), (4, 3), (5, 5)] };
    let batches: &[usize] = if heavy && !rep.thorough { &[1, 2, 3] } else { &[1, 2, 3, 5, 8, 17] };
    for &(n, t) in groups {
        match id {
            "C18" => {
                let mut c = case(name, Prog::Multiply, n, t, &p, vec![some.clone(), some.clone()], product);
                c.triples = Some(1);
                if n == 2 && !heavy {
                    c.deviations = vec![(A, 0), (B, 0), (POLY, 0)];
                    c.seeds = 1;
                }
                check::<F>(rep, &c);
                for &k in batches {
                    let mut c = case(&format!("{} batch={}", name, k), Prog::MultiplyAll, n, t, &p, spread(2 * k, n as u64), product);
                    c.triples = Some(k);
                    c.deviations = (0..k.min(3)).flat_map(|j| [(A, j), (B, j)]).collect();
                    check::<F>(rep, &c);
                }
            }
            "C19" => {
                for prog in [Prog::Random, Prog::Randoms(2), Prog::Randoms(5)] {
                    let mut c = case(name, prog, n, t, &p, vec![], sums);
                    c.nonzero = false;
                    c.seeds = 6;
                    c.deviations = (0..n).map(|i| (RNG, i)).chain((0..n).map(|i| (DIST, i))).collect();
                    check::<F>(rep, &c);
                }
            }
            "C20" => {
                for prog in [Prog::Invert, Prog::InvertAll] {
                    let mut c = case(name, prog, n, t, &p, vec![positive.clone()], inverses);
                    c.deviations = vec![(RNG, 0), (A, 0), (B, 0)];
                    check::<F>(rep, &c);
                }
                for &k in &batches[1..] {
                    let mut c = case(&format!("{} batch={}", name, k), Prog::InvertAll, n, t, &p, spread(k, n as u64), inverses);
                    c.deviations = (0..k.min(4)).map(|j| (RNG, j)).collect();
                    check::<F>(rep, &c);
                }
            }
            "C21" => {
                check::<F>(rep, &case(name, Prog::Or, n, t, &p, vec![bits.clone()], or));
                for l in 1..=(if heavy && !rep.thorough { 2 } else { 5 }) {
                    let mut c = case(&format!("{} bits={}", name, l), Prog::OrAll, n, t, &p, vec![bits.clone(); l], or);
                    c.seeds = 1;
                    if n == 2 && l <= 2 && (!heavy || l == 1 || rep.thorough) {
                        c.deviations = vec![(RNG, 0), (RNG, l - 1), (A, 0), (B, 0)];
                    }
                    check::<F>(rep, &c);
                }
                for l in if heavy { vec![] } else { vec![17usize, 40, 65] } {
                    for one in [None, Some(0), Some(l / 2), Some(l - 1)] {
                        let v = (0..l).map(|i| vec![BigUint::from(u32::from(Some(i) == one))]).collect();
                        let mut c = case(&format!("{} bits={} {:?}", name, l, one), Prog::OrAll, n, t, &p, v, or);
                        c.seeds = 1;
                        if n <= 3 {
                            check::<F>(rep, &c);
                        }
                    }
                }
            }
            "C22" => {
                let mut c = case(name, Prog::Select, n, t, &p, vec![bits.clone(), some.clone(), some.clone()], selected);
                if n == 2 && !heavy {
                    c.deviations = vec![(A, 0), (B, 0)];
                    c.seeds = 1;
                }
                check::<F>(rep, &c);
            }
            _ => unreachable!(),
        }
    }
}

pub fn wide_fields(rep: &Report, id: &str) {
    field::<FB64p13>(rep, id, "2^64+13", false);
    field::<FB96m17>(rep, id, "2^96-17", false);
    field::<Mersenne127>(rep, id, "Mersenne127", false);
    field::<FB128m159>(rep, id, "2^128-159", false);
    field::<IetfGroup1>(rep, id, "IetfGroup1", true);
    rep.bound("fields of 65, 96, 127 and 128 bits and the 1536-bit group (n 2 to 5, t 2 to 5): boundary operands; boundary values for each random value in turn, the others fixed");
}
