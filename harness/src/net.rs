//! A simulated network of protocol parties. All parties run the real protocol code as tasks of one executor; openings,
//! distributions and triple requests are network operations whose completion the explorer controls.

use crate::engine::*;
use crate::fields::Field;
use crate::util::*;
use futures::Future;
use jester_sharing::beaver_randomization_multiplication::{BeaverCommunicationScheme, BeaverRerandomizationMultiplication};
use jester_sharing::joint_conditional_selection::JointConditionalSelection;
use jester_sharing::joint_unbounded_or::JointUnboundedOrFunction;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::sum_random_number_generation::SumRandomNumberGeneration;
use jester_sharing::unbounded_inversion::JointUnboundedInversion;
use jester_sharing::*;
use num::{BigUint, ToPrimitive};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type Share<F> = (usize, F);

/// What a random value is used for.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Var {
    /// the idx-th word drawn from a party's own generator
    Rng { party: usize, idx: usize },
    /// coefficient k of the polynomial by which a party distributes a secret in operation op
    DistPoly { party: usize, op: usize, k: usize },
    TripleA { op: usize, j: usize },
    TripleB { op: usize, j: usize },
    /// coefficient k of the polynomial sharing a (0), b (1) or c (2)
    TriplePoly { op: usize, j: usize, which: usize, k: usize },
}

/// A fixed, well spread value for each variable.
pub fn hashed(seed: u64, v: Var, p: u64) -> u64 {
    let (t, a, b, c) = match v {
        Var::Rng { party, idx } => (1, party, idx, 0),
        Var::DistPoly { party, op, k } => (2, party, op, k),
        Var::TripleA { op, j } => (3, op, j, 0),
        Var::TripleB { op, j } => (4, op, j, 0),
        Var::TriplePoly { op, j, which, k } => (5, op, j, which * 64 + k),
    };
    let mut r = MixRng(seed ^ (t as u64) << 60 ^ (a as u64) << 40 ^ (b as u64) << 20 ^ c as u64);
    r.next();
    r.next() % p
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Reveal,
    Distribute,
    Triples(usize),
}

#[derive(Clone)]
enum Payload {
    Value(u64),
    Shares(Vec<u64>),
    Triples(Vec<(u64, u64, u64)>),
}

struct Op {
    kind: Kind,
    /// what each party sent: its share, or one share for each party
    sent: Vec<Option<Vec<u64>>>,
    /// secret each party distributes
    pub secrets: Vec<u64>,
    results: Option<Vec<Payload>>,
    delivered: Vec<bool>,
    wakers: Vec<Option<Waker>>,
}

type Draw = Box<dyn FnMut(Var) -> u64>;
struct Unsent(Draw);
// an execution stays on one thread
unsafe impl Send for Unsent {}

pub struct Net {
    pub n: usize,
    pub t: usize,
    pub p: u64,
    pub lazy: bool,
    /// executions with a joint random number of zero are outside the property
    pub nonzero: bool,
    /// order in which the shares of a distribution are handed to a party
    pub rotate: usize,
    ops: Vec<Op>,
    draw: Unsent,
    pub abandoned: bool,
    pub error: Option<String>,
    /// values opened to everybody, by operation
    pub opened: Vec<(usize, u64)>,
    /// sums of distributed secrets, by operation
    pub joint: Vec<(usize, u64)>,
    /// everything each party holds apart from the openings
    pub views: Vec<Vec<u64>>,
    pub keep_views: bool,
    /// whether a party's shares of triples' products belong to its view
    pub view_products: bool,
    /// how many elements a party may draw before the execution is cut off
    pub rng_limit: usize,
    pub triples: usize,
    pub triple_requests: usize,
    /// the number of the first operation of each step of a session
    pub marks: Vec<usize>,
    weights: Arc<Vec<(Vec<usize>, Vec<u64>)>>,
}

pub fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    (a as u128 * b as u128 % p as u128) as u64
}

pub fn addmod(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 + b as u128) % p as u128) as u64
}

/// The inverse of a unit, for any modulus.
fn invmod(a: u64, m: u64) -> u64 {
    let (mut r, mut s) = ((m as i128, a as i128), (0i128, 1i128));
    while r.1 != 0 {
        let q = r.0 / r.1;
        r = (r.1, r.0 - q * r.1);
        s = (s.1, s.0 - q * s.1);
    }
    assert_eq!(r.0, 1, "not a unit");
    s.0.rem_euclid(m as i128) as u64
}

/// All interpolation weights of the first t participants for 0 and for every further participant.
fn all_weights(n: usize, t: usize, p: u64) -> Vec<(Vec<usize>, Vec<u64>)> {
    let lagrange = |x0: u64, t: usize| -> Vec<u64> {
        (1..=t as u64)
            .map(|i| {
                (1..=t as u64).filter(|j| *j != i).fold(1, |acc, j| {
                    let num = (x0 as i128 - j as i128).rem_euclid(p as i128) as u64;
                    let den = (i as i128 - j as i128).rem_euclid(p as i128) as u64;
                    mulmod(mulmod(acc, num, p), invmod(den, p), p)
                })
            })
            .collect()
    };
    let mut out = vec![(vec![0], lagrange(0, t))];
    for x in t + 1..=n {
        out.push((vec![x - 1], lagrange(x as u64, t)));
    }
    out
}

pub fn eval(c0: u64, coef: &[u64], x: u64, p: u64) -> u64 {
    let h = coef.iter().rev().fold(0, |a, c| addmod(mulmod(a, x, p), *c, p));
    addmod(c0, mulmod(h, x, p), p)
}

impl Net {
    pub fn new(n: usize, t: usize, p: u64, draw: impl FnMut(Var) -> u64 + 'static) -> Net {
        thread_local! {
            static W: std::cell::RefCell<BTreeMap<(usize, usize, u64), Arc<Vec<(Vec<usize>, Vec<u64>)>>>> = Default::default();
        }
        let weights = W.with(|w| w.borrow_mut().entry((n, t, p)).or_insert_with(|| Arc::new(all_weights(n, t, p))).clone());
        Net {
            n,
            t,
            p,
            lazy: false,
            nonzero: true,
            rotate: 0,
            ops: vec![],
            draw: Unsent(Box::new(draw)),
            abandoned: false,
            error: None,
            opened: vec![],
            joint: vec![],
            views: vec![vec![]; n],
            keep_views: false,
            view_products: true,
            rng_limit: 10_000,
            triples: 0,
            triple_requests: 0,
            marks: vec![],
            weights,
        }
    }

    /// The value shared with degree below t by these shares (party i's share at position i).
    pub fn interpolate(&self, shares: &[u64]) -> Result<u64, String> {
        let at = |w: &[u64]| w.iter().zip(shares).fold(0, |a, (w, s)| addmod(a, mulmod(*w, *s, self.p), self.p));
        for (x, w) in &self.weights[1..] {
            if at(w) != shares[x[0]] {
                return Err(format!("the shares {:?} are not consistent shares of threshold {}", shares, self.t));
            }
        }
        Ok(at(&self.weights[0].1))
    }

    fn share_of(&mut self, secret: u64, var: impl Fn(usize) -> Var) -> Vec<u64> {
        let coef: Vec<u64> = (1..self.t).map(|k| (self.draw.0)(var(k)) % self.p).collect();
        (1..=self.n as u64).map(|x| eval(secret, &coef, x, self.p)).collect()
    }

    fn fail(&mut self, m: String) {
        if self.error.is_none() {
            self.error = Some(m)
        }
    }

    fn begin(&mut self, party: usize, op: usize, kind: Kind) {
        if op == self.ops.len() {
            self.ops.push(Op {
                kind,
                sent: vec![None; self.n],
                secrets: vec![0; self.n],
                results: None,
                delivered: vec![false; self.n],
                wakers: vec![None; self.n],
            });
        } else if self.ops[op].kind != kind {
            let k = self.ops[op].kind;
            self.fail(format!("communication operation {} of party {} is {:?} but another party's is {:?}", op, party, kind, k));
        }
    }

    fn send(&mut self, party: usize, op: usize, data: Vec<u64>) {
        if self.ops[op].sent[party].is_none() {
            self.ops[op].sent[party] = Some(data);
            if self.ops[op].sent.iter().all(|s| s.is_some()) {
                self.complete(op);
            }
        }
    }

    fn complete(&mut self, op: usize) {
        let n = self.n;
        let p = self.p;
        let sent: Vec<Vec<u64>> = self.ops[op].sent.iter().map(|s| s.clone().unwrap()).collect();
        let results = match self.ops[op].kind {
            Kind::Reveal => {
                let shares: Vec<u64> = sent.iter().map(|s| s[0]).collect();
                match self.interpolate(&shares) {
                    Ok(v) => {
                        self.opened.push((op, v));
                        vec![Payload::Value(v); n]
                    }
                    Err(m) => {
                        self.fail(format!("opening (operation {}): {}", op, m));
                        return;
                    }
                }
            }
            Kind::Distribute => {
                let sum = self.ops[op].secrets.iter().fold(0, |a, s| addmod(a, *s, p));
                self.joint.push((op, sum));
                if sum == 0 && self.nonzero {
                    self.abandoned = true;
                }
                (0..n)
                    .map(|i| {
                        let shares: Vec<u64> = (0..n).map(|j| sent[j][i]).collect();
                        if self.keep_views {
                            self.views[i].extend_from_slice(&shares);
                        }
                        Payload::Shares(shares)
                    })
                    .collect()
            }
            Kind::Triples(count) => {
                self.triples += count;
                self.triple_requests += 1;
                let mut per_party = vec![vec![]; n];
                for j in 0..count {
                    let a = (self.draw.0)(Var::TripleA { op, j }) % p;
                    let b = (self.draw.0)(Var::TripleB { op, j }) % p;
                    let c = mulmod(a, b, p);
                    let sa = self.share_of(a, |k| Var::TriplePoly { op, j, which: 0, k });
                    let sb = self.share_of(b, |k| Var::TriplePoly { op, j, which: 1, k });
                    let sc = self.share_of(c, |k| Var::TriplePoly { op, j, which: 2, k });
                    for i in 0..n {
                        per_party[i].push((sa[i], sb[i], sc[i]));
                        if self.keep_views {
                            self.views[i].extend_from_slice(&[sa[i], sb[i]]);
                            if self.view_products {
                                self.views[i].push(sc[i]);
                            }
                        }
                    }
                }
                per_party.into_iter().map(Payload::Triples).collect()
            }
        };
        self.ops[op].results = Some(results);
    }

    fn deliver(&mut self, op: usize, party: usize) {
        self.ops[op].delivered[party] = true;
        if let Some(w) = self.ops[op].wakers[party].take() {
            w.wake()
        }
    }

    pub fn operations(&self) -> usize {
        self.ops.len()
    }

    pub fn kinds(&self) -> Vec<Kind> {
        self.ops.iter().map(|o| o.kind).collect()
    }
}

pub type Shared = Arc<Mutex<Net>>;

/// One protocol participant.
pub struct Party<F> {
    pub id: usize,
    net: Shared,
    seq: usize,
    marker: std::marker::PhantomData<F>,
}

impl<F: Field> Party<F> {
    pub fn new(id: usize, net: &Shared) -> Party<F> {
        Party { id, net: net.clone(), seq: 0, marker: std::marker::PhantomData }
    }

    fn mark(&mut self) {
        if self.id == 0 {
            self.net.lock().unwrap().marks.push(self.seq);
        }
    }

    fn op(&mut self, kind: Kind) -> usize {
        let op = self.seq;
        self.seq += 1;
        self.net.lock().unwrap().begin(self.id, op, kind);
        op
    }
}

fn el<F: Field>(v: u64) -> F {
    F::from(BigUint::from(v))
}

pub fn val<F: Field>(x: &F) -> u64 {
    x.as_uint().to_u64().expect("element of a field below 2^64")
}

/// Waits for a network operation.
struct Wait {
    net: Shared,
    op: usize,
    party: usize,
    /// still to be sent, if messages are only sent when a future is first polled
    data: Option<Vec<u64>>,
}

impl Future for Wait {
    type Output = Payload;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Payload> {
        let data = self.data.take();
        let (op, party) = (self.op, self.party);
        let mut net = self.net.lock().unwrap();
        if let Some(d) = data {
            net.send(party, op, d);
        }
        if net.ops[op].delivered[party] {
            Poll::Ready(net.ops[op].results.as_ref().unwrap()[party].clone())
        } else {
            net.ops[op].wakers[party] = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl<F: Field> Party<F> {
    fn start(&mut self, op: usize, data: Vec<u64>) -> Wait {
        let lazy = self.net.lock().unwrap().lazy;
        if lazy {
            Wait { net: self.net.clone(), op, party: self.id, data: Some(data) }
        } else {
            self.net.lock().unwrap().send(self.id, op, data);
            Wait { net: self.net.clone(), op, party: self.id, data: None }
        }
    }
}

impl<F: Field> ShamirSecretSharingScheme<F> for Party<F> {}

impl<F: Field> CliqueCommunicationScheme<F, Share<F>> for Party<F> {
    fn reveal_shares(&mut self, share: Share<F>) -> Pin<Box<dyn Future<Output = F> + Send>> {
        let op = self.op(Kind::Reveal);
        if share.0 != self.id + 1 {
            let id = self.id;
            self.net.lock().unwrap().fail(format!("party {} opens a share numbered {}", id + 1, share.0));
        }
        let wait = self.start(op, vec![val(&share.1)]);
        Box::pin(async move {
            match wait.await {
                Payload::Value(v) => el(v),
                _ => panic!("the parties' communication operations do not match"),
            }
        })
    }

    fn distribute_secret(&mut self, secret: F) -> Pin<Box<dyn Future<Output = Vec<Share<F>>> + Send>> {
        let op = self.op(Kind::Distribute);
        let id = self.id;
        let s = val(&secret);
        let shares = {
            let mut net = self.net.lock().unwrap();
            net.ops[op].secrets[id] = s;
            if net.keep_views {
                net.views[id].push(s);
            }
            net.share_of(s, |k| Var::DistPoly { party: id, op, k })
        };
        let rotate = self.net.lock().unwrap().rotate;
        let wait = self.start(op, shares);
        Box::pin(async move {
            match wait.await {
                Payload::Shares(v) => {
                    let n = v.len();
                    (0..n).map(|j| (id + 1, el(v[(j + rotate) % n]))).collect()
                }
                _ => panic!("the parties' communication operations do not match"),
            }
        })
    }
}

impl<F: Field> BeaverCommunicationScheme<Share<F>> for Party<F> {
    fn get_reconstruction_threshold(&self) -> usize {
        self.net.lock().unwrap().t
    }

    fn obtain_beaver_triples<'a>(
        &'a mut self,
        count: usize,
    ) -> Pin<Box<dyn Future<Output = Vec<(Share<F>, Share<F>, Share<F>)>> + Send + 'a>> {
        let op = self.op(Kind::Triples(count));
        let id = self.id;
        let wait = self.start(op, vec![]);
        Box::pin(async move {
            match wait.await {
                Payload::Triples(v) => {
                    v.into_iter().map(|(a, b, c)| ((id + 1, el(a)), (id + 1, el(b)), (id + 1, el(c)))).collect()
                }
                _ => panic!("the parties' communication operations do not match"),
            }
        })
    }
}

/// The protocols a party uses, and the programs made of them, for a type Party<F> in scope.
macro_rules! party_protocols {
    () => {
        impl<F> MultiplicationSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> MultiplicationSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S> + LinearSharingScheme<T, S> + CliqueCommunicationScheme<T, S> + BeaverCommunicationScheme<S> + Send + Sync,
            T: PrimeField + Send + Sync,
            S: Clone + Send + Sync + 'static,
        {
            type Delegate = BeaverRerandomizationMultiplication<T, S, P>;
        }

        impl<F> UnboundedMultiplicationSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> UnboundedMultiplicationSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S> + LinearSharingScheme<T, S> + CliqueCommunicationScheme<T, S> + BeaverCommunicationScheme<S> + Send + Sync,
            T: PrimeField + Send + Sync,
            S: Clone + Send + Sync + 'static,
        {
            type Delegate = BeaverRerandomizationMultiplication<T, S, P>;
        }

        impl<F> RandomNumberGenerationSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> RandomNumberGenerationSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S> + LinearSharingScheme<T, S> + CliqueCommunicationScheme<T, S>,
            T: PrimeField,
            S: 'static,
        {
            type Delegate = SumRandomNumberGeneration<T, S, P>;
        }

        impl<F> InversionSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> InversionSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S>
                + LinearSharingScheme<T, S>
                + CliqueCommunicationScheme<T, S>
                + UnboundedMultiplicationScheme<T, S, P>
                + RandomNumberGenerationScheme<T, S, P>
                + Send
                + Sync,
            T: Send + Sync + PrimeField,
            S: Send + Sync + Clone + 'static,
        {
            type Delegate = JointUnboundedInversion<T, S, P>;
        }

        impl<F> UnboundedInversionSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> UnboundedInversionSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S>
                + LinearSharingScheme<T, S>
                + CliqueCommunicationScheme<T, S>
                + UnboundedMultiplicationScheme<T, S, P>
                + RandomNumberGenerationScheme<T, S, P>
                + Send
                + Sync,
            T: Send + Sync + PrimeField,
            S: Send + Sync + Clone + 'static,
        {
            type Delegate = JointUnboundedInversion<T, S, P>;
        }

        impl<F> OrFunctionSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> OrFunctionSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S>
                + LinearSharingScheme<T, S>
                + CliqueCommunicationScheme<T, S>
                + UnboundedMultiplicationScheme<T, S, P>
                + RandomNumberGenerationScheme<T, S, P>
                + UnboundedInversionScheme<T, S, P>
                + Send
                + Sync,
            T: Send + Sync + PrimeField + 'static,
            S: Send + Sync + Clone + 'static,
        {
            type Delegate = JointUnboundedOrFunction<T, S, P>;
        }

        impl<F> UnboundedOrFunctionSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> UnboundedOrFunctionSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S>
                + LinearSharingScheme<T, S>
                + CliqueCommunicationScheme<T, S>
                + UnboundedMultiplicationScheme<T, S, P>
                + RandomNumberGenerationScheme<T, S, P>
                + UnboundedInversionScheme<T, S, P>
                + Send
                + Sync,
            T: Send + Sync + PrimeField + 'static,
            S: Send + Sync + Clone + 'static,
        {
            type Delegate = JointUnboundedOrFunction<T, S, P>;
        }

        impl<F> ConditionalSelectionSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> ConditionalSelectionSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S> + LinearSharingScheme<T, S> + CliqueCommunicationScheme<T, S> + MultiplicationScheme<T, S, P> + Send + Sync,
            T: Send + Sync + PrimeField,
            S: Send + Sync + Clone + 'static,
        {
            type Delegate = JointConditionalSelection<T, S, P>;
        }

        impl<F> RandomBitGenerationSchemeMarker for Party<F> {
            type Marker = Delegate;
        }
        impl<T, S, P, F> RandomBitGenerationSchemeDelegate<T, S, P> for Party<F>
        where
            P: ThresholdSecretSharingScheme<T, S>
                + LinearSharingScheme<T, S>
                + CliqueCommunicationScheme<T, S>
                + MultiplicationScheme<T, S, P>
                + RandomNumberGenerationScheme<T, S, P>
                + Send
                + Sync,
            T: PrimeField + Sync + Send,
            S: Sync + Send + 'static,
        {
            type Delegate = root_random_bit_generation::RootRandomBitGeneration<T, S, P>;
        }

        pub fn program<F: Field>(prog: Prog, mut party: Party<F>, mut rng: Rng, x: Vec<Share<F>>) -> Task<F> {
            type P<F> = Party<F>;
            Box::pin(async move {
                let me = &mut party;
                match prog {
                    Prog::Multiply => vec![<P<F> as MultiplicationScheme<F, Share<F>, P<F>>>::multiply(me, &x[0], &x[1]).await],
                    Prog::MultiplyAll => {
                        let pairs: Vec<_> = x.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect();
                        <P<F> as UnboundedMultiplicationScheme<F, Share<F>, P<F>>>::unbounded_multiply(me, &pairs).await
                    }
                    Prog::Invert => vec![<P<F> as InversionScheme<F, Share<F>, P<F>>>::inverse(&mut rng, me, &x[0]).await],
                    Prog::InvertAll => <P<F> as UnboundedInversionScheme<F, Share<F>, P<F>>>::unbounded_inverse(&mut rng, me, &x).await,
                    Prog::Or => vec![<P<F> as OrFunctionScheme<F, Share<F>, P<F>>>::shared_or(&mut rng, me, &x[0]).await],
                    Prog::OrAll => vec![<P<F> as UnboundedOrFunctionScheme<F, Share<F>, P<F>>>::unbounded_shared_or(&mut rng, me, &x).await],
                    Prog::Select => {
                        vec![<P<F> as ConditionalSelectionScheme<F, Share<F>, P<F>>>::joint_conditional_selection(me, &x[0], &x[1], &x[2]).await]
                    }
                    Prog::Random => {
                        vec![<P<F> as RandomNumberGenerationScheme<F, Share<F>, P<F>>>::generate_random_number_sharing(&mut rng, me).await]
                    }
                    Prog::Randoms(k) => {
                        let all: Vec<_> = (0..k)
                            .map(|_| <P<F> as RandomNumberGenerationScheme<F, Share<F>, P<F>>>::generate_random_number_sharing(&mut rng, me))
                            .collect();
                        futures::future::join_all(all).await
                    }
                    Prog::RandomBit => {
                        vec![<P<F> as RandomBitGenerationScheme<F, Share<F>, P<F>>>::generate_random_bit(&mut rng, me).await]
                    }
                    Prog::Session(steps) => {
                        let mut pool = x;
                        for step in steps {
                            me.mark();
                            let new = match *step {
                                Step::Mul(a, b) => vec![<P<F> as MultiplicationScheme<F, Share<F>, P<F>>>::multiply(me, &pool[a], &pool[b]).await],
                                Step::MulAll(i, n) => {
                                    let pairs: Vec<_> = i.chunks(2).take(n).map(|c| (pool[c[0]].clone(), pool[c[1]].clone())).collect();
                                    <P<F> as UnboundedMultiplicationScheme<F, Share<F>, P<F>>>::unbounded_multiply(me, &pairs).await
                                }
                                Step::Inv(a) => vec![<P<F> as InversionScheme<F, Share<F>, P<F>>>::inverse(&mut rng, me, &pool[a]).await],
                                Step::InvAll(i, n) => {
                                    let y: Vec<_> = i.iter().take(n).map(|a| pool[*a].clone()).collect();
                                    <P<F> as UnboundedInversionScheme<F, Share<F>, P<F>>>::unbounded_inverse(&mut rng, me, &y).await
                                }
                                Step::Or(a) => vec![<P<F> as OrFunctionScheme<F, Share<F>, P<F>>>::shared_or(&mut rng, me, &pool[a]).await],
                                Step::OrAll(i, n) => {
                                    let y: Vec<_> = i.iter().take(n).map(|a| pool[*a].clone()).collect();
                                    vec![<P<F> as UnboundedOrFunctionScheme<F, Share<F>, P<F>>>::unbounded_shared_or(&mut rng, me, &y).await]
                                }
                                Step::Sel(c, a, b) => {
                                    vec![<P<F> as ConditionalSelectionScheme<F, Share<F>, P<F>>>::joint_conditional_selection(me, &pool[c], &pool[a], &pool[b]).await]
                                }
                                Step::Rand => {
                                    vec![<P<F> as RandomNumberGenerationScheme<F, Share<F>, P<F>>>::generate_random_number_sharing(&mut rng, me).await]
                                }
                                Step::Rands => {
                                    let a = <P<F> as RandomNumberGenerationScheme<F, Share<F>, P<F>>>::generate_random_number_sharing(&mut rng, me);
                                    let b = <P<F> as RandomNumberGenerationScheme<F, Share<F>, P<F>>>::generate_random_number_sharing(&mut rng, me);
                                    let (a, b) = futures::future::join(a, b).await;
                                    vec![a, b]
                                }
                                Step::Add(a, b) => vec![<P<F> as LinearSharingScheme<F, Share<F>>>::add_shares(&pool[a], &pool[b])],
                                Step::Scale(a, k) => vec![<P<F> as LinearSharingScheme<F, Share<F>>>::multiply_scalar(&pool[a], &F::from(BigUint::from(k)))],
                                Step::Not(a) => vec![<P<F> as LinearSharingScheme<F, Share<F>>>::add_scalar(
                                    &<P<F> as LinearSharingScheme<F, Share<F>>>::multiply_scalar(&pool[a], &(F::zero() - F::one())),
                                    &F::one(),
                                )],
                            };
                            pool.extend(new);
                        }
                        pool
                    }
                    Prog::Chain => {
                        let s = <P<F> as ConditionalSelectionScheme<F, Share<F>, P<F>>>::joint_conditional_selection(me, &x[0], &x[1], &x[2]).await;
                        let m = <P<F> as MultiplicationScheme<F, Share<F>, P<F>>>::multiply(me, &s, &x[3]).await;
                        let i = <P<F> as InversionScheme<F, Share<F>, P<F>>>::inverse(&mut rng, me, &m).await;
                        vec![s, m, i]
                    }
                }
            })
        }
    };
}
pub(crate) use party_protocols;

// -------------------------------------------------------------------------------------------------------------- programs

/// What all parties do with their shares of the inputs.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prog {
    /// x0 * x1
    Multiply,
    /// x0 * x1, x2 * x3, ...
    MultiplyAll,
    /// 1 / x0
    Invert,
    InvertAll,
    /// the or of one bit
    Or,
    OrAll,
    /// x0 ? x1 : x2
    Select,
    Random,
    /// the given number of random numbers, all started before the first is awaited
    Randoms(usize),
    RandomBit,
    /// steps on inputs and earlier results; inputs and all results are returned
    Session(&'static [Step]),
    /// select, then multiply the result by x3, then invert that (a longer program)
    Chain,
}

/// A step of a session; operands are positions among inputs and earlier results.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Step {
    Mul(usize, usize),
    /// the first pairs
    MulAll([usize; 6], usize),
    Inv(usize),
    InvAll([usize; 3], usize),
    Or(usize),
    OrAll([usize; 3], usize),
    Sel(usize, usize, usize),
    Rand,
    Rands,
    Add(usize, usize),
    Scale(usize, u64),
    Not(usize),
}

pub type Rng = WordRng<Box<dyn FnMut() -> u32>>;
pub type Task<F> = Pin<Box<dyn Future<Output = Vec<Share<F>>>>>;

party_protocols!();

// -------------------------------------------------------------------------------------------------------------- executor

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

/// One computation: its network and the tasks of its parties.
pub struct Computation<F> {
    pub net: Shared,
    pub tasks: Vec<Option<Task<F>>>,
    pub outputs: Vec<Vec<Share<F>>>,
    flags: Vec<Arc<Flag>>,
}

impl<F: Field> Computation<F> {
    /// `inputs[k][i]`: party i's share of input k.
    pub fn new(net: Net, prog: Prog, inputs: &[Vec<u64>]) -> Computation<F> {
        let n = net.n;
        let net: Shared = Arc::new(Mutex::new(net));
        let tasks = (0..n)
            .map(|i| {
                let p = net.lock().unwrap().p;
                let x: Vec<Share<F>> = inputs.iter().map(|s| (i + 1, el(s[i]))).collect();
                if net.lock().unwrap().keep_views {
                    net.lock().unwrap().views[i].extend(inputs.iter().map(|s| s[i]));
                }
                Some(program(prog, Party::new(i, &net), rng_of(&net, i, p), x))
            })
            .collect();
        Computation { net, tasks, outputs: vec![vec![]; n], flags: (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect() }
    }

    pub fn done(&self) -> bool {
        self.tasks.iter().all(|t| t.is_none())
    }

    pub fn runnable(&self, i: usize) -> bool {
        self.tasks[i].is_some() && self.flags[i].0.load(SeqCst)
    }

    pub fn poll(&mut self, i: usize) -> Result<(), String> {
        self.flags[i].0.store(false, SeqCst);
        let waker: Waker = self.flags[i].clone().into();
        let mut cx = Context::from_waker(&waker);
        let task = self.tasks[i].as_mut().unwrap();
        if let Poll::Ready(out) = guarded(|| task.as_mut().poll(&mut cx)).map_err(|e| format!("party {}: {}", i + 1, e))? {
            self.outputs[i] = out;
            self.tasks[i] = None;
        }
        match &self.net.lock().unwrap().error {
            Some(e) => Err(e.clone()),
            None => Ok(()),
        }
    }

    /// Completed operations not yet delivered to a party that is still running.
    pub fn deliverable(&self) -> Vec<(usize, usize)> {
        let net = self.net.lock().unwrap();
        let mut v = vec![];
        for (k, op) in net.ops.iter().enumerate() {
            if op.results.is_some() {
                for i in 0..net.n {
                    if !op.delivered[i] && self.tasks[i].is_some() {
                        v.push((k, i));
                    }
                }
            }
        }
        v
    }

    pub fn deliver(&mut self, op: usize, party: usize) {
        self.net.lock().unwrap().deliver(op, party)
    }

    pub fn abandoned(&self) -> bool {
        self.net.lock().unwrap().abandoned
    }

    pub fn stuck(&self) -> String {
        let waiting: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].is_some()).map(|i| i + 1).collect();
        format!("deadlock: parties {:?} wait for ever", waiting)
    }

    /// In-order delivery in synchronous rounds; the number of rounds, or None if abandoned.
    pub fn run(&mut self) -> Result<Option<usize>, String> {
        let mut rounds = 0;
        loop {
            loop {
                let mut any = false;
                for i in 0..self.tasks.len() {
                    if self.runnable(i) {
                        any = true;
                        self.poll(i)?;
                    }
                }
                if self.abandoned() {
                    return Ok(None);
                }
                if !any {
                    break;
                }
            }
            if self.done() {
                return Ok(Some(rounds));
            }
            let d = self.deliverable();
            if d.is_empty() {
                return Err(self.stuck());
            }
            rounds += 1;
            for (k, i) in d {
                self.deliver(k, i);
            }
        }
    }

    /// The values the outputs are shares of; all must be consistent shares of the threshold under the right numbers.
    pub fn results(&self) -> Result<Vec<u64>, String> {
        let net = self.net.lock().unwrap();
        let k = self.outputs[0].len();
        for (i, o) in self.outputs.iter().enumerate() {
            if o.len() != k {
                return Err(format!("party {} has {} results but party 1 has {}", i + 1, o.len(), k));
            }
            for s in o {
                if s.0 != i + 1 {
                    return Err(format!("a result of party {} is numbered {}", i + 1, s.0));
                }
            }
        }
        (0..k)
            .map(|j| {
                let shares: Vec<u64> = self.outputs.iter().map(|o| val(&o[j].1)).collect();
                net.interpolate(&shares).map_err(|e| format!("result {}: {}", j, e))
            })
            .collect()
    }
}

fn rng_of(net: &Shared, party: usize, p: u64) -> Rng {
    let net = net.clone();
    let bits = 64 - p.leading_zeros();
    let limit = net.lock().unwrap().rng_limit;
    let mut idx = 0;
    if bits <= 32 {
        WordRng {
            next: Box::new(move || {
                if idx >= limit {
                    panic!("{}", EXHAUSTED);
                }
                let v = (net.lock().unwrap().draw.0)(Var::Rng { party, idx }) % p;
                idx += 1;
                (v as u32) << (32 - bits)
            }),
        }
    } else {
        // two words per element, low one first; both below the limit keep the value below the prime
        let mut high = None;
        WordRng {
            next: Box::new(move || match high.take() {
                Some(h) => h,
                None => {
                    if idx >= limit {
                        panic!("{}", EXHAUSTED);
                    }
                    let v = (net.lock().unwrap().draw.0)(Var::Rng { party, idx }) % p;
                    idx += 1;
                    high = Some(((v >> 32) as u32) << (64 - bits));
                    v as u32
                }
            }),
        }
    }
}

/// Shares of a secret with these further coefficients.
pub fn shares(secret: u64, coef: &[u64], n: usize, p: u64) -> Vec<u64> {
    (1..=n as u64).map(|x| eval(secret, coef, x, p)).collect()
}

pub fn hashed_shares(secret: u64, seed: u64, n: usize, t: usize, p: u64) -> Vec<u64> {
    let mut r = MixRng(seed);
    r.next();
    let coef: Vec<u64> = (1..t).map(|_| r.next() % p).collect();
    shares(secret, &coef, n, p)
}

/// Sessions on three inputs for the examination of what is opened: every two protocols, on the inputs or the second on what
/// the first computed; every protocol twice; and all of them twice over.
pub fn secret_sessions() -> Vec<&'static [Step]> {
    let kinds = |a: usize, b: usize, c: usize| {
        [
            Step::Mul(a, b),
            Step::MulAll([a, b, b, c, 0, 0], 2),
            Step::Inv(a),
            Step::InvAll([a, b, c], 2),
            Step::Or(a),
            Step::OrAll([a, b, c], 2),
            Step::Sel(a, b, c),
            Step::Rand,
        ]
    };
    let mut out: Vec<Vec<Step>> = vec![];
    for first in kinds(0, 1, 2) {
        for second in kinds(0, 1, 2).into_iter().chain(kinds(3, 0, 1)) {
            out.push(vec![first, second]);
        }
        out.push(vec![first; 5]);
    }
    let every = kinds(0, 1, 2);
    out.push(every.iter().chain(&every).copied().collect());
    out.into_iter().map(|s| &*Box::leak(s.into_boxed_slice())).collect()
}
