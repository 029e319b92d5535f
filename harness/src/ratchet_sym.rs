//! C13, C14: forward secrecy and break-in recovery of the double ratchet. The real protocol code runs with symbolic
//! primitives: every key is a term that records how it was derived. The secrets a party holds are read off by cloning its
//! protocol object, which clones every secret stored in it; whether a message key follows from a set of secrets is decided
//! on the terms.

use crate::engine::*;
use crate::ratchet::*;
use crate::util::*;
use jester_double_ratchet::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use rand::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub enum Kind {
    Private(u64),
    /// the generator raised to these (sorted) private keys
    Shared(Vec<u64>),
    Root0,
    Root(Arc<Term>, Arc<Term>),
    Chain(Arc<Term>, Arc<Term>),
    Next(Arc<Term>),
    Message(Arc<Term>),
}

pub struct Term {
    pub id: u64,
    pub kind: Kind,
}

fn h(tag: u64, a: u64, b: u64) -> u64 {
    let mut x = MixRng(tag.wrapping_mul(0xd6e8feb86659fd93) ^ a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.rotate_left(29).wrapping_mul(0xa0761d6478bd642f));
    x.next();
    x.next()
}

fn term(kind: Kind) -> Arc<Term> {
    let id = match &kind {
        Kind::Private(n) => h(1, *n, 0),
        Kind::Shared(v) => v.iter().fold(h(2, v.len() as u64, 0), |a, x| h(3, a, *x)),
        Kind::Root0 => h(4, 0, 0),
        Kind::Root(a, b) => h(5, a.id, b.id),
        Kind::Chain(a, b) => h(6, a.id, b.id),
        Kind::Next(a) => h(7, a.id, 0),
        Kind::Message(a) => h(8, a.id, 0),
    };
    Arc::new(Term { id, kind })
}

/// Can the key be computed from the known ones and everything that was sent?
fn derivable(t: &Arc<Term>, known: &HashSet<u64>, memo: &mut HashMap<u64, bool>) -> bool {
    if known.contains(&t.id) {
        return true;
    }
    if let Some(r) = memo.get(&t.id) {
        return *r;
    }
    let r = match &t.kind {
        Kind::Private(_) | Kind::Root0 => false,
        // every public key is known; each known private key raises it once more
        Kind::Shared(v) => v.iter().filter(|n| !known.contains(&h(1, **n, 0))).count() <= 1,
        Kind::Root(a, b) | Kind::Chain(a, b) => derivable(a, known, memo) && derivable(b, known, memo),
        Kind::Next(a) | Kind::Message(a) => derivable(a, known, memo),
    };
    memo.insert(t.id, r);
    r
}

thread_local! {
    static COLLECT: RefCell<Option<HashSet<u64>>> = RefCell::new(None);
    static LOG: RefCell<Vec<Op>> = RefCell::new(vec![]);
    static PUBLIC: RefCell<Vec<u64>> = RefCell::new(vec![]);
}

enum Op {
    Generate(u64),
    Shared(Vec<u64>),
    Advance(u64),
    Encrypt(Arc<Term>),
    Decrypt(Arc<Term>),
}

fn log(op: Op) {
    LOG.with(|l| l.borrow_mut().push(op));
}

/// A secret value. Its clones are counted as found secrets while a party's state is inspected.
pub struct Secret(Arc<Term>);

impl Clone for Secret {
    fn clone(&self) -> Secret {
        COLLECT.with(|c| {
            if let Some(s) = c.borrow_mut().as_mut() {
                s.insert(self.0.id);
            }
        });
        Secret(self.0.clone())
    }
}

/// All secrets stored in this object.
fn secrets_of<T: Clone>(x: &T) -> HashSet<u64> {
    COLLECT.with(|c| *c.borrow_mut() = Some(HashSet::new()));
    drop(x.clone());
    COLLECT.with(|c| c.borrow_mut().take().unwrap())
}

#[derive(Clone)]
pub struct Sym;
#[derive(Clone)]
pub struct SymDh;
#[derive(Clone)]
pub struct SymEnc;
#[derive(Clone)]
pub struct SymRoot;
#[derive(Clone)]
pub struct SymChain;

impl DiffieHellmanKeyExchangeScheme for SymDh {
    type PublicKey = Vec<u64>;
    type PrivateKey = Secret;
    type SharedKey = Secret;
    fn generate_asymmetrical_key_pair<R: RngCore + CryptoRng>(rng: &mut R, generator: &Vec<u64>) -> (Secret, Vec<u64>) {
        let n = rng.next_u64();
        let mut pk = generator.clone();
        pk.push(n);
        pk.sort_unstable();
        log(Op::Generate(n));
        PUBLIC.with(|p| *p.borrow_mut() = pk.clone());
        (Secret(term(Kind::Private(n))), pk)
    }
    fn generate_shared_secret(private_key: &Secret, partner_key: &Vec<u64>) -> Secret {
        let mut v = partner_key.clone();
        if let Kind::Private(n) = private_key.0.kind {
            v.push(n);
        }
        v.sort_unstable();
        log(Op::Shared(v.clone()));
        Secret(term(Kind::Shared(v)))
    }
}

impl SymmetricalEncryptionScheme for SymEnc {
    type Key = Secret;
    fn generate_key<R: RngCore + CryptoRng>(rng: &mut R) -> Secret {
        Secret(term(Kind::Private(rng.next_u64())))
    }
    fn encrypt_message(key: &Secret, message: &[u8]) -> Vec<u8> {
        log(Op::Encrypt(key.0.clone()));
        let mut v = key.0.id.to_le_bytes().to_vec();
        v.extend_from_slice(message);
        v
    }
    fn decrypt_message(key: &Secret, message: &[u8]) -> Vec<u8> {
        log(Op::Decrypt(key.0.clone()));
        if message.len() >= 8 && message[..8] == key.0.id.to_le_bytes() {
            message[8..].to_vec()
        } else {
            b"garbage".to_vec()
        }
    }
}

impl KeyDerivationFunction for SymRoot {
    type ChainKey = Secret;
    type Input = Secret;
    type OutputKey = Secret;
    fn derive_key(k: Secret, input: Secret) -> (Secret, Secret) {
        log(Op::Advance(k.0.id));
        (Secret(term(Kind::Root(k.0.clone(), input.0.clone()))), Secret(term(Kind::Chain(k.0.clone(), input.0.clone()))))
    }
}

impl KeyDerivationFunction for SymChain {
    type ChainKey = Secret;
    type Input = u8;
    type OutputKey = Secret;
    fn derive_key(k: Secret, _: u8) -> (Secret, Secret) {
        log(Op::Advance(k.0.id));
        (Secret(term(Kind::Next(k.0.clone()))), Secret(term(Kind::Message(k.0.clone()))))
    }
}
impl ConstantInputKeyRatchet for SymChain {
    const INPUT: u8 = 1;
}

impl Kit for Sym {
    type Pk = Vec<u64>;
    type Sk = Secret;
    type Sh = Secret;
    type Rk = Secret;
    type Ck = Secret;
    type Mk = Secret;
    type Dh = SymDh;
    type Enc = SymEnc;
    type Root = SymRoot;
    type Chain = SymChain;
    fn generator() -> Vec<u64> {
        vec![]
    }
    fn root() -> Secret {
        Secret(term(Kind::Root0))
    }
    fn last_public() -> Vec<u64> {
        PUBLIC.with(|p| p.borrow().clone())
    }
    fn body(sender: usize, seq: usize) -> Vec<u8> {
        vec![sender as u8, seq as u8]
    }
}

#[derive(Clone)]
struct Snapshot {
    party: usize,
    epoch: usize,
    secrets: Arc<HashSet<u64>>,
}

#[derive(Clone)]
struct SymWorld {
    w: World<Sym>,
    /// number of key-ratchet steps each party has made
    epoch: [usize; 2],
    /// newest epoch of the peer each party has received from
    seen: [Option<usize>; 2],
    msg_epoch: Vec<usize>,
    /// private key announced by each party in each epoch
    keys: [Vec<u64>; 2],
    advanced: [HashSet<u64>; 2],
    encrypted: HashSet<u64>,
    /// keys of messages each party has sent or decrypted
    used: [Vec<Arc<Term>>; 2],
    snapshots: Vec<Snapshot>,
    secrecy: bool,
    /// in very long conversations only the newest keys and snapshots are looked at
    light: bool,
}

/// outcome of one step
enum Step {
    Ok,
    /// not what this property is about: the history is not continued
    Broken,
    Bad(String),
}

impl SymWorld {
    fn new(secrecy: bool) -> Result<SymWorld, String> {
        LOG.with(|l| l.borrow_mut().clear());
        let rng = [World::<Sym>::rng_of(0), World::<Sym>::rng_of(1)];
        let w = World::<Sym>::new();
        let mut x = SymWorld {
            w,
            epoch: [0, 0],
            seen: [None, Some(0)],
            msg_epoch: vec![],
            keys: [vec![], vec![]],
            advanced: [HashSet::new(), HashSet::new()],
            encrypted: HashSet::new(),
            used: [vec![], vec![]],
            snapshots: vec![],
            secrecy,
            light: false,
        };
        let ops = LOG.with(|l| l.replace(vec![]));
        // both parties started, the initiator first: each made exactly its own key pair
        let mut p = 0;
        for op in ops {
            if let Op::Generate(n) = op {
                if p > 1 {
                    break;
                }
                if !secrecy && !drawn(&rng[p], n) {
                    return Err("the initial key pair is not generated from the caller's random number generator".into());
                }
                x.keys[p].push(n);
                p += 1;
            } else if let Op::Advance(k) = op {
                x.advanced[p.saturating_sub(1)].insert(k);
            }
        }
        for p in 0..2 {
            x.snap(p);
        }
        Ok(x)
    }

    fn secrets(&self, p: usize) -> HashSet<u64> {
        match (&self.w.party[p], &self.w.initiator) {
            (Some(x), _) => secrets_of(x),
            (None, Some(x)) => secrets_of(x),
            _ => HashSet::new(),
        }
    }

    fn snap(&mut self, p: usize) {
        if !self.secrecy {
            let secrets = Arc::new(self.secrets(p));
            self.snapshots.push(Snapshot { party: p, epoch: self.epoch[p], secrets });
            if self.light && self.snapshots.len() > 8 {
                self.snapshots.remove(0);
            }
        }
    }

    fn step(&mut self, e: Ev) -> Step {
        LOG.with(|l| l.borrow_mut().clear());
        let p = self.w.at(e);
        let rng = self.w.rng[p].clone();
        let sender_epoch = match e {
            Ev::Send(_) => None,
            Ev::Deliver(m) => Some(self.msg_epoch[m]),
            Ev::Dup(_) => None,
        };
        if self.w.step(e).is_err() {
            return Step::Broken;
        }
        let ops = LOG.with(|l| l.replace(vec![]));
        let mut ratchets = false;
        if let Some(s) = sender_epoch {
            if self.seen[p].map_or(true, |x| x < s) {
                ratchets = true;
                self.seen[p] = Some(s);
                self.epoch[p] += 1;
            }
        }
        if let Ev::Send(_) = e {
            self.msg_epoch.push(self.epoch[p]);
        }
        if self.secrecy {
            self.judge_secrecy(p, e, &ops)
        } else {
            let r = self.judge_recovery(p, e, &ops, ratchets, &rng);
            if let Step::Ok = r {
                self.snap(p);
            }
            r
        }
    }

    fn judge_secrecy(&mut self, p: usize, e: Ev, ops: &[Op]) -> Step {
        for op in ops {
            match op {
                Op::Advance(k) => {
                    if !self.advanced[p].insert(*k) {
                        return Step::Bad(format!("party {} advances a chain or root key a second time", p));
                    }
                }
                Op::Encrypt(k) => {
                    if !self.encrypted.insert(k.id) {
                        return Step::Bad(format!("party {} encrypts under a key that was used before", p));
                    }
                    self.used[p].push(k.clone());
                }
                Op::Decrypt(k) => {
                    if !matches!(e, Ev::Dup(_)) {
                        self.used[p].push(k.clone());
                    }
                }
                _ => (),
            }
        }
        if self.light && self.used[p].len() > 24 {
            self.used[p].remove(0);
        }
        let known = self.secrets(p);
        let mut memo = HashMap::new();
        for k in &self.used[p] {
            if derivable(k, &known, &mut memo) {
                return Step::Bad(format!("the state of party {} still gives away the key of a message it has already sent or decrypted", p));
            }
        }
        Step::Ok
    }

    fn judge_recovery(&mut self, p: usize, e: Ev, ops: &[Op], ratchets: bool, rng: &MixRng) -> Step {
        if ratchets {
            let fresh: Vec<u64> = ops.iter().filter_map(|o| if let Op::Generate(n) = o { Some(*n) } else { None }).collect();
            let n = match fresh.last() {
                None => return Step::Bad(format!("party {} makes a key-ratchet step without generating a key pair", p)),
                Some(n) => *n,
            };
            if self.keys.iter().any(|k| k.contains(&n)) || !drawn(rng, n) {
                return Step::Bad(format!("the key pair of a key-ratchet step of party {} is not fresh", p));
            }
            // the step was made with the key announced in the peer's current chain
            let peer = self.keys[1 - p][self.seen[p].unwrap()];
            if !ops.iter().any(|o| matches!(o, Op::Shared(v) if v.contains(&peer) && v.contains(&n))) {
                return Step::Bad(format!("the new key pair of party {} is not combined with the peer's newest public key", p));
            }
            self.keys[p].push(n);
        }
        if let Ev::Send(_) = e {
            for op in ops {
                if let Op::Encrypt(k) = op {
                    for s in &self.snapshots {
                        let recovered = if s.party == p {
                            self.epoch[p] > s.epoch
                        } else {
                            self.seen[p].map_or(false, |x| x > s.epoch)
                        };
                        if recovered && derivable(k, &s.secrets, &mut HashMap::new()) {
                            return Step::Bad(format!(
                                "the key of a message of party {} follows from what party {} stored {} key-ratchet step(s) before",
                                p,
                                s.party,
                                if s.party == p { self.epoch[p] } else { self.seen[p].unwrap() } - s.epoch
                            ));
                        }
                    }
                }
            }
        }
        Step::Ok
    }
}

/// Was this value drawn from the generator?
fn drawn(rng: &MixRng, n: u64) -> bool {
    let mut r = rng.clone();
    (0..64).any(|_| r.next_u64() == n)
}

#[derive(Default)]
struct Count {
    nodes: u64,
    leaves: u64,
    broken: u64,
}

fn name(scenario: &str, path: &[Ev]) -> String {
    format!("{}|{}", scenario, path_text(path))
}

fn dfs(rep: &Report, scenario: &str, b: &Bounds, x: &SymWorld, path: &mut Vec<Ev>, c: &mut Count) {
    let evs = if path.len() >= b.events || rep.stopped() { vec![] } else { x.w.enabled(b) };
    if evs.is_empty() {
        c.leaves += 1;
        return;
    }
    for e in evs {
        let mut n = x.clone();
        path.push(e);
        c.nodes += 1;
        if c.nodes & 0xfff == 0 {
            rep.over_deadline();
        }
        match guarded(|| n.step(e)) {
            Ok(Step::Ok) => dfs(rep, scenario, b, &n, path, c),
            Ok(Step::Bad(m)) => rep.fail(name(scenario, path), m),
            Ok(Step::Broken) | Err(_) => c.broken += 1,
        }
        path.pop();
    }
}

fn explore(rep: &Report, scenario: &str, b: &Bounds, secrecy: bool) {
    if let Some(r) = &rep.replay {
        if let Some(p) = r.strip_prefix(&format!("{}|", scenario)) {
            rep.add_execs(1);
            match SymWorld::new(secrecy) {
                Err(m) => rep.fail(r.clone(), m),
                Ok(mut x) => {
                    for e in p.split_whitespace().map(Ev::parse) {
                        if let Step::Bad(m) = x.step(e) {
                            rep.fail(r.clone(), m);
                            break;
                        }
                    }
                }
            }
        }
        return;
    }
    let root = match SymWorld::new(secrecy) {
        Ok(x) => x,
        Err(m) => return rep.fail(name(scenario, &[]), m),
    };
    let mut seeds = vec![(root, vec![])];
    let mut nodes = 1;
    for _ in 0..6.min(b.events) {
        let mut next = vec![];
        for (x, p) in seeds {
            for e in x.w.enabled(b) {
                let mut n = x.clone();
                let mut q: Vec<Ev> = p.clone();
                q.push(e);
                nodes += 1;
                match guarded(|| n.step(e)) {
                    Ok(Step::Ok) => next.push((n, q)),
                    Ok(Step::Bad(m)) => rep.fail(name(scenario, &q), m),
                    Ok(Step::Broken) | Err(_) => rep.outcome("histories cut short because a step failed", 1),
                }
            }
        }
        seeds = next;
    }
    rep.add_states(nodes);
    rep.add_transitions(nodes);
    let cells: Vec<_> = seeds.into_iter().map(|s| std::sync::Mutex::new(Some(s))).collect();
    par_for(rep, cells.len(), |i| {
        let (x, mut p) = cells[i].lock().unwrap().take().unwrap();
        let mut c = Count::default();
        dfs(rep, scenario, b, &x, &mut p, &mut c);
        rep.add_states(c.nodes);
        rep.add_transitions(c.nodes);
        rep.add_execs(c.leaves);
        if c.broken > 0 {
            rep.outcome("histories cut short because a step failed", c.broken);
        }
    });
}

/// Alternating conversations: chains of the given lengths, the first `lost` messages of each chain delayed until two chains
/// later.
fn ping_pong(rep: &Report, scenario: &str, rounds: usize, len: usize, lost: usize, secrecy: bool, light: bool) {
    let mut path: Vec<Ev> = vec![];
    let mut count = 0;
    let mut late: Vec<Vec<usize>> = vec![];
    for r in 0..rounds {
        let first = count;
        for _ in 0..len {
            path.push(Ev::Send(1 - r % 2));
            count += 1;
        }
        for m in first + lost..count {
            path.push(Ev::Deliver(m));
        }
        late.push((first..first + lost).collect());
        if r >= 2 {
            path.extend(late[r - 2].iter().rev().map(|m| Ev::Deliver(*m)));
        }
    }
    rep.case_limit(
        600,
        || format!("{}|rounds={} len={} lost={}", scenario, rounds, len, lost),
        || {
            let mut x = SymWorld::new(secrecy)?;
            x.light = light;
            for (n, e) in path.iter().enumerate() {
                match x.step(*e) {
                    Step::Ok => (),
                    Step::Broken => {
                        rep.outcome("histories cut short because a step failed", 1);
                        break;
                    }
                    Step::Bad(m) => return Err(format!("{} (at event {}: {})", m, n, path_text(&path[n.saturating_sub(20)..=n]))),
                }
            }
            Ok(())
        },
    );
    rep.add_states(path.len() as u64);
    rep.add_transitions(path.len() as u64);
}

fn both(rep: &Report, secrecy: bool) {
    let t = rep.thorough;
    let b = Bounds { events: if t { 17 } else { 14 }, sends: 9, dups: 0, dups_per_message: 0 };
    explore(rep, "all", &b, secrecy);
    rep.bound(format!("every history of up to {} send/deliver events, up to commutation of independent events", b.events));
    let b = Bounds { events: if t { 14 } else { 12 }, sends: 9, dups: 2, dups_per_message: 2 };
    explore(rep, "dups", &b, secrecy);
    rep.bound(format!("every history of up to {} events of which up to 2 are deliveries of duplicates", b.events));
    let mut shapes = vec![(12, 1, 0), (12, 2, 1), (10, 4, 2), (8, 5, 4), (6, 9, 8), (24, 3, 2), (40, 1, 0), (40, 2, 1), (3, 70, 69), (4, 140, 3), (3, 140, 139)];
    if t {
        shapes.extend([(80, 1, 0), (70, 2, 1), (4, 300, 299), (3, 600, 0)]);
    }
    par_for(rep, shapes.len(), |i| {
        let (rounds, len, lost) = shapes[i];
        ping_pong(rep, "pingpong", rounds, len, lost, secrecy, false);
    });
    let mut shapes = vec![(300, 1, 0), (270, 2, 1), (3, 300, 0), (4, 270, 269), (3, 1100, 0), (1100, 1, 0), (2, 1100, 1099)];
    if t {
        shapes.extend([(4200, 1, 0), (3, 4200, 0), (70, 70, 69)]);
    }
    let longest = shapes.clone();
    par_for(rep, shapes.len(), |i| {
        let (rounds, len, lost) = shapes[shapes.len() - 1 - i];
        ping_pong(rep, "longpingpong", rounds, len, lost, secrecy, true);
    });
    rep.bound(format!("very long ones {:?}, in which every generated key pair and every advance of a chain is judged, and the newest 24 used keys and 8 states of the parties", longest));
    rep.bound(format!("conversations of up to 40 (thorough: 80) chains with delayed messages from each of them: chains x length x delayed from {:?}", shapes));
    rep.assume("key derivation is one-way and Diffie-Hellman secrets follow only from one of the two private keys");
    rep.assume("a party's state is what its protocol object holds (read through Clone)");
    rep.sample(|| "s1 d0 s0 s0 d2 d1 s1: after the delayed message is decrypted its stored key is gone".into());
}

pub fn c13(rep: &Report) {
    both(rep, true);
    rep.bound("after every event, every key the party has used is checked against everything it stores");
}

pub fn c14(rep: &Report) {
    both(rep, false);
    rep.bound("every state of either party is taken as compromised, every later message key is checked against it");
}
