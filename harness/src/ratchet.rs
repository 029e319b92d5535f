//! C11, C12: the double ratchet under loss, reordering and duplication. All histories of send / deliver / duplicate events
//! up to a bound are executed on the real protocol objects (cloned at every branch).

use crate::engine::*;
use crate::util::*;
use jester_double_ratchet::state::{Established, Initiator};
use jester_double_ratchet::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::sha1::SHA1Hash;
use jester_maths::prime::{Mersenne127, PrimeField};
use num::BigUint;
use rand::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::hash::Hash;
use std::marker::PhantomData;

/// A complete choice of primitives.
pub trait Kit: Clone + Send + Sync + 'static {
    type Pk: Clone + Eq + Hash + Send;
    type Sk: Clone + Send;
    type Sh: Clone + Send;
    type Rk: Clone + Send;
    type Ck: Clone + Send;
    type Mk: Clone + Send;
    type Dh: DiffieHellmanKeyExchangeScheme<PublicKey = Self::Pk, PrivateKey = Self::Sk, SharedKey = Self::Sh> + Clone + Send;
    type Enc: SymmetricalEncryptionScheme<Key = Self::Mk> + Clone + Send;
    type Root: KeyDerivationFunction<ChainKey = Self::Rk, Input = Self::Sh, OutputKey = Self::Ck> + Clone + Send;
    type Chain: ConstantInputKeyRatchet<ChainKey = Self::Ck, OutputKey = Self::Mk> + Clone + Send;
    fn generator() -> Self::Pk;
    fn root() -> Self::Rk;
    /// the public key generated last by this thread
    fn last_public() -> Self::Pk;
    fn body(sender: usize, seq: usize) -> Vec<u8>;
}

pub type Proto<K, S> = DoubleRatchetProtocol<
    <K as Kit>::Dh,
    <K as Kit>::Enc,
    <K as Kit>::Root,
    <K as Kit>::Chain,
    <K as Kit>::Pk,
    <K as Kit>::Sk,
    <K as Kit>::Sh,
    <K as Kit>::Rk,
    <K as Kit>::Ck,
    <K as Kit>::Mk,
    S,
>;

// ---------------------------------------------------------------------------------------------------- fast symbolic kit

#[derive(Clone)]
pub struct Fast;
thread_local! {
    static FAST_LAST: RefCell<u64> = RefCell::new(0);
    static REAL_LAST: RefCell<Option<Mersenne127>> = RefCell::new(None);
}

fn mix(a: u64, b: u64, tag: u64) -> u64 {
    let mut x = MixRng(a ^ b.rotate_left(23).wrapping_mul(0x9e3779b97f4a7c15) ^ tag.wrapping_mul(0xd6e8feb86659fd93));
    x.next();
    x.next()
}

#[derive(Clone)]
pub struct FastDh;
impl DiffieHellmanKeyExchangeScheme for FastDh {
    type PublicKey = u64;
    type PrivateKey = u64;
    type SharedKey = u64;
    fn generate_asymmetrical_key_pair<R: RngCore + CryptoRng>(rng: &mut R, generator: &u64) -> (u64, u64) {
        let sk = rng.next_u64() | 1;
        let pk = generator.wrapping_mul(sk);
        FAST_LAST.with(|l| *l.borrow_mut() = pk);
        (sk, pk)
    }
    fn generate_shared_secret(private_key: &u64, partner_key: &u64) -> u64 {
        private_key.wrapping_mul(*partner_key)
    }
}

#[derive(Clone)]
pub struct FastEnc;
impl SymmetricalEncryptionScheme for FastEnc {
    type Key = u64;
    fn generate_key<R: RngCore + CryptoRng>(rng: &mut R) -> u64 {
        rng.next_u64()
    }
    // unauthenticated: a wrong key gives a wrong text, not an error
    fn encrypt_message(key: &u64, message: &[u8]) -> Vec<u8> {
        message.iter().enumerate().map(|(i, b)| b ^ (mix(*key, i as u64 / 8, 5) >> (i % 8 * 8)) as u8).collect()
    }
    fn decrypt_message(key: &u64, message: &[u8]) -> Vec<u8> {
        Self::encrypt_message(key, message)
    }
}

#[derive(Clone)]
pub struct FastRoot;
impl KeyDerivationFunction for FastRoot {
    type ChainKey = u64;
    type Input = u64;
    type OutputKey = u64;
    fn derive_key(chain_key: u64, input: u64) -> (u64, u64) {
        (mix(chain_key, input, 1), mix(chain_key, input, 2))
    }
}

#[derive(Clone)]
pub struct FastChain;
impl KeyDerivationFunction for FastChain {
    type ChainKey = u64;
    type Input = u8;
    type OutputKey = u64;
    fn derive_key(chain_key: u64, input: u8) -> (u64, u64) {
        (mix(chain_key, input as u64, 3), mix(chain_key, input as u64, 4))
    }
}
impl ConstantInputKeyRatchet for FastChain {
    const INPUT: u8 = 7;
}

impl Kit for Fast {
    type Pk = u64;
    type Sk = u64;
    type Sh = u64;
    type Rk = u64;
    type Ck = u64;
    type Mk = u64;
    type Dh = FastDh;
    type Enc = FastEnc;
    type Root = FastRoot;
    type Chain = FastChain;
    fn generator() -> u64 {
        0x9e3779b97f4a7c15
    }
    fn root() -> u64 {
        42
    }
    fn last_public() -> u64 {
        FAST_LAST.with(|l| *l.borrow())
    }
    fn body(sender: usize, seq: usize) -> Vec<u8> {
        vec![b'm', sender as u8, seq as u8, 0, 1, 2, 3, 4]
    }
}

// ------------------------------------------------------------------------------------- kit made of the crates' own parts

#[derive(Clone)]
pub struct Real;

#[derive(Clone)]
pub struct RealDh;
impl DiffieHellmanKeyExchangeScheme for RealDh {
    type PublicKey = Mersenne127;
    type PrivateKey = Mersenne127;
    type SharedKey = Mersenne127;
    fn generate_asymmetrical_key_pair<R: RngCore + CryptoRng>(rng: &mut R, generator: &Mersenne127) -> (Mersenne127, Mersenne127) {
        let r = Mersenne127::generate_asymmetrical_key_pair(rng, generator);
        REAL_LAST.with(|l| *l.borrow_mut() = Some(r.1.clone()));
        r
    }
    fn generate_shared_secret(private_key: &Mersenne127, partner_key: &Mersenne127) -> Mersenne127 {
        <Mersenne127 as DiffieHellmanKeyExchangeScheme>::generate_shared_secret(private_key, partner_key)
    }
}

#[derive(Clone)]
pub struct RealEnc;
impl SymmetricalEncryptionScheme for RealEnc {
    type Key = Vec<u8>;
    fn generate_key<R: RngCore + CryptoRng>(rng: &mut R) -> Vec<u8> {
        let mut k = vec![0; 20];
        rng.fill_bytes(&mut k);
        k
    }
    fn encrypt_message(key: &Vec<u8>, message: &[u8]) -> Vec<u8> {
        let stream = hkdf_derive_key::<SHA1Hash, ()>(&(), b"stream", key, message.len(), b"");
        message.iter().zip(stream).map(|(a, b)| a ^ b).collect()
    }
    fn decrypt_message(key: &Vec<u8>, message: &[u8]) -> Vec<u8> {
        Self::encrypt_message(key, message)
    }
}

fn split(mut v: Vec<u8>) -> (Vec<u8>, Vec<u8>) {
    let r = v.split_off(v.len() / 2);
    (v, r)
}

#[derive(Clone)]
pub struct RealRoot;
impl KeyDerivationFunction for RealRoot {
    type ChainKey = Vec<u8>;
    type Input = Mersenne127;
    type OutputKey = Vec<u8>;
    fn derive_key(chain_key: Vec<u8>, input: Mersenne127) -> (Vec<u8>, Vec<u8>) {
        split(hkdf_derive_key::<SHA1Hash, ()>(&(), &chain_key, &input.as_bytes_le(), 40, b"root"))
    }
}

#[derive(Clone)]
pub struct RealChain;
impl KeyDerivationFunction for RealChain {
    type ChainKey = Vec<u8>;
    type Input = u8;
    type OutputKey = Vec<u8>;
    fn derive_key(chain_key: Vec<u8>, input: u8) -> (Vec<u8>, Vec<u8>) {
        split(hkdf_derive_key::<SHA1Hash, ()>(&(), &chain_key, &[input], 40, b"chain"))
    }
}
impl ConstantInputKeyRatchet for RealChain {
    const INPUT: u8 = 1;
}

impl Kit for Real {
    type Pk = Mersenne127;
    type Sk = Mersenne127;
    type Sh = Mersenne127;
    type Rk = Vec<u8>;
    type Ck = Vec<u8>;
    type Mk = Vec<u8>;
    type Dh = RealDh;
    type Enc = RealEnc;
    type Root = RealRoot;
    type Chain = RealChain;
    fn generator() -> Mersenne127 {
        Mersenne127::from(BigUint::from(43u32))
    }
    fn root() -> Vec<u8> {
        b"an initial root key".to_vec()
    }
    fn last_public() -> Mersenne127 {
        REAL_LAST.with(|l| l.borrow().clone().unwrap())
    }
    fn body(sender: usize, seq: usize) -> Vec<u8> {
        // different lengths, including one below and one above a hash block
        let len = [8, 70, 3, 21, 130][(sender * 2 + seq) % 5];
        (0..len).map(|i| (i * 7 + sender * 100 + seq * 13) as u8).collect()
    }
}

// ------------------------------------------------------------------------------------------------- unusual plain texts

/// The fast kit with texts of unusual lengths and contents.
#[derive(Clone)]
pub struct Odd;
impl Kit for Odd {
    type Pk = u64;
    type Sk = u64;
    type Sh = u64;
    type Rk = u64;
    type Ck = u64;
    type Mk = u64;
    type Dh = FastDh;
    type Enc = FastEnc;
    type Root = FastRoot;
    type Chain = FastChain;
    fn generator() -> u64 {
        0x9e3779b97f4a7c15
    }
    fn root() -> u64 {
        0
    }
    fn last_public() -> u64 {
        Fast::last_public()
    }
    fn body(sender: usize, seq: usize) -> Vec<u8> {
        match (sender + seq) % 7 {
            0 => vec![],
            1 => vec![0],
            2 => vec![0; 64],
            3 => b"the same text".to_vec(),
            4 => (0..257).map(|i| (255 - i % 256) as u8).collect(),
            5 => b"the same text".to_vec(),
            _ => vec![0xff; 1],
        }
    }
}

/// The same with texts of `LONG` bytes.
#[derive(Clone)]
pub struct Large<const LONG: usize>;
impl<const LONG: usize> Kit for Large<LONG> {
    type Pk = u64;
    type Sk = u64;
    type Sh = u64;
    type Rk = u64;
    type Ck = u64;
    type Mk = u64;
    type Dh = FastDh;
    type Enc = FastEnc;
    type Root = FastRoot;
    type Chain = FastChain;
    fn generator() -> u64 {
        1
    }
    fn root() -> u64 {
        u64::MAX
    }
    fn last_public() -> u64 {
        Fast::last_public()
    }
    fn body(sender: usize, seq: usize) -> Vec<u8> {
        (0..LONG + seq).map(|i| (i / 251 + i + sender) as u8).collect()
    }
}

// ------------------------------------------------------------------------------------------------------------- histories

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Send(usize),
    Deliver(usize),
    Dup(usize),
}

impl Ev {
    pub fn text(&self) -> String {
        match self {
            Ev::Send(p) => format!("s{}", p),
            Ev::Deliver(m) => format!("d{}", m),
            Ev::Dup(m) => format!("r{}", m),
        }
    }
    pub fn parse(s: &str) -> Ev {
        let n = s[1..].parse().unwrap();
        match &s[..1] {
            "s" => Ev::Send(n),
            "d" => Ev::Deliver(n),
            _ => Ev::Dup(n),
        }
    }
}

pub fn path_text(path: &[Ev]) -> String {
    path.iter().map(|e| e.text()).collect::<Vec<_>>().join(" ")
}

#[derive(Clone)]
pub struct Msg<K: Kit> {
    m: DoubleRatchetAlgorithmMessage<K::Pk, Vec<u8>>,
    pub sender: usize,
    pub seq: usize,
    pub delivered: bool,
    pub dups: usize,
}

#[derive(Clone)]
pub struct World<K: Kit> {
    pub initiator: Option<Proto<K, Initiator>>,
    pub party: [Option<Proto<K, Established>>; 2],
    pub rng: [MixRng; 2],
    pub msgs: Vec<Msg<K>>,
    pub sent: [usize; 2],
    /// the highest sequence number delivered so far, per sender
    newest: [Option<usize>; 2],
    pub dups: usize,
    last: Option<Ev>,
    marker: PhantomData<K>,
}

pub struct Bounds {
    pub events: usize,
    pub sends: usize,
    pub dups: usize,
    pub dups_per_message: usize,
}

impl<K: Kit> World<K> {
    pub fn new() -> World<K> {
        let mut ra = Self::rng_of(0);
        let mut rb = Self::rng_of(1);
        // party 0 initiates, party 1 is addressed and gets the initiator's public key
        let (init, _first) = Proto::<K, Initiator>::initialize_sending(&mut ra, K::generator(), K::root());
        let public = K::last_public();
        let b = Proto::<K, Established>::initialize_receiving(&mut rb, K::generator(), public, K::root());
        World {
            initiator: Some(init),
            party: [None, Some(b)],
            rng: [ra, rb],
            msgs: vec![],
            sent: [0, 0],
            newest: [None, None],
            dups: 0,
            last: None,
            marker: PhantomData,
        }
    }

    /// the random number generator a party starts with
    pub fn rng_of(p: usize) -> MixRng {
        MixRng(1000 * (p as u64 + 1))
    }

    pub fn at(&self, e: Ev) -> usize {
        match e {
            Ev::Send(p) => p,
            Ev::Deliver(m) | Ev::Dup(m) => 1 - self.msgs[m].sender,
        }
    }

    /// Events at different parties commute unless one delivers what the other sent: only one of the two orders is kept.
    fn canonical(&self, e: Ev) -> bool {
        match self.last {
            None => true,
            Some(l) => {
                if self.at(l) == 1 && self.at(e) == 0 {
                    // party 0 could have moved first, unless it receives what was just sent
                    matches!((l, e), (Ev::Send(1), Ev::Deliver(m)) if m == self.msgs.len() - 1)
                } else {
                    true
                }
            }
        }
    }

    pub fn enabled(&self, b: &Bounds) -> Vec<Ev> {
        let mut v = vec![];
        for p in 0..2 {
            if self.party[p].is_some() && self.sent[0] + self.sent[1] < b.sends {
                v.push(Ev::Send(p));
            }
        }
        for (i, m) in self.msgs.iter().enumerate() {
            if !m.delivered {
                v.push(Ev::Deliver(i));
            } else if self.dups < b.dups && m.dups < b.dups_per_message {
                v.push(Ev::Dup(i));
            }
        }
        v.retain(|e| self.canonical(*e));
        v
    }

    pub fn step(&mut self, e: Ev) -> Result<(), String> {
        self.last = Some(e);
        match e {
            Ev::Send(p) => {
                let seq = self.sent[p];
                self.sent[p] += 1;
                let body = K::body(p, seq);
                let proto = self.party[p].as_mut().unwrap();
                let m = guarded(|| proto.encrypt_message(&body)).map_err(|x| format!("sending: {}", x))?;
                self.msgs.push(Msg { m, sender: p, seq, delivered: false, dups: 0 });
                Ok(())
            }
            Ev::Deliver(i) => {
                let (s, seq) = (self.msgs[i].sender, self.msgs[i].seq);
                let p = 1 - s;
                let late = self.newest[s].map_or(false, |n| n > seq);
                self.msgs[i].delivered = true;
                self.newest[s] = Some(self.newest[s].map_or(seq, |n| n.max(seq)));
                let m = self.msgs[i].m.clone();
                let want = K::body(s, seq);
                let rng = &mut self.rng[p];
                if let Some(init) = self.initiator.take_if(|_| p == 0) {
                    let (est, text) = guarded(|| init.decrypt_first_message(rng, m)).map_err(|x| format!("first message: {}", x))?;
                    self.party[0] = Some(est);
                    if text != want {
                        return Err(format!("the initiator decrypts its first message (number {} of party {}) to a wrong text", seq, s));
                    }
                    return Ok(());
                }
                let proto = self.party[p].as_mut().unwrap();
                let got = guarded(|| proto.decrypt_message(rng, m)).map_err(|x| format!("message {} of party {}: {}", seq, s, x))?;
                let (kind, text) = match got {
                    Ok(t) => ("regular", Some(t)),
                    Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => ("out of order", Some(decrypted_message)),
                    Err(DecryptionException::InvalidMessageHeader {}) => ("invalid header", None),
                    Err(DecryptionException::UnknownMessageHeader {}) => ("unknown header", None),
                };
                let expected = if late { "out of order" } else { "regular" };
                if kind != expected {
                    return Err(format!("message {} of party {} is reported as {} instead of {}", seq, s, kind, expected));
                }
                if text != Some(want) {
                    return Err(format!("message {} of party {} is decrypted to a wrong text", seq, s));
                }
                Ok(())
            }
            Ev::Dup(i) => {
                let (s, seq) = (self.msgs[i].sender, self.msgs[i].seq);
                let p = 1 - s;
                self.msgs[i].dups += 1;
                self.dups += 1;
                let m = self.msgs[i].m.clone();
                let rng = &mut self.rng[p];
                let proto = self.party[p].as_mut().unwrap();
                let got = guarded(|| proto.decrypt_message(rng, m)).map_err(|x| format!("copy of message {} of party {}: {}", seq, s, x))?;
                match got {
                    Ok(_) => Err(format!("a copy of message {} of party {} is accepted as regular", seq, s)),
                    Err(DecryptionException::OutOfOrderMessage { .. }) => {
                        Err(format!("a copy of message {} of party {} is decrypted as out of order", seq, s))
                    }
                    Err(_) => Ok(()),
                }
            }
        }
    }
}

#[derive(Default)]
struct Count {
    nodes: u64,
    leaves: u64,
    deepest_chain: usize,
}

fn dfs<K: Kit>(rep: &Report, scenario: &str, b: &Bounds, w: &World<K>, path: &mut Vec<Ev>, c: &mut Count) {
    if path.len() >= b.events || rep.stopped() {
        c.leaves += 1;
        return;
    }
    let evs = w.enabled(b);
    if evs.is_empty() {
        c.leaves += 1;
    }
    let remaining = b.events - path.len();
    for e in evs {
        // a message sent at the very end cannot be delivered any more
        if remaining == 1 && matches!(e, Ev::Send(_)) {
            continue;
        }
        let mut n = w.clone();
        path.push(e);
        c.nodes += 1;
        if c.nodes & 0xfff == 0 {
            rep.over_deadline();
        }
        match n.step(e) {
            Ok(()) => dfs(rep, scenario, b, &n, path, c),
            Err(m) => rep.fail(format!("{}|{}", scenario, path_text(path)), m),
        }
        path.pop();
    }
}

fn explore<K: Kit>(rep: &Report, scenario: &str, b: &Bounds) {
    if run_replay::<K>(rep, scenario) {
        return;
    }
    // seeds: all canonical paths of a few events
    let mut seeds: Vec<(World<K>, Vec<Ev>)> = vec![(World::new(), vec![])];
    let mut nodes = 1;
    for _ in 0..5.min(b.events) {
        let mut next = vec![];
        for (w, p) in seeds {
            for e in w.enabled(b) {
                let mut n = w.clone();
                let mut q = p.clone();
                q.push(e);
                nodes += 1;
                match n.step(e) {
                    Ok(()) => next.push((n, q)),
                    Err(m) => rep.fail(format!("{}|{}", scenario, path_text(&q)), m),
                }
            }
        }
        seeds = next;
    }
    rep.add_states(nodes);
    rep.add_transitions(nodes);
    let cells: Vec<std::sync::Mutex<Option<(World<K>, Vec<Ev>)>>> = seeds.into_iter().map(|s| std::sync::Mutex::new(Some(s))).collect();
    par_for(rep, cells.len(), |i| {
        let (w, mut p) = cells[i].lock().unwrap().take().unwrap();
        let mut c = Count::default();
        dfs(rep, scenario, b, &w, &mut p, &mut c);
        rep.add_states(c.nodes);
        rep.add_transitions(c.nodes);
        rep.add_execs(c.leaves);
        let _ = c.deepest_chain;
    });
}

fn run_replay<K: Kit>(rep: &Report, scenario: &str) -> bool {
    let r = match &rep.replay {
        None => return false,
        Some(r) => r,
    };
    if let Some(p) = r.strip_prefix(&format!("{}|", scenario)) {
        rep.add_execs(1);
        let path: Vec<Ev> = p.split_whitespace().map(Ev::parse).collect();
        let mut w = World::<K>::new();
        for e in path {
            if let Err(m) = w.step(e) {
                rep.fail(r.clone(), m);
                break;
            }
        }
    }
    true
}

/// Long conversations: every pattern of `len` alternating senders, delivered at once except for up to `delays` messages that
/// arrive at any later point (or never), with up to `dups` copies at any later points.
fn scripts<K: Kit>(rep: &Report, scenario: &str, len: usize, delays: usize, dups: usize) {
    if run_replay::<K>(rep, scenario) {
        return;
    }
    // party 0 may only send once it has received something
    let total = 1usize << len;
    par_for(rep, total, |pattern| {
        let mut c = Count::default();
        let w = World::<K>::new();
        script_rec::<K>(rep, scenario, &w, pattern, len, 0, delays, dups, &mut vec![], &mut c);
        rep.add_states(c.nodes);
        rep.add_transitions(c.nodes);
        rep.add_execs(c.leaves);
    });
}

#[allow(clippy::too_many_arguments)]
fn script_rec<K: Kit>(
    rep: &Report,
    scenario: &str,
    w: &World<K>,
    pattern: usize,
    len: usize,
    i: usize,
    delays: usize,
    dups: usize,
    path: &mut Vec<Ev>,
    c: &mut Count,
) {
    if rep.stopped() {
        return;
    }
    let mut go = |w: &World<K>, evs: &[Ev], i: usize, delays: usize, dups: usize, path: &mut Vec<Ev>, c: &mut Count| {
        let mut n = w.clone();
        let keep = path.len();
        for e in evs {
            path.push(*e);
            c.nodes += 1;
            if let Err(m) = n.step(*e) {
                rep.fail(format!("{}|{}", scenario, path_text(path)), m);
                path.truncate(keep);
                return;
            }
        }
        script_rec::<K>(rep, scenario, &n, pattern, len, i, delays, dups, path, c);
        path.truncate(keep);
    };
    if c.nodes & 0xfff == 0 {
        rep.over_deadline();
    }
    // something delayed or copied arrives now
    for (k, m) in w.msgs.iter().enumerate() {
        if !m.delivered {
            go(w, &[Ev::Deliver(k)], i, delays, dups, path, c);
        } else if dups > 0 {
            go(w, &[Ev::Dup(k)], i, delays, dups - 1, path, c);
        }
    }
    if i == len {
        c.leaves += 1;
        return;
    }
    let p = pattern >> i & 1;
    if w.party[p].is_none() {
        return; // this pattern cannot happen
    }
    let k = w.msgs.len();
    go(w, &[Ev::Send(p), Ev::Deliver(k)], i + 1, delays, dups, path, c);
    if delays > 0 {
        go(w, &[Ev::Send(p)], i + 1, delays - 1, dups, path, c);
    }
}

/// Many messages skipped at once, and long ping-pong conversations.
fn long<K: Kit>(rep: &Report, scenario: &str, skip: usize, rounds: usize, dup: bool) {
    if run_replay::<K>(rep, scenario) {
        return;
    }
    let mut paths: Vec<Vec<Ev>> = vec![];
    // `skip` messages per chain besides the one that arrives first (the last, the first, one in the middle), in chains of
    // alternating direction; the others of each chain arrive at once, one, two or three chains later, at the very end, or never
    for which in 0..3 {
        for when in 0..6 {
            for order in 0..2 {
                let mut path = vec![];
                let mut delayed: std::collections::VecDeque<Vec<usize>> = Default::default();
                let mut count = 0;
                for r in 0..rounds {
                    let p = 1 - r % 2;
                    let first = count;
                    for _ in 0..=skip {
                        path.push(Ev::Send(p));
                        count += 1;
                    }
                    let early = [count - 1, first, first + skip / 2][which];
                    path.push(Ev::Deliver(early));
                    let mut late: Vec<usize> = (first..count).filter(|m| *m != early).collect();
                    if order == 1 {
                        late.reverse();
                    }
                    let due = match when {
                        0..=3 => {
                            delayed.push_back(late);
                            if delayed.len() > when {
                                delayed.pop_front().unwrap()
                            } else {
                                vec![]
                            }
                        }
                        4 => {
                            delayed.push_back(late);
                            vec![]
                        }
                        _ => vec![],
                    };
                    for m in due {
                        path.push(Ev::Deliver(m));
                        if dup {
                            path.push(Ev::Dup(m));
                        }
                    }
                    if dup {
                        path.push(Ev::Dup(early));
                    }
                }
                for m in delayed.into_iter().flatten() {
                    path.push(Ev::Deliver(m));
                }
                if dup {
                    let mut arrived = vec![false; count];
                    for e in &path {
                        if let Ev::Deliver(m) = e {
                            arrived[*m] = true;
                        }
                    }
                    path.extend((0..count).filter(|m| arrived[*m]).map(Ev::Dup));
                }
                for p in [0, 1, 0] {
                    path.push(Ev::Send(p));
                    path.push(Ev::Deliver(count));
                    count += 1;
                }
                paths.push(path);
            }
        }
    }
    par_for(rep, paths.len(), |i| {
        let mut w = World::<K>::new();
        for (n, e) in paths[i].iter().enumerate() {
            if let Err(m) = w.step(*e) {
                rep.fail(format!("{}|{}", scenario, path_text(&paths[i][..=n])), m);
                break;
            }
        }
        rep.add_states(paths[i].len() as u64);
        rep.add_transitions(paths[i].len() as u64);
        rep.add_execs(1);
    });
}

/// Very many messages in one direction, and very many changes of direction, all delivered at once; then one more each way.
fn march<K: Kit>(rep: &Report, scenario: &str, sizes: &[(usize, usize)]) {
    par_for(rep, sizes.len(), |i| {
        let (len, rounds) = sizes[i];
        rep.case_limit(
            300,
            || format!("{}|chains={} messages={}", scenario, rounds, len),
            || {
                let mut w = World::<K>::new();
                let mut count = 0;
                for r in 0..rounds + 3 {
                    for k in 0..if r < rounds { len } else { 1 } {
                        w.step(Ev::Send(1 - r % 2))?;
                        w.step(Ev::Deliver(count)).map_err(|e| format!("{} (message {} of chain {})", e, k, r))?;
                        count += 1;
                    }
                }
                rep.add_states(2 * count as u64);
                rep.add_transitions(2 * count as u64);
                Ok(())
            },
        );
    });
}

pub fn c11(rep: &Report) {
    let t = rep.thorough;
    let b = Bounds { events: if t { 18 } else { 16 }, sends: 9, dups: 0, dups_per_message: 0 };
    explore::<Fast>(rep, "all", &b);
    rep.bound(format!("every history of up to {} send/deliver events (loss = never delivered), up to commutation of independent events", b.events));
    let (l, d) = if t { (10, 3) } else { (9, 2) };
    scripts::<Fast>(rep, "delayed", l, d, 0);
    rep.bound(format!("every sender pattern of {} messages in which up to {} messages are delayed to any later point", l, d));
    long::<Fast>(rep, "long3", 3, 20, false);
    long::<Fast>(rep, "long40", 40, 6, false);
    long::<Fast>(rep, "long300", 300, 6, false);
    long::<Fast>(rep, "long2100", 2100, 5, false);
    long::<Fast>(rep, "long66000", 66_000, 4, false);
    long::<Fast>(rep, "longturns", 1, if t { 20_000 } else { 5000 }, false);
    rep.bound("5000 (thorough: 20000) chains of two messages of which the first is delayed to the next chain or to the end");
    rep.bound("chains of 4, 41, 301, 2101 and 66001 messages of which the last, the first or a middle one arrives first, the others at once, one, two or three chains later, at the end or never");
    let b = Bounds { events: if t { 11 } else { 9 }, sends: 9, dups: 0, dups_per_message: 0 };
    explore::<Odd>(rep, "texts", &b);
    scripts::<Odd>(rep, "textsdelayed", 7, 1, 0);
    long::<Odd>(rep, "textslong", 9, 8, false);
    long::<Large<1000>>(rep, "texts1000", 30, 3, false);
    long::<Large<66_000>>(rep, "texts66000", 2, 4, false);
    long::<Large<17_000_000>>(rep, "texts17000000", 0, 2, false);
    rep.bound(format!("empty, one-byte, zero, equal and 257-byte texts: every history of up to {} events; texts of 1000, 66000 and 17 million bytes in some histories", b.events));
    march::<Fast>(rep, "march", &[(70_000, 1), (300, 40), (1, 3000), (2, if t { 70_000 } else { 10_000 })]);
    rep.bound("undisturbed conversations: 70000 messages in one direction, 10000 (thorough: 70000) changes of direction");
    let b = Bounds { events: if t { 12 } else { 11 }, sends: 9, dups: 0, dups_per_message: 0 };
    explore::<Real>(rep, "real", &b);
    scripts::<Real>(rep, "realdelayed", if t { 8 } else { 7 }, 2, 0);
    rep.bound(format!("the same with Mersenne127 Diffie-Hellman, HKDF-SHA1 and a stream cipher: {} events", b.events));
    rep.sample(|| "s1 d0 s0 s0 d2 s1 d3 d1: the second of two messages arrives first, a key-ratchet step follows, then the late one".into());
    rep.assume("the network does not forge messages; headers are those the protocol produced");
    rep.assume("events at different parties that do not exchange the same message commute");
}

pub fn c12(rep: &Report) {
    let t = rep.thorough;
    let b = Bounds { events: if t { 16 } else { 15 }, sends: 9, dups: if t { 3 } else { 2 }, dups_per_message: 2 };
    explore::<Fast>(rep, "all", &b);
    rep.bound(format!("every history of up to {} send/deliver/duplicate events with up to {} duplicates, up to commutation", b.events, b.dups));
    let (l, d, c) = if t { (8, 2, 2) } else { (7, 2, 1) };
    scripts::<Fast>(rep, "delayed", l, d, c);
    scripts::<Fast>(rep, "copies", l, 1, 2);
    rep.bound(format!("every sender pattern of {} messages with up to {} delayed and {} duplicated at any later point", l, d, c));
    long::<Fast>(rep, "long3", 3, 20, true);
    long::<Fast>(rep, "long40", 40, 6, true);
    long::<Fast>(rep, "long300", 300, 5, true);
    long::<Fast>(rep, "long2100", 2100, 4, true);
    long::<Fast>(rep, "long66000", 66_000, if t { 4 } else { 2 }, true);
    long::<Fast>(rep, "longturns", 1, if t { 20_000 } else { 5000 }, true);
    rep.bound("5000 (thorough: 20000) chains of two messages of which the first is delayed to the next chain or to the end, every message duplicated directly and at the end");
    rep.bound("long conversations (chains of 4, 41, 301, 2101 and 66001 messages, which one arrives first and when the others do as in C11), every message duplicated directly and at the end");
    explore::<Odd>(rep, "texts", &Bounds { events: if t { 10 } else { 9 }, sends: 9, dups: 2, dups_per_message: 2 });
    long::<Odd>(rep, "textslong", 9, 8, true);
    rep.bound("empty, one-byte, zero, equal and 257-byte texts: every history of up to 9 (thorough: 10) events");
    let b = Bounds { events: if t { 11 } else { 10 }, sends: 9, dups: 2, dups_per_message: 2 };
    explore::<Real>(rep, "real", &b);
    rep.bound(format!("the same with Mersenne127 Diffie-Hellman, HKDF-SHA1 and a stream cipher: {} events", b.events));
    rep.sample(|| "s1 d0 s0 d1 s1 d2 r0: a copy from an earlier chain is rejected and nothing changes".into());
    rep.assume("duplicates are exact copies; the network does not forge messages");
}
