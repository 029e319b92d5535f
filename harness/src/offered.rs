//! C28: every operation on offer runs; joint random bits and RSA key pairs in particular.

use crate::engine::*;
use crate::fieldlist::*;
use crate::fields::Field;
use crate::hashes::{wide_algs, with_hash, WithHash};
use crate::net::*;
use crate::sharing::{lend, Ch};
use crate::util::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::rsa::{RSACryptoSystem, RSAPrivateKey, RSAPublicKey};
use jester_encryption::AsymmetricalEncryptionScheme;
use jester_maths::prime::*;
use num::BigUint;
use std::collections::BTreeMap;

/// Does every execution of this come to its end without aborting?
fn sweep(rep: &Report, name: &str, run: impl Fn(&mut Choices) -> Result<(), String> + Sync) {
    rep.explore(name, 0, threads(), |ch, _: &mut ()| run(ch));
}

fn hashing(rep: &Report) {
    for alg in wide_algs() {
        let name = alg.name();
        sweep(rep, &format!("hash {}", name), |ch| {
            let len = [0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 256, 300][ch.pick(14) as usize];
            let cut = [0, 1, len / 2, len][ch.pick(4) as usize].min(len);
            let m: Vec<u8> = (0..len).map(|i| (i * 7) as u8).collect();
            with_hash(&alg, Streamed(&m, cut));
            with_hash(&alg, Hmac(&m[..cut], &m));
            with_hash(&alg, Hkdf(&m, &m[..cut], len));
            Ok(())
        });
    }
}

struct Streamed<'a>(&'a [u8], usize);
impl WithHash for Streamed<'_> {
    type Out = ();
    fn run<H: jester_hashes::BlockHashFunction>(self, ctx: &H::Context) {
        use jester_hashes::HashValue;
        let mut s = H::init_hash(ctx);
        H::update_hash(&mut s, ctx, &self.0[..self.1]);
        H::update_hash(&mut s, ctx, &self.0[self.1..]);
        H::finish_hash(&mut s, ctx).raw();
        H::digest_message(ctx, self.0).raw();
        H::block_size(ctx);
        H::output_size(ctx);
    }
}
struct Hmac<'a>(&'a [u8], &'a [u8]);
impl WithHash for Hmac<'_> {
    type Out = ();
    fn run<H: jester_hashes::BlockHashFunction>(self, ctx: &H::Context) {
        jester_hashes::hmac::hmac::<H, _>(ctx, self.0, self.1);
    }
}
struct Hkdf<'a>(&'a [u8], &'a [u8], usize);
impl WithHash for Hkdf<'_> {
    type Out = ();
    fn run<H: jester_hashes::BlockHashFunction>(self, ctx: &H::Context) {
        jester_hashes::kdf::hkdf_derive_key::<H, _>(ctx, self.0, self.1, self.2, b"info");
    }
}

fn arithmetic<F: Field>(rep: &Report, name: &str) {
    let p = F::field_prime_uint();
    let v = boundary_values(&p, if p.bits() > 200 { 512 } else { 16 });
    sweep(rep, &format!("field {}", name), |ch| {
        let pick = |ch: &mut Choices| F::from(v[ch.pick(v.len() as u32) as usize].clone());
        let a = pick(ch);
        let b = pick(ch);
        let _ = (a.clone() + b.clone(), a.clone() - b.clone(), a.clone() * b.clone());
        if !b.is_zero() {
            let _ = (a.clone() / b.clone(), a.clone() % b.clone(), b.inverse());
        }
        if p.bits() < 200 || ch.trace.iter().all(|c| c.chosen < 2) {
            a.pow(&b);
        }
        let _ = (a.is_zero(), a.is_one(), a.as_uint(), a.as_bytes_le(), a.as_bytes_be());
        let _ = (F::from_bytes_le(&a.as_bytes_le()), F::from_bytes_be(&a.as_bytes_be()));
        let _: F = vec![a.clone(), b.clone()].into_iter().sum();
        let _: F = vec![a.clone(), b.clone()].into_iter().product();
        F::from_i64(-5);
        F::from_u64(u64::MAX);
        F::from_str_radix("1", 10).map_err(|_| "a digit is not parsed".to_string())?;
        F::generate_random_member(&mut MixRng(ch.trace.len() as u64));
        Ok(())
    });
}

trait PrimeOf: Field {
    fn field_prime_uint() -> BigUint {
        BigUint::from(1u32) + (Self::zero() - Self::one()).as_uint()
    }
}
impl<F: Field> PrimeOf for F {}

fn exchange<F: Field>(rep: &Report, name: &str) {
    sweep(rep, &format!("key exchange {}", name), |ch| {
        let mut rng = MixRng(ch.pick(16) as u64);
        let g = F::from(BigUint::from(2 + ch.pick(3)));
        let (a, pa) = <F as DiffieHellmanKeyExchangeScheme>::generate_asymmetrical_key_pair(&mut rng, &g);
        let (b, pb) = <F as DiffieHellmanKeyExchangeScheme>::generate_asymmetrical_key_pair(&mut rng, &g);
        <F as DiffieHellmanKeyExchangeScheme>::generate_shared_secret(&a, &pb);
        <F as DiffieHellmanKeyExchangeScheme>::generate_shared_secret(&b, &pa);
        Ok(())
    });
}

fn rsa(rep: &Report) {
    sweep(rep, "rsa encryption and decryption", |ch| {
        let m = ch.pick(33) as u8;
        let n = F257::from(BigUint::from(33u32));
        let public = RSAPublicKey { e: F257::from(BigUint::from(3u32)), n: n.clone() };
        let private = RSAPrivateKey { d: F257::from(BigUint::from(7u32)), n };
        let c = RSACryptoSystem::<F257>::encrypt_message(&public, &[m]);
        RSACryptoSystem::<F257>::decrypt_message(&private, &c);
        Ok(())
    });
    // several generators; every key pair must be valid
    rep.case(
        || "rsa key generation".into(),
        || {
            for seed in 0..20 {
                let (private, public) = guarded(|| RSACryptoSystem::<Mersenne61>::generate_keypair(&mut MixRng(seed)))?;
                if private.n != public.n {
                    return Err(format!("generator {}: the keys have different moduli", seed));
                }
                for m in 0..100u64 {
                    let m = BigUint::from(m * m * m) % private.n.as_uint();
                    let c = RSACryptoSystem::<Mersenne61>::encrypt_message(&public, &m.to_bytes_le());
                    let back = RSACryptoSystem::<Mersenne61>::decrypt_message(&private, &c);
                    if BigUint::from_bytes_le(&back) != m {
                        return Err(format!("generator {}: message {} is decrypted to {:?}", seed, m, back));
                    }
                }
            }
            Ok(())
        },
    );
}

fn protocols<F: Field>(rep: &Report, name: &str, p: u64) {
    for (prog, inputs) in [
        (Prog::Multiply, vec![2, 1]),
        (Prog::MultiplyAll, vec![]),
        (Prog::MultiplyAll, vec![2, 1, 0, 2]),
        (Prog::Invert, vec![2]),
        (Prog::InvertAll, vec![]),
        (Prog::InvertAll, vec![2, 1]),
        (Prog::Or, vec![1]),
        (Prog::OrAll, vec![0, 1]),
        (Prog::OrAll, vec![0, 0]),
        (Prog::Select, vec![1, 2, 0]),
        (Prog::Random, vec![]),
        (Prog::Randoms(3), vec![]),
        (Prog::MultiplyAll, vec![2; 2 * 300]),
        (Prog::InvertAll, vec![2; 300]),
        (Prog::OrAll, vec![1; 40]),
        (Prog::Randoms(300), vec![]),
    ] {
        // an OR of 40 bits needs that many field elements
        if prog == Prog::OrAll && inputs.len() as u64 >= p {
            continue;
        }
        for (n, t) in [(1, 1), (2, 2), (2, 1)] {
            // the coefficient tables belong to the whole process: one thread only
            rep.explore(&format!("{:?} {} {} {:?} n={} t={}", prog, name, inputs.len(), &inputs[..inputs.len().min(4)], n, t), 0, 1, |ch, _: &mut ()| {
                let seed = ch.pick(16) as u64;
                let net = Net::new(n, t, p, move |v| match v {
                    Var::Rng { party: 0, .. } => 1 + hashed(seed, v, p - 1),
                    Var::Rng { .. } => 0,
                    _ => hashed(seed, v, p),
                });
                let x: Vec<Vec<u64>> = inputs.iter().enumerate().map(|(k, s)| hashed_shares(*s, seed * 100 + k as u64, n, t, p)).collect();
                let mut c = Computation::<F>::new(net, prog, &x);
                c.run()?;
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ random bits

fn bit_run<F: Field>(p: u64, n: usize, t: usize, seed: u64, ch: &Ch) -> Result<Option<u64>, String> {
    let c = ch.clone();
    let mut net = Net::new(n, t, p, move |v| match v {
        Var::Rng { .. } => c.borrow_mut().pick(p as u32) as u64,
        _ => hashed(seed, v, p),
    });
    // a zero has no square roots to choose from; such an execution may draw again or is left out
    net.rng_limit = 2;
    let mut c = Computation::<F>::new(net, Prog::RandomBit, &[]);
    match c.run() {
        Ok(Some(_)) => {
            let r = c.results()?;
            if r.len() != 1 || r[0] > 1 {
                return Err(format!("the random bit is {:?}", r));
            }
            Ok(Some(r[0]))
        }
        Ok(None) => Ok(None),
        Err(e) if e.contains(EXHAUSTED) => Ok(None),
        Err(_) if c.abandoned() => Ok(None),
        Err(e) => Err(e),
    }
}

fn bits<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize) {
    for seed in 1..=2 {
        let scenario = format!("random bit {} n={} t={} seed={}", name, n, t, seed);
        let accs = rep.explore(&scenario, 0, threads(), |ch, acc: &mut BTreeMap<u64, u64>| {
            lend(ch, |ch| {
                if let Some(b) = bit_run::<F>(p, n, t, seed, ch)? {
                    *acc.entry(b).or_insert(0) += 1;
                }
                Ok(())
            })
        });
        let count = |b: u64| accs.iter().filter_map(|a| a.get(&b)).sum::<u64>();
        if rep.replay.is_none() && !rep.violated() && count(0) != count(1) {
            rep.fail(scenario.clone(), format!("{} executions give 0 but {} give 1", count(0), count(1)));
        }
    }
}

pub fn c28(rep: &Report) {
    hashing(rep);
    arithmetic::<F2>(rep, "2");
    arithmetic::<F5>(rep, "5");
    arithmetic::<F257>(rep, "257");
    arithmetic::<Mersenne61>(rep, "Mersenne61");
    arithmetic::<Mersenne127>(rep, "Mersenne127");
    arithmetic::<IetfGroup1>(rep, "IetfGroup1");
    exchange::<F257>(rep, "257");
    exchange::<Mersenne127>(rep, "Mersenne127");
    exchange::<IetfGroup3>(rep, "IetfGroup3");
    rsa(rep);
    protocols::<F5>(rep, "F5", 5);
    protocols::<F257>(rep, "F257", 257);
    protocols::<Mersenne61>(rep, "Mersenne61", (1 << 61) - 1);
    rep.bound("hashes, MACs, key derivation, field operations, key exchange, RSA encryption, every sharing protocol: each over a small set of valid inputs");
    // does random bit generation run at all? only then can its results be judged
    let runs = std::cell::Cell::new(false);
    rep.case(
        || "random bit generation".into(),
        || {
            let mut ch = Choices::new(vec![3], 0);
            let mut bit = None;
            lend(&mut ch, |ch| {
                bit = bit_run::<F5>(5, 1, 1, 1, ch)?;
                Ok(())
            })?;
            runs.set(true);
            Ok(())
        },
    );
    if runs.get() {
        bits::<F3>(rep, "F3", 3, 1, 1);
        bits::<F3>(rep, "F3", 3, 2, 2);
        bits::<F5>(rep, "F5", 5, 3, 2);
        bits::<F7>(rep, "F7", 7, 2, 2);
        bits::<F13>(rep, "F13", 13, 2, 2);
        rep.bound("random bits: all contributions of up to three parties in F3 to F13");
    }
    rep.sample(|| "IetfGroup3: exchange with generator 4 and generator seed 7 runs to its end".into());
}
