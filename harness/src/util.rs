//! Scripted random number generators and small integer helpers.

use num::BigUint;
use rand::{CryptoRng, RngCore};

/// Thrown (as a panic payload text) when a scripted generator has no more values.
pub const EXHAUSTED: &str = "scripted rng exhausted";

/// A generator that repeats the current script word: every 32-bit word it hands out is the next script entry.
pub struct WordRng<F: FnMut() -> u32> {
    pub next: F,
}

impl<F: FnMut() -> u32> RngCore for WordRng<F> {
    fn next_u32(&mut self) -> u32 {
        (self.next)()
    }
    fn next_u64(&mut self) -> u64 {
        let lo = (self.next)() as u64;
        let hi = (self.next)() as u64;
        hi << 32 | lo
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let w = (self.next)().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl<F: FnMut() -> u32> CryptoRng for WordRng<F> {}

/// A generator that draws from a list of words, then panics.
pub fn list_rng(words: &[u32]) -> WordRng<impl FnMut() -> u32 + '_> {
    let mut i = 0;
    WordRng {
        next: move || {
            if i >= words.len() {
                panic!("{}", EXHAUSTED);
            }
            i += 1;
            words[i - 1]
        },
    }
}

/// A deterministic well-mixed generator (splitmix64).
#[derive(Clone)]
pub struct MixRng(pub u64);
impl MixRng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
impl RngCore for MixRng {
    fn next_u32(&mut self) -> u32 {
        self.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for MixRng {}

pub fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn powmod(b: u64, e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    let mut b = b % m;
    let mut e = e;
    while e > 0 {
        if e & 1 == 1 {
            r = (r as u128 * b as u128 % m as u128) as u64
        }
        b = (b as u128 * b as u128 % m as u128) as u64;
        e >>= 1;
    }
    r
}

/// Square and multiply on big integers, independent of num's modpow.
pub fn big_powmod(b: &BigUint, e: &BigUint, m: &BigUint) -> BigUint {
    let mut r = BigUint::from(1u32) % m;
    let b = b % m;
    for byte in e.to_bytes_be() {
        for i in (0..8).rev() {
            r = &r * &r % m;
            if byte >> i & 1 == 1 {
                r = r * &b % m;
            }
        }
    }
    r
}

pub fn big(text: &str, radix: u32) -> BigUint {
    let mut n = BigUint::from(0u32);
    for c in text.chars() {
        n = n * radix + c.to_digit(radix).unwrap();
    }
    n
}

/// Boundary values of a field: around 0, the prime, its half and all limb boundaries.
pub fn boundary_values(p: &BigUint, step: usize) -> Vec<BigUint> {
    let one = BigUint::from(1u32);
    let mut v: Vec<BigUint> = vec![];
    for k in 0u32..4 {
        v.push(BigUint::from(k));
        if *p > BigUint::from(k) {
            v.push(p - BigUint::from(k) - &one);
        }
    }
    for d in [2u32, 3, 5, 7] {
        v.push(p / d);
        v.push(p / d + &one);
    }
    let mut k = step;
    while k <= p.bits() {
        let x = &one << k;
        v.push(&x - &one);
        v.push(x.clone());
        v.push(&x + &one);
        if x < *p {
            v.push(p - &x);
            v.push(p - &x - &one);
        }
        k += step;
    }
    v.retain(|x| x < p);
    v.sort();
    v.dedup();
    v
}
