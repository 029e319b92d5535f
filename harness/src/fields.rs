//! C05 - C08: prime fields.

use crate::engine::*;
use crate::util::*;
use crate::{crate_fields, crate_small_fields, ietf_fields, medium_fields, small_fields};
use jester_maths::prime::PrimeField;
use num::bigint::BigInt;
use num::{BigUint, One, ToPrimitive, Zero};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

pub trait Field: PrimeField + Eq + Hash + PartialOrd + Into<BigUint> + Send + Sync + 'static {}
impl<T: PrimeField + Eq + Hash + PartialOrd + Into<BigUint> + Send + Sync + 'static> Field for T {}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The element must be exactly the canonical representative `want`.
fn is<F: Field>(what: &str, got: F, want: &BigUint) -> Result<(), String> {
    if got.as_uint() != *want {
        return Err(format!("{} is {} but must be {}", what, got.as_uint(), want));
    }
    let canon = F::from(want.clone());
    if got != canon || hash_of(&got) != hash_of(&canon) {
        return Err(format!("{} is {} but does not compare and hash like that element", what, want));
    }
    Ok(())
}

fn short(n: &BigUint) -> String {
    let s = n.to_str_radix(16);
    if s.len() > 40 {
        format!("{}..{}({})", &s[..12], &s[s.len() - 12..], s.len())
    } else {
        s
    }
}

fn pair<F: Field>(p: &BigUint, a: &BigUint, b: &BigUint) -> Result<(), String> {
    let (x, y) = (F::from(a.clone()), F::from(b.clone()));
    is("sum", x.clone() + y.clone(), &((a + b) % p))?;
    is("difference", x.clone() - y.clone(), &((a + p - b) % p))?;
    is("product", x.clone() * y.clone(), &(a * b % p))?;
    if !b.is_zero() {
        is("quotient", x.clone() / y.clone(), &(a / b))?;
        is("remainder", x.clone() % y.clone(), &(a % b))?;
    }
    if (x == y) != (a == b) {
        return Err("equality does not agree with the representatives".into());
    }
    if (x < y) != (a < b) || (x > y) != (a > b) {
        return Err("order does not agree with the representatives".into());
    }
    Ok(())
}

fn unary<F: Field>(a: &BigUint) -> Result<(), String> {
    let x = F::from(a.clone());
    if x.is_zero() != a.is_zero() {
        return Err("is_zero is wrong".into());
    }
    if x.is_one() != a.is_one() {
        return Err("is_one is wrong".into());
    }
    is("element plus zero", x.clone() + F::zero(), a)?;
    is("element minus zero", x.clone() - F::zero(), a)?;
    is("element times one", x.clone() * F::one(), a)?;
    is("one-element sum", vec![x.clone()].into_iter().sum::<F>(), a)?;
    is("one-element product", vec![x].into_iter().product::<F>(), a)
}

fn sequence<F: Field>(p: &BigUint, s: &[BigUint]) -> Result<(), String> {
    let e: Vec<F> = s.iter().map(|x| F::from(x.clone())).collect();
    let sum = s.iter().fold(BigUint::zero(), |a, b| (a + b) % p);
    let prod = s.iter().fold(BigUint::one() % p, |a, b| a * b % p);
    is("sequence sum", e.clone().into_iter().sum::<F>(), &sum)?;
    is("sequence product", e.into_iter().product::<F>(), &prod)
}

/// Residues that look random, of all magnitudes.
fn mixed_values(p: &BigUint, n: usize) -> Vec<BigUint> {
    let mut r = MixRng(p.bits() as u64);
    (0..n)
        .map(|i| {
            let bits = if i % 3 == 0 { 1 + (r.next() as usize) % p.bits() } else { p.bits() + 64 };
            let mut x = BigUint::zero();
            for _ in 0..bits / 64 + 1 {
                x = (x << 64) + BigUint::from(r.next());
            }
            (x % (BigUint::one() << bits)) % p
        })
        .collect()
}

fn prime_of<F: Field>(p: &BigUint) -> Result<(), String> {
    if F::field_prime().as_uint() != *p {
        return Err(format!("field_prime is {} but must be {}", F::field_prime().as_uint(), p));
    }
    is("zero", F::zero(), &BigUint::zero())?;
    is("one", F::one(), &BigUint::one())?;
    is("empty sum", Vec::<F>::new().into_iter().sum::<F>(), &BigUint::zero())?;
    is("empty product", Vec::<F>::new().into_iter().product::<F>(), &BigUint::one())
}

fn c05_exhaustive<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let n = p.to_u32().unwrap();
    rep.case(|| format!("{}|prime", name), || prime_of::<F>(p));
    par_for(rep, n as usize, |a| {
        let a = BigUint::from(a);
        rep.case(|| format!("{}|a={}", name, a), || unary::<F>(&a));
        for b in 0..n {
            let b = BigUint::from(b);
            rep.case(|| format!("{}|a={}|b={}", name, a, b), || pair::<F>(p, &a, &b));
        }
    });
    rep.add_states((n * n) as u64);
    rep.add_transitions(5 * (n * n) as u64);
    // sequences
    let len = match n {
        0..=3 => 7,
        4..=7 => 5,
        8..=13 => 4,
        14..=31 => 3,
        _ => 0,
    } + (rep.thorough && n > 13) as u32 * 1;
    let total = if len == 0 { 0 } else { (n as usize).pow(len) };
    par_for(rep, total.div_ceil(256), |c| {
        for x in c * 256..((c + 1) * 256).min(total) {
            let mut y = x;
            let s: Vec<BigUint> = (0..len)
                .map(|_| {
                    let d = y % n as usize;
                    y /= n as usize;
                    BigUint::from(d)
                })
                .collect();
            rep.case(|| format!("{}|sequence={}", name, join(&s)), || sequence::<F>(p, &s));
            rep.add_states(1);
            rep.add_transitions(len as u64);
        }
    });
}

fn c05_boundary<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    rep.case(|| format!("{}|prime", name), || prime_of::<F>(p));
    let v = boundary_values(p, if p.bits() > 200 { 256 } else if rep.thorough { 8 } else { 16 });
    par_for(rep, v.len(), |i| {
        let a = &v[i];
        rep.case(|| format!("{}|a={}", name, short(a)), || unary::<F>(a));
        for b in &v {
            rep.case(|| format!("{}|a={}|b={}", name, short(a), short(b)), || pair::<F>(p, a, b));
            rep.case(|| format!("{}|sequence={},{},{}", name, short(a), short(b), short(a)), || {
                sequence::<F>(p, &[a.clone(), b.clone(), a.clone()])
            });
        }
        rep.add_states(v.len() as u64);
        rep.add_transitions(7 * v.len() as u64);
    });
    // long uniform and mixed sequences
    let big = p.bits() > 200;
    for a in &v {
        for len in [10usize, 33] {
            rep.case(|| format!("{}|sequence={}x{}", name, len, short(a)), || sequence::<F>(p, &vec![a.clone(); len]));
        }
    }
    let lens = [63usize, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097];
    par_for(rep, lens.len() * 3, |i| {
        let len = lens[lens.len() - 1 - i / 3];
        if big && len > 300 {
            return;
        }
        let s: Vec<BigUint> = match i % 3 {
            0 => vec![p - 1u32; len],
            1 => (0..len).map(|k| v[(k * k + k / 5) % v.len()].clone() + 1u32).map(|x| if x < *p { x } else { BigUint::one() }).collect(),
            _ => mixed_values(p, len).into_iter().map(|x| if x.is_zero() { BigUint::one() } else { x }).collect(),
        };
        rep.case(|| format!("{}|long sequence={} kind={}", name, len, i % 3), || sequence::<F>(p, &s));
        rep.add_states(1);
        rep.add_transitions(len as u64);
    });
    // values without any structure
    let m = mixed_values(p, if big { 12 } else if rep.thorough { 1500 } else { 400 });
    par_for(rep, m.len(), |i| {
        for b in m.iter().chain(v.iter().take(if big { 4 } else { 40 })) {
            rep.case(|| format!("{}|a={}|b={}", name, short(&m[i]), short(b)), || pair::<F>(p, &m[i], b));
            rep.add_states(1);
            rep.add_transitions(5);
        }
    });
}

/// Run one of the generic functions over every field of the lists.
macro_rules! over {
    ($rep:expr, $f:ident, small) => {{ macro_rules! one { ($t:ty, $p:literal, $k:literal) => { $f::<$t>($rep, &stringify!($t).replace(" ", "").replace("$crate::fieldlist::", "").replace("crate::fieldlist::", "").replace("jester_maths::prime::", ""), &big($p, $k)); } } small_fields!(one); crate_small_fields!(one); }};
    ($rep:expr, $f:ident, large) => {{ macro_rules! one { ($t:ty, $p:literal, $k:literal) => { $f::<$t>($rep, &stringify!($t).replace(" ", "").replace("$crate::fieldlist::", "").replace("crate::fieldlist::", "").replace("jester_maths::prime::", ""), &big($p, $k)); } } medium_fields!(one); crate_fields!(one); }};
    ($rep:expr, $f:ident, ietf) => {{ macro_rules! one { ($t:ty, $p:literal, $k:literal) => { $f::<$t>($rep, &stringify!($t).replace(" ", "").replace("$crate::fieldlist::", "").replace("crate::fieldlist::", "").replace("jester_maths::prime::", ""), &big($p, $k)); } } ietf_fields!(one); }};
}

pub fn c05(rep: &Report) {
    over!(rep, c05_exhaustive, small);
    rep.bound("all element pairs of every field with a prime below 252 (54 harness fields, Mersenne 2,3,5); all sequences of length 7/5/4/3 for primes up to 3/7/13/31");
    over!(rep, c05_boundary, large);
    over!(rep, c05_boundary, ietf);
    rep.bound("all pairs of boundary values (around 0, p, p/2, p/3 and all limb boundaries) for 8 larger crate fields, 11 harness fields next to word boundaries and the three IETF groups");
    rep.bound("in those fields: all pairs of 400 (thorough: 1500; IETF: 12) mixed values of all magnitudes; uniform and mixed sequences of up to 4097 (IETF: 257) elements");
    rep.sample(|| "F251|a=250|b=249: sum, difference, product, quotient, remainder, equality, order and hash".into());
    rep.assume("num-bigint arithmetic on plain integers");
}

// ------------------------------------------------------------------------------------------------------------------

fn residue(n: &BigInt, p: &BigUint) -> BigUint {
    let p = BigInt::from(p.clone());
    let r = ((n % &p) + &p) % &p;
    r.to_biguint().unwrap()
}

fn c06_one<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    // machine integers
    let mut ints: Vec<i128> = vec![0];
    let small = if p.bits() < 9 { p.to_i64().unwrap() as i128 * 2 + 3 } else { 70 };
    for i in 1..=small {
        ints.extend([i, -i]);
    }
    for k in 1..=64u32 {
        let x = 1i128 << k;
        ints.extend([x, x - 1, x + 1, -x, -x + 1, -x - 1]);
    }
    for m in [i64::MAX as i128, i64::MIN as i128, u64::MAX as i128] {
        ints.extend([m, m - 1, m + 1]);
    }
    if let Some(q) = p.to_i64() {
        for k in [1i128, 2, 3, 5, 1000003] {
            let x = q as i128 * k;
            for d in -2..=2 {
                ints.extend([x + d, -x + d]);
            }
        }
    }
    ints.sort_unstable();
    ints.dedup();
    let check = |what: &str, got: Option<F>, n: i128| -> Result<(), String> {
        match got {
            None => Err(format!("{}({}) is refused", what, n)),
            Some(f) => is(&format!("{}({})", what, n), f, &residue(&BigInt::from(n), p)),
        }
    };
    for &n in &ints {
        rep.case(|| format!("{}|integer={}", name, n), || {
            if n >= i64::MIN as i128 && n <= i64::MAX as i128 {
                check("from_i64", F::from_i64(n as i64), n)?;
                check("from_isize", F::from_isize(n as isize), n)?;
            }
            if n >= 0 && n <= u64::MAX as i128 {
                check("from_u64", F::from_u64(n as u64), n)?;
                check("from_usize", F::from_usize(n as usize), n)?;
            }
            if n >= i32::MIN as i128 && n <= i32::MAX as i128 {
                check("from_i32", F::from_i32(n as i32), n)?;
            }
            if n >= 0 && n <= u32::MAX as i128 {
                check("from_u32", F::from_u32(n as u32), n)?;
            }
            if n >= i16::MIN as i128 && n <= i16::MAX as i128 {
                check("from_i16", F::from_i16(n as i16), n)?;
            }
            if n >= 0 && n <= u16::MAX as i128 {
                check("from_u16", F::from_u16(n as u16), n)?;
            }
            if n >= i8::MIN as i128 && n <= i8::MAX as i128 {
                check("from_i8", F::from_i8(n as i8), n)?;
            }
            if n >= 0 && n <= u8::MAX as i128 {
                check("from_u8", F::from_u8(n as u8), n)?;
            }
            Ok(())
        });
    }
    rep.add_states(ints.len() as u64);
    rep.add_transitions(ints.len() as u64 * 4);
    // big integers
    let mut bigs = boundary_values(p, if p.bits() > 200 { 256 } else { 16 });
    let more: Vec<BigUint> = bigs.iter().flat_map(|b| vec![b + p, b + p * 2u32, b * p + b, b + p * p]).collect();
    bigs.extend(more);
    bigs.sort();
    bigs.dedup();
    for b in &bigs {
        rep.case(|| format!("{}|biguint={}", name, short(b)), || {
            let f = F::from(b.clone());
            is("converted element", f.clone(), &(b % p))?;
            let back: BigUint = f.into();
            if back != b % p {
                return Err("conversion into a big integer differs".into());
            }
            Ok(())
        });
        // digit strings
        for radix in [2u32, 3, 8, 10, 16, 29, 36] {
            let s = b.to_str_radix(radix);
            for text in [s.clone(), s.to_uppercase(), format!("000{}", s)] {
                rep.case(|| format!("{}|radix={}|text={}", name, radix, if text.len() < 80 { &text[..] } else { &text[..80] }), || {
                    match F::from_str_radix(&text, radix) {
                        Ok(f) => is("parsed element", f, &(b % p)),
                        Err(_) => Err("a number is rejected".into()),
                    }
                });
            }
        }
    }
    rep.add_states(bigs.len() as u64);
    rep.add_transitions(bigs.len() as u64 * 23);
    // byte strings
    let bytes = |b: &BigUint, le: bool, pad: usize| {
        let mut v = b.to_bytes_le();
        v.resize(v.len() + pad, 0);
        if !le {
            v.reverse()
        }
        v
    };
    for b in &bigs {
        for pad in [0usize, 1, 4] {
            rep.case(|| format!("{}|bytes of {}|pad={}", name, short(b), pad), || {
                let ok = b < p;
                for (le, got) in [(true, F::from_bytes_le(&bytes(b, true, pad))), (false, F::from_bytes_be(&bytes(b, false, pad)))] {
                    match got {
                        Some(f) if ok => is(if le { "little endian" } else { "big endian" }, f, b)?,
                        Some(_) => return Err(format!("a value not below the prime is accepted (little endian: {})", le)),
                        None if ok => return Err(format!("a value below the prime is refused (little endian: {})", le)),
                        None => {}
                    }
                }
                Ok(())
            });
        }
        if b < p {
            roundtrip::<F>(rep, name, b);
        }
    }
    // encodings of every byte length, and byte strings far longer than the prime
    let size = (p.bits() as usize + 7) / 8;
    let mut sized: Vec<BigUint> = vec![];
    for k in 1..=size {
        let x = BigUint::one() << (8 * k);
        sized.extend([&x - 1u32, x.clone(), &x + 1u32, (&x >> 1usize) + (&x >> 7usize), &x - (&x >> 3usize)]);
    }
    sized.retain(|b| b < p);
    for b in &sized {
        roundtrip::<F>(rep, name, b);
    }
    rep.add_states(sized.len() as u64);
    rep.add_transitions(2 * sized.len() as u64);
    let longest = 2 * size + 1100;
    let tests = [BigUint::zero(), BigUint::one(), p - 1u32, p >> 1usize];
    for len in (0..=longest).filter(|l| size < 64 || l % 7 == 3 || l.is_power_of_two() || *l < 80 || *l + 80 > longest) {
        for (j, b) in tests.iter().enumerate() {
            rep.case(|| format!("{}|value {} in {} bytes more|", name, j, len), || {
                for (le, got) in [(true, F::from_bytes_le(&bytes(b, true, len))), (false, F::from_bytes_be(&bytes(b, false, len)))] {
                    match got {
                        Some(f) => is(if le { "little endian" } else { "big endian" }, f, b)?,
                        None => return Err(format!("a zero-padded value below the prime is refused (little endian: {})", le)),
                    }
                }
                // one more byte that is not zero makes it too large
                let mut v = bytes(b, true, len);
                v.resize(v.len().max(size), 0);
                v.push(1);
                if F::from_bytes_le(&v).is_some() {
                    return Err("a value not below the prime is accepted (little endian)".into());
                }
                v.reverse();
                if F::from_bytes_be(&v).is_some() {
                    return Err("a value not below the prime is accepted (big endian)".into());
                }
                Ok(())
            });
        }
        rep.add_states(tests.len() as u64);
        rep.add_transitions(4 * tests.len() as u64);
    }
    // all short byte strings
    rep.case(|| format!("{}|empty bytes", name), || match (F::from_bytes_le(&[]), F::from_bytes_be(&[])) {
        (Some(a), Some(b)) if a.is_zero() && b.is_zero() => Ok(()),
        x => Err(format!("the empty byte string is decoded as {:?}", x)),
    });
    for x in 0..=u16::MAX {
        for len in [1usize, 2] {
            if len == 1 && x > 255 {
                continue;
            }
            let raw = &x.to_le_bytes()[..len];
            rep.case(|| format!("{}|raw={:02x?}", name, raw), || {
                let le = BigUint::from(x);
                let be = BigUint::from(if len == 1 { x } else { x.swap_bytes() });
                for (v, got, what) in [(le, F::from_bytes_le(raw), "little endian"), (be, F::from_bytes_be(raw), "big endian")] {
                    match got {
                        Some(f) if v < *p => is(what, f, &v)?,
                        Some(_) => return Err(format!("{}: a value not below the prime is accepted", what)),
                        None if v < *p => return Err(format!("{}: a value below the prime is refused", what)),
                        None => {}
                    }
                }
                Ok(())
            });
        }
    }
    rep.add_states(65792);
    rep.add_transitions(2 * 65792);
    if *p < BigUint::from(70000u32) {
        for x in 0..p.to_u32().unwrap() {
            roundtrip::<F>(rep, name, &BigUint::from(x));
        }
        rep.add_states(p.to_u64().unwrap());
        rep.add_transitions(2 * p.to_u64().unwrap());
    }
}

fn roundtrip<F: Field>(rep: &Report, name: &str, b: &BigUint) {
    rep.case(|| format!("{}|round trip of {}", name, short(b)), || {
        let f = F::from(b.clone());
        let (le, be) = (f.as_bytes_le(), f.as_bytes_be());
        if BigUint::from_bytes_le(&le) != *b || BigUint::from_bytes_be(&be) != *b {
            return Err(format!("encoded as {:02x?} / {:02x?}", le, be));
        }
        match (F::from_bytes_le(&le), F::from_bytes_be(&be)) {
            (Some(x), Some(y)) => {
                is("little endian round trip", x, b)?;
                is("big endian round trip", y, b)
            }
            _ => Err("own encoding refused".into()),
        }
    });
}

fn c06_strings<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let alpha: Vec<char> = "012 9aAfgzZ-./:@G[`{é".chars().collect();
    let depth = if rep.thorough { 4 } else { 3 };
    let total: usize = (0..=depth).map(|d| alpha.len().pow(d as u32)).sum();
    par_for(rep, total, |i| {
        let mut x = i;
        let mut d = 0;
        while x >= alpha.len().pow(d) {
            x -= alpha.len().pow(d);
            d += 1;
        }
        let mut s = String::new();
        for _ in 0..d {
            s.push(alpha[x % alpha.len()]);
            x /= alpha.len();
        }
        for radix in [2u32, 10, 16, 36] {
            let valid = !s.is_empty() && s.chars().all(|c| c.to_digit(radix).is_some());
            rep.case(|| format!("{}|radix={}|string={:?}", name, radix, s), || match F::from_str_radix(&s, radix) {
                Ok(f) if valid => is("parsed element", f, &(big(&s, radix) % p)),
                Ok(f) => Err(format!("accepted as {}", f.as_uint())),
                Err(_) if valid => Err("a number is rejected".into()),
                Err(_) => Ok(()),
            });
        }
        rep.add_states(1);
        rep.add_transitions(4);
    });
    rep.bound(format!("all strings of up to {} characters over {:?} in radix 2, 10, 16 and 36", depth, alpha.iter().collect::<String>()));
}

/// Numbers with very many digits, with and without leading zeros.
fn c06_long_strings<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let mut lens = vec![];
    for k in 5..=if rep.thorough { 17 } else { 16 } {
        lens.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    lens.extend([1000, 1001, 4999, 5000, 5001, 10_000, 20_000]);
    lens.reverse();
    par_for(rep, lens.len(), |i| {
        let len = lens[i];
        for radix in [2u32, 10, 16, 36] {
            for kind in 0..4 {
                let digit = |k: usize| -> u32 {
                    match kind {
                        // leading zeros
                        0 => if k + 3 < len { 0 } else { 1 },
                        // 1000...0001
                        1 => (k == 0 || k + 1 == len) as u32,
                        2 => radix - 1,
                        _ => (k * k + k / 7 + 3) as u32 % radix,
                    }
                };
                let s: String = (0..len).map(|k| std::char::from_digit(digit(k), radix).unwrap()).collect();
                rep.case_limit(120, || format!("{}|radix={}|{} digits, kind {}", name, radix, len, kind), || {
                    let want = (0..len).fold(BigUint::zero(), |a, k| (a * radix + digit(k)) % p);
                    match F::from_str_radix(&s, radix) {
                        Ok(f) => is("parsed element", f, &want),
                        Err(_) => Err("a number is rejected".into()),
                    }
                });
                rep.add_states(1);
                rep.add_transitions(1);
            }
        }
    });
    rep.bound(format!("{}: numbers of 31 to {} digits in radix 2, 10, 16 and 36: leading zeros, largest digits, two ones, mixed", name, lens.iter().max().unwrap()));
}

pub fn c06(rep: &Report) {
    let mut jobs: Vec<Box<dyn Fn() + Sync + Send + '_>> = vec![];
    macro_rules! one {
        ($t:ty, $p:literal, $k:literal) => {
            jobs.push(Box::new(move || c06_one::<$t>(rep, &stringify!($t).replace(" ", "").replace("$crate::fieldlist::", "").replace("crate::fieldlist::", "").replace("jester_maths::prime::", ""), &big($p, $k))));
        };
    }
    small_fields!(one);
    crate_small_fields!(one);
    medium_fields!(one);
    crate_fields!(one);
    ietf_fields!(one);
    par_for(rep, jobs.len(), |i| jobs[jobs.len() - 1 - i]());
    rep.bound("76 fields: all integers around 0, powers of two, extremes of i64/u64 and multiples of p; boundary big integers with multiples of p added; 7 radixes; all byte strings of length 0..=2; all elements of fields below 70000; values next to 256^k for every k; values zero-padded by up to 1100 bytes more than twice the prime's length, and the same with a leading one");
    c06_strings::<crate::fieldlist::F7>(rep, "F7", &BigUint::from(7u32));
    c06_strings::<jester_maths::prime::Mersenne61>(rep, "Mersenne61", &(BigUint::from(u64::MAX >> 3)));
    c06_long_strings::<jester_maths::prime::Mersenne61>(rep, "Mersenne61", &(BigUint::from(u64::MAX >> 3)));
    c06_long_strings::<jester_maths::prime::Mersenne127>(rep, "Mersenne127", &((BigUint::one() << 127usize) - 1u32));
    rep.sample(|| "F7|integer=-9223372036854775808 converts to the canonical residue".into());
    rep.assume("num-bigint arithmetic on plain integers");
}

// ------------------------------------------------------------------------------------------------------------------

fn inverse_ok<F: Field>(a: &BigUint, p: &BigUint) -> Result<(), String> {
    let x = F::from(a.clone());
    let y = x.inverse();
    let v = y.as_uint();
    if v >= *p {
        return Err(format!("the inverse {} is not canonical", v));
    }
    if &v * a % p != BigUint::one() {
        return Err(format!("element times its inverse {} is not one", v));
    }
    is("element times inverse", x * y, &BigUint::one())
}

fn big_gcd(a: &BigUint, b: &BigUint) -> BigUint {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}

fn egcd_ok<F: Field>(a: &BigUint, b: &BigUint, p: &BigUint) -> Result<(), String> {
    let (d, s, t) = F::extended_greatest_common_divisor(&F::from(a.clone()), &F::from(b.clone()));
    is("greatest common divisor", d.clone(), &big_gcd(a, b))?;
    let (s, t) = (s.as_uint(), t.as_uint());
    if s >= *p || t >= *p {
        return Err("a coefficient is not canonical".into());
    }
    if (&s * a + &t * b) % p != d.as_uint() {
        return Err(format!("coefficients {} and {} do not satisfy the identity for gcd {}", s, t, d.as_uint()));
    }
    Ok(())
}

fn c07_small<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let n = p.to_u64().unwrap();
    par_for(rep, n as usize, |a| {
        let a = a as u64;
        let ab = BigUint::from(a);
        let x = F::from(ab.clone());
        if a > 0 {
            rep.case(|| format!("{}|inverse of {}", name, a), || inverse_ok::<F>(&ab, p));
        }
        for b in 0..n {
            let bb = BigUint::from(b);
            let y = F::from(bb.clone());
            rep.case(|| format!("{}|gcd({},{})", name, a, b), || egcd_ok::<F>(&ab, &bb, p));
            rep.case(|| format!("{}|{}^{}", name, a, b), || is("power", x.pow(&y), &BigUint::from(powmod(a, b, n))));
            let full = n <= if rep.thorough { 101 } else { 31 };
            let mods: Vec<u64> = if full { (1..n).collect() } else { vec![1, 2, 3, n / 2, n - 2, n - 1] };
            for m in mods.into_iter().filter(|m| *m > 0) {
                let mm = F::from(BigUint::from(m));
                rep.case(|| format!("{}|{}^{} mod {}", name, a, b, m), || {
                    is("power with modulus", x.modpow(&y, &mm), &BigUint::from(powmod(a, b, m)))
                });
            }
            rep.case(|| format!("{}|{}^{} mod prime", name, a, b), || {
                is("power modulo the field prime", x.modpow(&y, &F::field_prime()), &BigUint::from(powmod(a, b, n)))
            });
        }
        rep.add_states(n);
        rep.add_transitions(4 * n);
    });
}

fn c07_large<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let huge = p.bits() > 200;
    let mut v = boundary_values(p, if huge { 512 } else { 16 });
    if huge && !rep.thorough {
        let keep = v.len() / 12 + 1;
        v = v.iter().step_by(keep).cloned().collect();
    }
    let mut rng = MixRng(7);
    for _ in 0..4 {
        let bytes: Vec<u8> = (0..p.bits() / 8 + 1).map(|_| rng.next() as u8).collect();
        v.push(BigUint::from_bytes_le(&bytes) % p);
    }
    par_for(rep, v.len(), |i| {
        let a = &v[i];
        let x = F::from(a.clone());
        if !a.is_zero() {
            rep.case(|| format!("{}|inverse of {}", name, short(a)), || inverse_ok::<F>(a, p));
        }
        for b in &v {
            let y = F::from(b.clone());
            rep.case(|| format!("{}|gcd({},{})", name, short(a), short(b)), || egcd_ok::<F>(a, b, p));
            rep.case(|| format!("{}|{}^{}", name, short(a), short(b)), || is("power", x.pow(&y), &big_powmod(a, b, p)));
            let mods: Vec<&BigUint> = if huge { v.iter().skip(3).step_by(9).collect() } else { v.iter().step_by(if rep.thorough { 1 } else { 5 }).collect() };
            for m in mods {
                if m.is_zero() {
                    continue;
                }
                rep.case(|| format!("{}|{}^{} mod {}", name, short(a), short(b), short(m)), || {
                    is("power with modulus", x.modpow(&y, &F::from(m.clone())), &big_powmod(a, b, m))
                });
            }
        }
        rep.add_states(v.len() as u64);
        rep.add_transitions(3 * v.len() as u64);
    });
}

fn c07_inverses<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let n = p.to_usize().unwrap();
    par_for(rep, n / 64 + 1, |c| {
        for a in (c * 64).max(1)..((c + 1) * 64).min(n) {
            rep.case(|| format!("{}|inverse of {}", name, a), || inverse_ok::<F>(&BigUint::from(a), p));
        }
    });
    rep.add_states(n as u64);
    rep.add_transitions(n as u64);
}

pub fn c07(rep: &Report) {
    over!(rep, c07_small, small);
    rep.bound("all inverses, gcds and powers of all pairs in every field with a prime below 252; all moduli for primes up to 31 (thorough: 101), 6 moduli otherwise");
    over!(rep, c07_large, large);
    over!(rep, c07_large, ietf);
    rep.bound("boundary values and four mixed values in 22 larger fields");
    c07_inverses::<jester_maths::prime::Mersenne13>(rep, "Mersenne13(all)", &BigUint::from(8191u32));
    c07_inverses::<crate::fieldlist::F65537>(rep, "F65537(all)", &BigUint::from(65537u32));
    if rep.thorough {
        c07_inverses::<jester_maths::prime::Mersenne17>(rep, "Mersenne17(all)", &BigUint::from(131071u32));
        c07_inverses::<jester_maths::prime::Mersenne19>(rep, "Mersenne19(all)", &BigUint::from(524287u32));
    }
    rep.bound("all inverses of the fields of 8191 and 65537 elements (thorough: also 131071 and 524287)");
    rep.sample(|| "F251|gcd(250,249) with Bezout coefficients in the field".into());
    rep.assume("num-bigint arithmetic on plain integers");
}

// ------------------------------------------------------------------------------------------------------------------

/// Draw one member with the scripted words; None if the words run out (rejection).
fn draw<F: Field>(words: &[u32], p: &BigUint) -> Result<Option<BigUint>, String> {
    let mut rng = list_rng(words);
    match guarded(|| F::generate_random_member(&mut rng)) {
        Ok(f) => {
            let v = f.as_uint();
            if v >= *p {
                return Err(format!("generated member {} is not canonical", v));
            }
            is("generated member", f, &v)?;
            Ok(Some(v))
        }
        Err(e) if e.contains(EXHAUSTED) => Ok(None),
        Err(e) => Err(e),
    }
}

/// How many 32-bit words one attempt may take.
fn words_of(p: &BigUint) -> usize {
    p.bits().div_ceil(32)
}

/// A word whose bits are the `bits`-bit value `v` repeated from the top.
fn repeated(v: u64, bits: u32) -> u32 {
    let mut w = 0u32;
    let mut filled = 0u32;
    while filled < 32 {
        let sh = 32 - filled as i32 - bits as i32;
        w |= if sh >= 0 { (v as u32) << sh } else { (v >> -sh) as u32 };
        filled += bits;
    }
    w
}

fn c08_exact<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let n = p.to_u64().unwrap();
    // bits per symbol: as many as the prime needs, at least 8
    let sym = (p.bits() as u32).max(8);
    let total = 1u64 << sym;
    // first draw: every symbol
    rep.case(|| format!("{}|every first word", name), || {
        let mut count: BTreeMap<u64, u64> = BTreeMap::new();
        let mut rejected = vec![];
        for s in 0..total {
            match draw::<F>(&[repeated(s, sym)], p)? {
                Some(v) => *count.entry(v.to_u64().unwrap()).or_insert(0) += 1,
                None => rejected.push(s),
            }
        }
        rep.outcome(&format!("{}: accepted", name), total - rejected.len() as u64);
        uniform(&count, n)?;
        // second draw after each (or a few) kinds of rejection
        if sym == 8 {
            for r in rejected.iter().step_by((rejected.len() / 16).max(1)) {
                let mut count: BTreeMap<u64, u64> = BTreeMap::new();
                for s in 0..total {
                    if let Some(v) = draw::<F>(&[repeated(*r, sym), repeated(s, sym)], p)? {
                        *count.entry(v.to_u64().unwrap()).or_insert(0) += 1;
                    }
                }
                uniform(&count, n).map_err(|e| format!("after a rejected draw: {}", e))?;
            }
        }
        // and after many of them in a row
        let runs: &[usize] = &[2, 3, 7, 10, 31, 64, 99, 127, 255, 999, 4095, 65535];
        let budget = if rep.thorough { 1 << 27 } else { 1 << 19 };
        for (i, &run) in runs.iter().enumerate().filter(|r| *r.1 as u64 * total <= budget) {
            let r = match rejected.get(i * 37 % rejected.len().max(1)) {
                Some(r) => *r,
                None => break,
            };
            let mut count: BTreeMap<u64, u64> = BTreeMap::new();
            let mut words = vec![repeated(r, sym); run];
            words.push(0);
            for s in 0..total {
                words[run] = repeated(s, sym);
                if let Some(v) = draw::<F>(&words, p)? {
                    *count.entry(v.to_u64().unwrap()).or_insert(0) += 1;
                }
            }
            uniform(&count, n).map_err(|e| format!("after {} rejected draws: {}", run, e))?;
            rep.add_execs(total);
        }
        rep.add_states(n);
        rep.add_transitions(total);
        rep.add_execs(total);
        Ok(())
    });
}

fn uniform(count: &BTreeMap<u64, u64>, n: u64) -> Result<(), String> {
    for v in 0..n {
        if !count.contains_key(&v) {
            return Err(format!("the element {} is never generated", v));
        }
    }
    let (min, max) = (count.values().min().unwrap(), count.values().max().unwrap());
    if min != max {
        let (a, b) = (count.iter().find(|x| x.1 == min).unwrap(), count.iter().find(|x| x.1 == max).unwrap());
        return Err(format!("element {} is generated {} times but element {} is generated {} times", a.0, a.1, b.0, b.1));
    }
    Ok(())
}

/// Successive draws from one generator: every pair of outcomes equally often.
fn c08_pairs<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let n = p.to_u64().unwrap();
    if n > 32 {
        return;
    }
    rep.case(|| format!("{}|pairs of draws", name), || {
        let mut count: BTreeMap<u64, u64> = BTreeMap::new();
        for a in 0..256u64 {
            for b in 0..256u64 {
                let words = [repeated(a, 8), repeated(b, 8)];
                let mut rng = list_rng(&words);
                let r = guarded(|| {
                    let x = F::generate_random_member(&mut rng).as_uint().to_u64().unwrap();
                    let y = F::generate_random_member(&mut rng).as_uint().to_u64().unwrap();
                    (x, y)
                });
                match r {
                    Ok((x, y)) => *count.entry(x * n + y).or_insert(0) += 1,
                    Err(e) if e.contains(EXHAUSTED) => {}
                    Err(e) => return Err(e),
                }
            }
        }
        rep.add_states(n * n);
        rep.add_transitions(65536);
        rep.add_execs(65536);
        uniform(&count, n * n).map_err(|e| format!("(first*p+second) {}", e))
    });
}

/// Large fields: every member is canonical, no bit of the range is unreachable, low and high ends are equally likely.
fn c08_large<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let w = words_of(p);
    // 65536 scripts that are a bijection in every half word
    rep.case(|| format!("{}|65536 scripts", name), || {
        let mut top = [0u64; 16];
        let mut low = [0u64; 16];
        let mut seen = std::collections::HashSet::new();
        let mut accepted = 0u64;
        for s in 0..65536u64 {
            // every 16-bit half of every word is a different bijection of s
            let half = |i: usize| (s.wrapping_mul(0x9e37 + 2 * 0x1f35 * i as u64) & 0xffff) as u32;
            let words: Vec<u32> = (0..w).map(|i| half(2 * i) << 16 | half(2 * i + 1)).collect();
            if let Some(v) = draw::<F>(&words, p)? {
                accepted += 1;
                let bytes = v.to_bytes_le();
                low[(bytes[0] & 15) as usize] += 1;
                let t: BigUint = &v * 16u32 / p;
                top[t.to_usize().unwrap()] += 1;
                seen.insert(v);
            }
        }
        rep.add_states(seen.len() as u64);
        rep.add_transitions(65536);
        rep.add_execs(65536);
        rep.outcome(&format!("{}: distinct members", name), seen.len() as u64);
        let expect = accepted as f64 / 16.0;
        for (what, h) in [("sixteenth of the range", &top), ("low nibble", &low)] {
            for (i, c) in h.iter().enumerate() {
                if (*c as f64) < expect * 0.9 || (*c as f64) > expect * 1.1 {
                    return Err(format!("{} {} is hit {} times instead of about {}", what, i, c, expect as u64));
                }
            }
        }
        // the value zero and the largest value are possible
        if !seen.contains(&BigUint::zero()) {
            return Err("zero is never generated".into());
        }
        Ok(())
    });
    // the same after many rejected draws: all bits one is above every prime of that length
    let runs: &[usize] = if rep.thorough { &[1, 12, 99, 300, 3000] } else { &[1, 12, 99, 300] };
    for &run in runs {
        rep.case_limit(300, || format!("{}|after {} rejected draws", name, run), || {
            let mut words = vec![u32::MAX; run * w];
            if draw::<F>(&words, p)?.is_some() {
                return Ok(());
            }
            words.extend(vec![0; w]);
            let mut top = [0u64; 16];
            let mut accepted = 0u64;
            for s in 0..1024u64 {
                let x = s * 64 + (s >> 4);
                let half = |i: usize| (x.wrapping_mul(0x9e37 + 2 * 0x1f35 * i as u64) & 0xffff) as u32;
                for i in 0..w {
                    words[run * w + i] = half(2 * i) << 16 | half(2 * i + 1);
                }
                if let Some(v) = draw::<F>(&words, p)? {
                    accepted += 1;
                    let t: BigUint = &v * 16u32 / p;
                    top[t.to_usize().unwrap()] += 1;
                }
            }
            rep.add_states(accepted);
            rep.add_transitions(1024);
            rep.add_execs(1024);
            let expect = accepted as f64 / 16.0;
            for (i, c) in top.iter().enumerate() {
                if (*c as f64) < expect * 0.6 || (*c as f64) > expect * 1.4 {
                    return Err(format!("after {} rejected draws sixteenth {} of the range is hit {} times instead of about {}", run, i, c, expect as u64));
                }
            }
            Ok(())
        });
    }
    // each bit of each word: flipping any single bit of a fixed accepted script must be able to reach every bit of the
    // result, i.e. no bit of the range is constant
    rep.case(|| format!("{}|bit flips", name), || {
        let base: Vec<u32> = (0..w).map(|i| 0x5a3c_96e1u32.rotate_left(i as u32 * 7) & 0x7fff_ffff).collect();
        let v0 = match draw::<F>(&base, p)? {
            Some(v) => v,
            None => return Ok(()),
        };
        let mut touched = std::collections::HashSet::new();
        let mut results = std::collections::HashSet::new();
        for i in 0..w {
            for b in 0..32 {
                let mut s = base.clone();
                s[i] ^= 1 << b;
                if let Some(v) = draw::<F>(&s, p)? {
                    results.insert(v.clone());
                    let (x, y) = (v0.to_bytes_le(), v.to_bytes_le());
                    for k in 0..x.len().max(y.len()) {
                        let d = x.get(k).unwrap_or(&0) ^ y.get(k).unwrap_or(&0);
                        for j in 0..8 {
                            if d >> j & 1 == 1 {
                                touched.insert(k * 8 + j);
                            }
                        }
                    }
                }
            }
        }
        rep.add_states(results.len() as u64);
        rep.add_transitions(32 * w as u64);
        let lost: Vec<usize> = (0..p.bits() - 1).filter(|b| !touched.contains(b)).collect();
        if lost.len() > 2 {
            return Err(format!("{} bits of the result do not depend on the generator, the first is bit {}", lost.len(), lost[0]));
        }
        Ok(())
    });
    // extremes
    for (what, word) in [("zeros", 0u32), ("ones", u32::MAX), ("high bits", 0x8000_0000), ("low bits", 0x7fff_ffff), ("one", 1), ("almost ones", 0xffff_fffe)] {
        for pos in 0..w {
            for rest in [0u32, u32::MAX] {
                let mut s = vec![rest; w];
                s[pos] = word;
                s.extend(vec![0x1234_5678; w]);
                rep.case(|| format!("{}|{} in word {} of {:x}", name, what, pos, rest), || draw::<F>(&s, p).map(|_| ()));
                rep.add_transitions(1);
            }
        }
    }
}

/// The complete 2^32 choices of one word (thorough).
fn c08_full<F: Field>(rep: &Report, name: &str, p: &BigUint) {
    let n = p.to_usize().unwrap();
    let counts: Vec<std::sync::atomic::AtomicU64> = (0..n).map(|_| Default::default()).collect();
    let chunks = 1usize << 12;
    par_for(rep, chunks, |c| {
        rep.case_limit(600, || format!("{}|all words, part {}", name, c), || {
            let mut local = vec![0u64; n];
            let size = (1u64 << 32) / chunks as u64;
            // the generator hands out one word, then refuses by an end marker that is always accepted: word 0
            for x in c as u64 * size..(c as u64 + 1) * size {
                let mut used = 0;
                let mut rng = WordRng {
                    next: || {
                        used += 1;
                        if used == 1 {
                            x as u32
                        } else {
                            0
                        }
                    },
                };
                let v = F::generate_random_member(&mut rng).as_uint();
                if v >= *p {
                    return Err(format!("generated member {} is not canonical", v));
                }
                if used == 1 {
                    local[v.to_usize().unwrap()] += 1;
                }
            }
            for (g, l) in counts.iter().zip(local) {
                g.fetch_add(l, std::sync::atomic::Ordering::Relaxed);
            }
            rep.add_transitions(size);
            Ok(())
        });
    });
    if rep.replay.is_none() && !rep.stopped() {
        rep.case(|| format!("{}|all words", name), || {
            let m: BTreeMap<u64, u64> = counts.iter().enumerate().map(|(i, c)| (i as u64, c.load(std::sync::atomic::Ordering::Relaxed))).filter(|x| x.1 > 0).collect();
            uniform(&m, n as u64)
        });
    }
}

pub fn c08(rep: &Report) {
    let mut jobs: Vec<Box<dyn Fn() + Sync + Send + '_>> = vec![];
    macro_rules! one {
        ($t:ty, $p:literal, $k:literal) => {
            jobs.push(Box::new(move || c08_exact::<$t>(rep, &stringify!($t).replace(" ", "").replace("$crate::fieldlist::", "").replace("crate::fieldlist::", "").replace("jester_maths::prime::", ""), &big($p, $k))));
            jobs.push(Box::new(move || c08_pairs::<$t>(rep, &stringify!($t).replace(" ", "").replace("$crate::fieldlist::", "").replace("crate::fieldlist::", "").replace("jester_maths::prime::", ""), &big($p, $k))));
        };
    }
    small_fields!(one);
    crate_small_fields!(one);
    macro_rules! mid {
        ($t:ty, $p:literal) => {
            jobs.push(Box::new(move || c08_exact::<$t>(rep, &stringify!($t).replace(" ", "").replace("$crate::fieldlist::", "").replace("crate::fieldlist::", "").replace("jester_maths::prime::", ""), &big($p, 10))));
        };
    }
    mid!(crate::fieldlist::F257, "257");
    mid!(crate::fieldlist::F65521, "65521");
    mid!(crate::fieldlist::F65537, "65537");
    mid!(crate::fieldlist::FB20m3, "1048573");
    mid!(jester_maths::prime::Mersenne13, "8191");
    mid!(jester_maths::prime::Mersenne17, "131071");
    mid!(jester_maths::prime::Mersenne19, "524287");
    macro_rules! lg {
        ($t:ty, $p:literal, $k:literal) => {
            jobs.push(Box::new(move || c08_large::<$t>(rep, &stringify!($t).replace(" ", "").replace("$crate::fieldlist::", "").replace("crate::fieldlist::", "").replace("jester_maths::prime::", ""), &big($p, $k))));
        };
    }
    medium_fields!(lg);
    crate_fields!(lg);
    ietf_fields!(lg);
    jobs.reverse();
    par_for(rep, jobs.len(), |i| jobs[i]());
    rep.bound("primes below 2^20 (64 fields): every value of the generator bits that a draw looks at (8-bit or prime-sized symbols repeated over the word), one rejection deep, and after up to 999 rejections in a row (fewer for larger alphabets; thorough: up to 65535); all pairs of draws for primes below 32");
    rep.bound("22 larger fields: 65536 scripts that take every value in every half word, all single bit flips of one script, extreme words in every position, the range covered evenly also after 1, 12, 99 and 300 rejected draws");
    if rep.thorough {
        c08_full::<crate::fieldlist::F5>(rep, "F5(2^32)", &BigUint::from(5u32));
        c08_full::<crate::fieldlist::F251>(rep, "F251(2^32)", &BigUint::from(251u32));
        rep.bound("all 2^32 values of the first word for p = 5 and p = 251");
    }
    rep.sample(|| "F5|every first word: 256 symbols, 160 accepted, each element 32 times".into());
    rep.assume("uniformity in fields above 2^20 is only checked through canonicity, coverage of the range and bit dependence");
}
