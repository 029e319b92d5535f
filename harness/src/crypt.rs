//! C09, C10: Diffie-Hellman and RSA.

use crate::engine::*;
use crate::fieldlist::*;
use crate::fields::Field;
use crate::util::*;
use crate::{crate_fields, ietf_fields, medium_fields};
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme as Dh;
use jester_encryption::rsa::{RSACryptoSystem, RSAPrivateKey, RSAPublicKey};
use jester_encryption::AsymmetricalEncryptionScheme;
use jester_maths::prime::*;
use num::{BigUint, One, ToPrimitive, Zero};

fn f<F: Field>(x: u64) -> F {
    F::from(BigUint::from(x))
}

fn u<F: Field>(x: &F) -> u64 {
    x.as_uint().to_u64().unwrap_or(u64::MAX)
}

fn permutations(items: &[usize]) -> Vec<Vec<usize>> {
    if items.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

fn dh_small<F: Field>(rep: &Report, p: u64, generation: bool) {
    // key generation: every generator, every first random byte
    let name = format!("F{}", p);
    par_for(rep, p as usize, |g| {
        let g = g as u64;
        if generation {
            for s in 0..256u32 {
                rep.case(|| format!("{}|g={}|random byte={}", name, g, s), || {
                    let mut words = vec![s << 24 | s << 16 | s << 8 | s];
                    words.extend([0x0100_0000u32; 4]);
                    let mut rng = list_rng(&words);
                    let (a, big_a) = F::generate_asymmetrical_key_pair(&mut rng, &f(g));
                    let e = u(&a);
                    if e >= p {
                        return Err(format!("private key {} is out of range", e));
                    }
                    if u(&big_a) != powmod(g, e, p) {
                        return Err(format!("public key for private key {} is {} instead of {}", e, u(&big_a), powmod(g, e, p)));
                    }
                    Ok(())
                });
            }
            rep.add_states(p);
            rep.add_transitions(256);
        }
        for a in 0..p {
            let big_a = f::<F>(powmod(g, a, p));
            for b in 0..p {
                let big_b = f::<F>(powmod(g, b, p));
                rep.case(|| format!("{}|g={}|a={}|b={}", name, g, a, b), || {
                    let x = u(&F::generate_shared_secret(&f(a), &big_b));
                    let y = u(&F::generate_shared_secret(&f(b), &big_a));
                    let want = powmod(g, a * b, p);
                    if x != want || y != want {
                        return Err(format!("the secrets are {} and {} instead of {}", x, y, want));
                    }
                    Ok(())
                });
            }
        }
        rep.add_states(p * p);
        rep.add_transitions(2 * p * p);
    });
}

/// More parties: every order in which an intermediate key visits all of them.
fn dh_multi<F: Field>(rep: &Report, p: u64, parties: usize) {
    let orders = permutations(&(0..parties).collect::<Vec<_>>());
    let total = p.pow(parties as u32) as usize;
    par_for(rep, p as usize * total, |i| {
        let g = (i / total) as u64;
        let mut x = (i % total) as u64;
        let keys: Vec<u64> = (0..parties)
            .map(|_| {
                let k = x % p;
                x /= p;
                k
            })
            .collect();
        let want = powmod(g, keys.iter().product(), p);
        for o in &orders {
            rep.case(|| format!("F{}|g={}|keys={}|order={}", p, g, join(&keys), join(o)), || {
                // the first party publishes g^k, the following ones raise it, the last one keeps the secret
                let mut cur = f::<F>(powmod(g, keys[o[0]], p));
                for &q in &o[1..] {
                    cur = F::generate_shared_secret(&f(keys[q]), &cur);
                }
                if u(&cur) != want {
                    return Err(format!("the common secret is {} instead of {}", u(&cur), want));
                }
                Ok(())
            });
        }
        rep.add_states(orders.len() as u64);
        rep.add_transitions((orders.len() * parties) as u64);
    });
}

fn dh_large<F: Field>(rep: &Report, name: &str, p: &BigUint, gens: &[BigUint]) {
    let huge = p.bits() > 200;
    let mut v = boundary_values(p, if huge { 512 } else { 16 });
    if huge {
        let keep = if rep.thorough { 6 } else { v.len() / 4 };
        v = v.iter().step_by(keep.max(1)).cloned().collect();
        v.push(p - BigUint::one());
    } else if !rep.thorough {
        v = v.iter().step_by(3).cloned().collect();
        v.push(p - BigUint::one());
    }
    let order = p - BigUint::one();
    for g in gens {
        par_for(rep, v.len(), |i| {
            let a = &v[i];
            let big_a = big_powmod(g, a, p);
            for b in &v {
                rep.case(|| format!("{}|g={:x}|a={:x}|b={:x}", name, g, a, b), || {
                    let big_b = big_powmod(g, b, p);
                    let x = F::generate_shared_secret(&F::from(a.clone()), &F::from(big_b)).as_uint();
                    let y = F::generate_shared_secret(&F::from(b.clone()), &F::from(big_a.clone())).as_uint();
                    let mut e = a * b;
                    if e > order {
                        e = e % &order + &order;
                    }
                    let want = big_powmod(g, &e, p);
                    if x != want || y != want {
                        return Err(format!("the secrets are {:x} and {:x} instead of {:x}", x, y, want));
                    }
                    Ok(())
                });
            }
            rep.add_states(v.len() as u64);
            rep.add_transitions(2 * v.len() as u64);
        });
        // generated key pairs
        for seed in 0..(if huge { 2 } else { 8 }) {
            rep.case(|| format!("{}|g={:x}|generated pair {}", name, g, seed), || {
                let mut rng = MixRng(seed + 100);
                let (a, big_a) = F::generate_asymmetrical_key_pair(&mut rng, &F::from(g.clone()));
                let (b, big_b) = F::generate_asymmetrical_key_pair(&mut rng, &F::from(g.clone()));
                if a == b && p.bits() > 100 {
                    return Err("two generated private keys are equal".into());
                }
                for (k, pk) in [(&a, &big_a), (&b, &big_b)] {
                    if pk.as_uint() != big_powmod(g, &k.as_uint(), p) {
                        return Err("the public key is not the generator raised to the private key".into());
                    }
                }
                if F::generate_shared_secret(&a, &big_b) != F::generate_shared_secret(&b, &big_a) {
                    return Err("the secrets differ".into());
                }
                Ok(())
            });
        }
    }
}

pub fn c09(rep: &Report) {
    macro_rules! small {
        ($($t:ident $p:literal),*) => { $( dh_small::<$t>(rep, $p, true); )* };
    }
    small!(F2 2, F3 3, F5 5, F7 7, F11 11, F13 13, F17 17, F19 19, F23 23, F29 29, F31 31, F37 37, F41 41, F43 43, F47 47, F53 53);
    rep.bound("primes 2..=53 (16 fields): every generator, every pair of private keys, every random byte for key generation");
    if rep.thorough {
        dh_small::<F101>(rep, 101, true);
        dh_small::<F127>(rep, 127, true);
        rep.bound("primes 101 and 127 completely");
    }
    dh_multi::<F2>(rep, 2, 3);
    dh_multi::<F3>(rep, 3, 3);
    dh_multi::<F5>(rep, 5, 3);
    dh_multi::<F7>(rep, 7, 3);
    dh_multi::<F13>(rep, 13, 3);
    dh_multi::<F3>(rep, 3, 4);
    dh_multi::<F5>(rep, 5, 4);
    dh_multi::<F7>(rep, 7, 4);
    if rep.thorough {
        dh_multi::<F23>(rep, 23, 3);
        dh_multi::<F11>(rep, 11, 4);
        dh_multi::<F5>(rep, 5, 5);
    }
    rep.bound("3 parties (p up to 13; thorough 23) and 4 parties (p up to 7; thorough 11): all generators, keys and visiting orders");
    macro_rules! lg {
        ($t:ty, $p:literal, $k:literal) => {
            dh_large::<$t>(rep, &stringify!($t).replace(" ", ""), &big($p, $k), &[BigUint::from(3u32), BigUint::from(2u32)]);
        };
    }
    medium_fields!(lg);
    crate_fields!(lg);
    ietf_fields!(lg);
    rep.bound("boundary private keys in 22 larger fields, including the IETF groups");
    rep.sample(|| "F13|g=2|keys=5,7,11|order=2,0,1: one common secret 2^(5*7*11) mod 13".into());
    rep.assume("num-bigint arithmetic on plain integers");
}

// ------------------------------------------------------------------------------------------------------------------

fn lambda(primes: &[u64]) -> u64 {
    primes.iter().fold(1, |l, p| l / gcd(l, p - 1) * (p - 1))
}

fn le(x: u64, pad: usize) -> Vec<u8> {
    let mut v = BigUint::from(x).to_bytes_le();
    v.resize(v.len() + pad, 0);
    v
}

fn rsa_pair<F: Field>(rep: &Report, name: &str, n: u64, e: u64, d: u64, messages: &[u64]) {
    let public = RSAPublicKey { e: f::<F>(e), n: f::<F>(n) };
    let private = RSAPrivateKey { d: f::<F>(d), n: f::<F>(n) };
    for &m in messages {
        rep.case(|| format!("{}|n={}|e={}|d={}|m={}", name, n, e, d, m), || {
            let c = RSACryptoSystem::<F>::encrypt_message(&public, &le(m, 0));
            let want = powmod(m, e, n);
            if BigUint::from_bytes_le(&c) != BigUint::from(want) {
                return Err(format!("ciphertext {:02x?} is not {} in little endian", c, want));
            }
            let back = RSACryptoSystem::<F>::decrypt_message(&private, &c);
            if BigUint::from_bytes_le(&back) != BigUint::from(m) {
                return Err(format!("decrypted to {:02x?}", back));
            }
            // trailing zero bytes do not change a little endian integer
            let c2 = RSACryptoSystem::<F>::encrypt_message(&public, &le(m, 2));
            let back2 = RSACryptoSystem::<F>::decrypt_message(&private, &le(want, 1));
            if BigUint::from_bytes_le(&c2) != BigUint::from(want) || BigUint::from_bytes_le(&back2) != BigUint::from(m) {
                return Err("padding with zero bytes changes the result".into());
            }
            Ok(())
        });
    }
    rep.add_states(messages.len() as u64);
    rep.add_transitions(4 * messages.len() as u64);
}

fn factor(mut n: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut p = 2;
    while p * p <= n {
        while n % p == 0 {
            v.push(p);
            n /= p;
        }
        p += 1;
    }
    if n > 1 {
        v.push(n)
    }
    v
}

/// Every squarefree modulus below the prime with at least two prime factors, every key pair.
fn rsa_all<F: Field>(rep: &Report, name: &str, p: u64, moduli: &[u64], all_d: bool) {
    par_for(rep, moduli.len(), |i| {
        let n = moduli[i];
        let l = lambda(&factor(n));
        let phi: u64 = factor(n).iter().map(|q| q - 1).product();
        let messages: Vec<u64> = (0..n).collect();
        for e in 1..=phi.min(p - 1) {
            if gcd(e, l) != 1 || (!all_d && e > 40 && e % 17 != 0) {
                continue;
            }
            let mut ds: Vec<u64> = (1..p).filter(|d| e * d % l == 1 % l).collect();
            if !all_d && ds.len() > 2 {
                ds = vec![ds[0], *ds.last().unwrap()];
            }
            for d in ds {
                rsa_pair::<F>(rep, name, n, e, d, &messages);
            }
        }
    });
}

fn rsa_big<F: Field>(rep: &Report, name: &str, p: &BigUint, n: &BigUint, e: &BigUint, d: &BigUint, q: &BigUint) {
    let one = BigUint::one();
    let mut ms = boundary_values(n, if n.bits() > 200 { 256 } else { 16 });
    ms.push(q.clone());
    ms.push(n - q);
    if n.bits() > 200 && !rep.thorough {
        let k = (ms.len() / 12).max(1);
        ms = ms.iter().step_by(k).cloned().collect();
        ms.push(n - &one);
    }
    let el = |x: &BigUint| F::from(x.clone());
    par_for(rep, ms.len(), |i| {
        let m = &ms[i];
        for (what, e, d) in [("e,d", e, d), ("d,e", d, e)] {
            rep.case(|| format!("{}|{}|m={:x}", name, what, m), || {
                let c = RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey { e: el(e), n: el(n) }, &m.to_bytes_le());
                if BigUint::from_bytes_le(&c) != big_powmod(m, e, n) {
                    return Err("the ciphertext is not m^e mod n".into());
                }
                let b = RSACryptoSystem::<F>::decrypt_message(&RSAPrivateKey { d: el(d), n: el(n) }, &c);
                if BigUint::from_bytes_le(&b) != *m {
                    return Err("decryption does not give the message".into());
                }
                Ok(())
            });
        }
        rep.add_states(1);
        rep.add_transitions(4);
    });
    for over in [p.clone(), p + &one, p * 2u32, (p + &one) * 256u32, &one << p.bits(), (&one << (p.bits() + 9)) + &one] {
        rep.case(|| format!("{}|oversize={:x}", name, over), || {
            let b = over.to_bytes_le();
            if !refuses(|| RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey { e: el(e), n: el(n) }, &b)) {
                return Err("an oversize message is encrypted".into());
            }
            if !refuses(|| RSACryptoSystem::<F>::decrypt_message(&RSAPrivateKey { d: el(d), n: el(n) }, &b)) {
                return Err("an oversize ciphertext is decrypted".into());
            }
            Ok(())
        });
    }
}

fn oversize_all<F: Field>(rep: &Report, name: &str, p: u64, n: u64, e: u64, d: u64) {
    let public = RSAPublicKey { e: f::<F>(e), n: f::<F>(n) };
    let private = RSAPrivateKey { d: f::<F>(d), n: f::<F>(n) };
    for x in p..65536 {
        rep.case(|| format!("{}|oversize={}", name, x), || {
            let b = le(x, 0);
            if !refuses(|| RSACryptoSystem::<F>::encrypt_message(&public, &b)) {
                return Err("an oversize message is encrypted".into());
            }
            if !refuses(|| RSACryptoSystem::<F>::decrypt_message(&private, &b)) {
                return Err("an oversize ciphertext is decrypted".into());
            }
            Ok(())
        });
    }
    for hi in 1..=255u64 {
        for shift in [16, 24, 32, 56] {
            rep.case(|| format!("{}|oversize={}<<{}", name, hi, shift), || {
                let b = (BigUint::from(hi) << shift).to_bytes_le();
                if !refuses(|| RSACryptoSystem::<F>::encrypt_message(&public, &b)) || !refuses(|| RSACryptoSystem::<F>::decrypt_message(&private, &b)) {
                    return Err("an oversize input is processed".into());
                }
                Ok(())
            });
        }
    }
    rep.add_states(65536 - p + 1020);
    rep.add_transitions(2 * (65536 - p + 1020));
}

pub fn c10(rep: &Report) {
    let squarefree = |below: u64| -> Vec<u64> {
        (6..below)
            .filter(|n| {
                let fs = factor(*n);
                fs.len() >= 2 && fs.windows(2).all(|w| w[0] != w[1])
            })
            .collect()
    };
    let ms = squarefree(if rep.thorough { 257 } else { 131 });
    rsa_all::<F257>(rep, "F257", 257, &ms, false);
    rep.bound(format!("field of 257 elements: {} squarefree moduli below {}, public exponents (all up to 40, then every 17th), all messages", ms.len(), if rep.thorough { 257 } else { 131 }));
    let ms = squarefree(53);
    rsa_all::<F53>(rep, "F53", 53, &ms, true);
    rep.bound("field of 53 elements: every squarefree modulus, every key pair (e, d), every message");
    let two = if rep.thorough { vec![65519, 65521 - 4, 323 * 5, 10403, 46 * 1409, 641 * 101] } else { vec![10403, 641 * 101] };
    for n in two {
        if factor(n).windows(2).any(|w| w[0] == w[1]) || factor(n).len() < 2 {
            continue;
        }
        let l = lambda(&factor(n));
        let e = (3..).find(|e| gcd(*e, l) == 1).unwrap();
        let d = (1..).find(|d| e * d % l == 1).unwrap();
        let messages: Vec<u64> = (0..n).collect();
        let chunks: Vec<&[u64]> = messages.chunks(512).collect();
        par_for(rep, chunks.len(), |i| rsa_pair::<F65537>(rep, "F65537", n, e, d, chunks[i]));
        par_for(rep, chunks.len(), |i| rsa_pair::<F65537>(rep, "F65537", n, d, e, chunks[i]));
    }
    rep.bound("field of 65537 elements: two-byte moduli 10403 and 64741 (thorough: more), both exponent orders, every message");
    oversize_all::<F257>(rep, "F257", 257, 187, 3, 107);
    oversize_all::<F251>(rep, "F251", 251, 187, 3, 107);
    oversize_all::<F53>(rep, "F53", 53, 33, 3, 7);
    rep.bound("every oversize input of up to two bytes (and 1020 longer ones) is refused, three fields");
    macro_rules! bigkey {
        ($t:ident, $n:literal, $e:literal, $d:literal, $q:literal) => {
            rsa_big::<$t>(rep, stringify!($t), &$t::field_prime().as_uint(), &big($n, 16), &big($e, 16), &big($d, 16), &big($q, 16));
        };
    }
    bigkey!(Mersenne61, "5ff52afa1efa81b", "10001", "732503710fb7d", "2f797027");
    bigkey!(Mersenne127, "3a129b6d31d1b0259fcfcf3c80b28bb3", "10001", "c721f70640c720931f0293465da082d", "7decf450ff297d0f");
    bigkey!(IetfGroup1, "ca6024e91777678342eb50c330ef3cb2a67b2afbba188734530c518b01a4a7697eb03406402f94e884cc7b10ad2a3f90658283e40e825959da5eed28b6bfe9a33e53857585b6c4cbf89948babd38a7a7896b8221dc8135bbe791c25cd9b0d24bdff56374d342315326a7791fcfbbe0332ee74342edcff53a56b1e64c9e7b287", "10001", "80dab6a5b34b539d3ffe946db3ba9feb20154c48fb34a2e1adff29ec581f7e78ad3183ee76efd4e037adfaada39442e4adbd6c3cc90035e4002670da7b81b63cb304920a2f0693d15826511a43f4e0bf7c9681df7b3081a6936b3959b76c1a13658e339dfc4ae8bd82e5214a4be49ee2d8656ff7fb90a70a41f92a0851ba1", "389124a5e4fcd85f1d4c52b3f411c933c5975fa82a8093606435b7866384d4c1df1ba03bba91dd8a3001154f4ccd429c0ed736646dbd6e6c08948f7c00d7ded7");
    bigkey!(IetfGroup3, "66f5355ebb5f566fc3150930ab4ebff68d9292d13be848d6970b0665606958aeeea9e53b15cc9a3b430e3b84380990b1b34d5c2d036aef982cf8fa6e97920049b50e78ab3e6515ebb211c3d48d9cb5bcb409c7fc1180371d75d9bbc0d6c9bfd6ede651fbfd02da52fcff8add34f0a0f1ee2b47bba788a1cc5548d07863fc32229a4959f2d9c99e8b0824c0ebe93da1545ba8c8471c0417d4fd00494124f63f2d55731bf32e11ce4bc3feefc67e320ce472927aeedd5887c77c3338e85f2f7b6b9a8afae1e530562ac3407f551a8fb7222b42e74a24098d42aaf1c06245d400bed3d18b23a2c5aa1abd25f0c5313dddc62418d643e927cef418c9646ddd12f9", "10001", "12b3777e3d8a93a8b94698e4be390fa53911e6991ac8967263fd1cac4d56d544f114eb0e5067599c6a11abbdd86fe45862b92a850299e9eb3a3fff3d174aedc275a0ab4a6f8aecf062e7d72a448eb274143fb293969a3368a67f661b20e8847005c6501df5570f5103a36715c707ee34038ed8f8bcf5946e090fb0ce2d5b21bc71a0a7df89ec17f1984408bf7f97d26db18d1d06201d19f788d55342289d195f4651dff7385f11bb214a60c9a61386dc60b6ee81e9fafa6a9d86e648069439c9765272c45fc73a57973107b926c296069508530cab5ae5eafdcb50c15d56aafd078a378bae716875d0bcdafd9aa0351acea02c7e4788b26574c8746b3601", "b5bb00e411e92aaac4fce88a4236f4c42ed20b240f7e1814c8780706937ae644bd024aa159dc5df774b25f8a721ce3c5929c0dce9ba482cf04e9fc393f10a68546d69a3effffd203b260366c27d7802c3403ec67f844f99c7a4eaa8c615b32ef8300c7482c55adfaf8b81d1f5fb434b1cc93eeab2d6268e74fcea07a27fba79");
    rep.bound("keys of 60, 126, 1020 and 2040 bits: boundary messages, both exponent orders, oversize inputs");
    rep.case(|| "empty message".into(), || {
        let c = RSACryptoSystem::<F257>::encrypt_message(&RSAPublicKey { e: f(3), n: f(187) }, &[]);
        if BigUint::from_bytes_le(&c).is_zero() {
            Ok(())
        } else {
            Err("the empty message (value 0) is not encrypted to 0".into())
        }
    });
    rep.sample(|| "F257|n=187|e=3|d=107|m=186: ciphertext 186^3 mod 187, decrypted to 186".into());
    rep.assume("num-bigint arithmetic on plain integers");
}
