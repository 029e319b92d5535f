//! C15 - C17: Shamir secret sharing.

use crate::engine::*;
use crate::fieldlist::*;
use crate::fields::Field;
use crate::util::*;
use jester_maths::prime::*;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::{LinearSharingScheme, ThresholdSecretSharingScheme};
use num::{BigUint, ToPrimitive};
use std::collections::BTreeMap;

pub struct Plain;
impl<F: PrimeField> ShamirSecretSharingScheme<F> for Plain {}

type Share<F> = (usize, F);

fn bits(p: u32) -> u32 {
    32 - p.leading_zeros()
}

pub fn el<F: Field>(v: u64) -> F {
    F::from(BigUint::from(v))
}

pub fn val<F: Field>(x: &F) -> u64 {
    x.as_uint().to_u64().unwrap()
}

/// Every field element drawn is a choice of the explorer.
pub fn chosen_rng(p: u32, ch: &mut Choices, limit: usize) -> WordRng<impl FnMut() -> u32 + '_> {
    let shift = 32 - bits(p);
    let mut drawn = 0;
    WordRng {
        next: move || {
            drawn += 1;
            if drawn > limit {
                panic!("{}", EXHAUSTED);
            }
            ch.pick(p) << shift
        },
    }
}

/// Shares for every choice of random elements; executions that draw many more elements than coefficients are cut off.
fn generate<F: Field>(ch: &mut Choices, secret: &F, n: usize, t: usize, p: u32) -> Result<Option<Vec<Share<F>>>, String> {
    match guarded(|| Plain::generate_shares(&mut chosen_rng(p, ch, t + 2), secret, n, t)) {
        Ok(s) => numbered(&s, n).map(|_| Some(s)),
        Err(e) if e.contains(EXHAUSTED) => Ok(None),
        Err(e) => Err(e),
    }
}

fn inv(a: u64, p: u64) -> u64 {
    powmod(a, p - 2, p)
}

/// Weights w with f(0) = sum of w_i f(x_i).
pub fn weights(xs: &[u64], p: u64) -> Vec<u64> {
    xs.iter()
        .map(|i| {
            xs.iter().filter(|j| *j != i).fold(1, |acc, j| acc * ((p - j) % p) % p * inv((p + i - j) % p, p) % p)
        })
        .collect()
}

pub fn interpolate(shares: &[(u64, u64)], p: u64) -> u64 {
    let xs: Vec<u64> = shares.iter().map(|s| s.0).collect();
    weights(&xs, p).iter().zip(shares).fold(0, |a, (w, s)| (a + w * s.1) % p)
}

/// All subsets of 0..n with at least `min` elements.
pub fn subsets(n: usize, min: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n).filter(|m| m.count_ones() as usize >= min).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

fn permutations(v: &[usize]) -> Vec<Vec<usize>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut q in permutations(&rest) {
            q.insert(0, x);
            out.push(q);
        }
    }
    out
}

fn numbered<F: Field>(shares: &[Share<F>], n: usize) -> Result<(), String> {
    let mut xs: Vec<usize> = shares.iter().map(|s| s.0).collect();
    xs.sort_unstable();
    if xs != (1..=n).collect::<Vec<_>>() {
        return Err(format!("{} shares were requested but the shares are numbered {:?}", n, xs));
    }
    Ok(())
}

fn reconstructs<F: Field>(shares: &[Share<F>], order: &[usize], t: usize, secret: &F) -> Result<(), String> {
    let sel: Vec<Share<F>> = order.iter().map(|i| shares[*i].clone()).collect();
    let got = guarded(|| Plain::reconstruct_secret(&sel, t))
        .map_err(|e| format!("reconstruction from shares {:?} fails: {}", sel.iter().map(|s| s.0).collect::<Vec<_>>(), e))?;
    if got != *secret {
        return Err(format!(
            "shares {:?} reconstruct {} instead of the secret {}",
            sel.iter().map(|s| s.0).collect::<Vec<_>>(),
            got.as_uint(),
            secret.as_uint()
        ));
    }
    Ok(())
}

/// All secrets and coefficients, all selections of at least t shares, optionally in every order.
fn c15_small<F: Field>(rep: &Report, name: &str, p: u32, n: usize, t: usize, orders: bool) {
    let mut sel: Vec<Vec<usize>> = vec![];
    for s in subsets(n, t) {
        if orders {
            sel.extend(permutations(&s));
        } else {
            let mut r = s.clone();
            r.reverse();
            sel.push(s);
            sel.push(r);
        }
    }
    rep.explore(&format!("{} n={} t={}", name, n, t), 0, threads(), |ch, _: &mut ()| {
        let s = ch.pick(p);
        let secret: F = el(s as u64);
        let shares = match generate(ch, &secret, n, t, p)? {
            Some(s) => s,
            None => return Ok(()),
        };
        for o in &sel {
            reconstructs(&shares, o, t, &secret)?;
        }
        rep.add_transitions(sel.len() as u64);
        Ok(())
    });
}

/// Large fields: patterns of randomness and secrets, windows, all shares, both directions.
fn c15_wide<F: Field>(rep: &Report, name: &str, max_n: usize, more: &[(usize, usize)], thorough: bool) {
    let p = F::field_prime().as_uint();
    let mut cases = vec![];
    let mut ns = vec![2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 20, 31, 32, 33, 40, 63, 64, 65, 100, 128, 129, 200, 255, 256];
    ns.retain(|n| *n <= max_n);
    for n in ns {
        let mut ts: Vec<usize> = vec![2, 3, 4, 5, 8, 9, 12, 16, 17, 20, 32, 33, 64, 65, 100, 128, 129, n / 2, n.saturating_sub(1), n];
        ts.retain(|t| *t >= 2 && *t <= n && (thorough || n * t * t <= 2_200_000 || n == *t));
        ts.sort_unstable();
        ts.dedup();
        for t in ts {
            for pattern in 0..4u32 {
                cases.push((n, t, pattern));
            }
        }
    }
    for &(n, t) in more {
        cases.push((n, t, 0u32));
    }
    cases.reverse();
    par_for(rep, cases.len(), |i| {
        let (n, t, pattern) = cases[i];
        rep.case_limit(
            300,
            || format!("{} n={} t={} pattern={}", name, n, t, pattern),
            || {
                let mut rng = MixRng(n as u64 * 1000 + t as u64);
                let mut k = 0u32;
                let mut words = WordRng {
                    next: move || {
                        k += 1;
                        match pattern {
                            0 => rng.next() as u32,
                            1 => 0,
                            // the largest words, broken often enough to stay below the prime
                            2 => if k % 3 == 0 { 0x7fff_fffe } else { u32::MAX >> (k % 2) },
                            _ => if k % 2 == 0 { 1 << (k % 32) } else { rng.next() as u32 >> 8 },
                        }
                    },
                };
                let secrets = [BigUint::from(0u32), BigUint::from(1u32), &p - 1u32, &p / 3u32 + 5u32];
                let secret = F::from(secrets[pattern as usize].clone());
                let shares = Plain::generate_shares(&mut words, &secret, n, t);
                numbered(&shares, n)?;
                let all: Vec<usize> = (0..n).collect();
                let mut sels = vec![all.clone(), all.iter().rev().cloned().collect()];
                let starts = [0, (n - t) / 2, n - t];
                for s in starts {
                    sels.push((s..s + t).collect());
                    sels.push((s..s + t).rev().collect());
                    if s + t < n {
                        sels.push((s..s + t + 1).collect());
                    }
                }
                // spread out, and rotated
                sels.push((0..t).map(|i| i * n / t).collect());
                sels.push((0..n).map(|i| (i + n / 2) % n).collect());
                sels.sort();
                sels.dedup();
                for s in &sels {
                    reconstructs(&shares, s, t, &secret)?;
                }
                rep.add_transitions(sels.len() as u64);
                rep.add_states(1);
                Ok(())
            },
        );
    });
}

/// Very many shares, small thresholds.
fn c15_many<F: Field>(rep: &Report, name: &str, ns: &[usize]) {
    let p = F::field_prime().as_uint();
    let mut cases = vec![];
    for &n in ns {
        for t in [2, 3, 7] {
            for pattern in 0..2 {
                cases.push((n, t, pattern));
            }
        }
    }
    cases.reverse();
    par_for(rep, cases.len(), |i| {
        let (n, t, pattern) = cases[i];
        rep.case_limit(
            120,
            || format!("{} many n={} t={} pattern={}", name, n, t, pattern),
            || {
                let mut rng = MixRng((n * 100 + t) as u64 + pattern);
                let mut words = WordRng { next: move || rng.next() as u32 >> 2 };
                let secret = F::from(if pattern == 0 { BigUint::from(3u32) } else { &p - 1u32 });
                let shares = Plain::generate_shares(&mut words, &secret, n, t);
                numbered(&shares, n)?;
                let mut sels: Vec<Vec<usize>> = vec![(0..t).collect(), (n - t..n).collect(), (n - t..n).rev().collect()];
                sels.push((0..t).map(|i| i * (n - 1) / (t - 1)).collect());
                sels.push((0..40).map(|i| (i * 7 + n / 2) % n).collect::<std::collections::BTreeSet<_>>().into_iter().collect());
                // each power of two with its neighbours
                let near: std::collections::BTreeSet<usize> =
                    (1..20).flat_map(|k| [(1usize << k) - 2, (1 << k) - 1, 1 << k]).filter(|i| *i < n).collect();
                let near: Vec<usize> = near.into_iter().collect();
                sels.extend(near.windows(t).map(|w| w.to_vec()));
                if n <= 1100 {
                    sels.push((0..n).collect());
                }
                for s in &sels {
                    if s.len() >= t {
                        reconstructs(&shares, s, t, &secret)?;
                    }
                }
                rep.add_transitions(sels.len() as u64);
                rep.add_states(1);
                Ok(())
            },
        );
    });
}

pub fn c15(rep: &Report) {
    let t = rep.thorough;
    // complete: all secrets, coefficients, selections and orders
    c15_small::<F3>(rep, "F3", 3, 2, 2, true);
    for n in 2..=4 {
        for k in 2..=n {
            c15_small::<F5>(rep, "F5", 5, n, k, true);
            c15_small::<F7>(rep, "F7", 7, n, k, n < 4 || k < 4 || t);
        }
    }
    for n in 5..=6 {
        for k in 2..=n {
            if k <= 4 || t {
                c15_small::<F7>(rep, "F7", 7, n, k, k <= 2 && (n == 5 || t));
            }
        }
    }
    for (n, k) in [(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (5, 3), (7, 3), (10, 2)] {
        c15_small::<F11>(rep, "F11", 11, n, k, n <= 3);
        if k == 2 || t {
            c15_small::<F13>(rep, "F13", 13, n, k, n <= 3);
        }
    }
    c15_small::<F13>(rep, "F13", 13, 12, 2, false);
    c15_small::<F17>(rep, "F17", 17, 4, 2, true);
    c15_small::<F31>(rep, "F31", 31, 3, 2, true);
    c15_small::<Mersenne3>(rep, "Mersenne3", 7, 4, 3, true);
    rep.bound("fields of 3 to 31 elements: every secret, every coefficient choice, every selection of at least t shares (every order up to 4 shares)");
    c15_wide::<F257>(rep, "F257", 256, &[], t);
    c15_wide::<FB20m3>(rep, "2^20-3", 128, &[(257, 257), (258, 257), (300, 299), (513, 513)][..if t { 4 } else { 3 }], t);
    c15_wide::<Mersenne31>(rep, "Mersenne31", 65, &[], t);
    c15_wide::<Mersenne61>(rep, "Mersenne61", 65, &[(260, 258)], t);
    c15_wide::<FB64p13>(rep, "2^64+13", 40, &[], t);
    c15_wide::<Mersenne127>(rep, "Mersenne127", if t { 128 } else { 33 }, &[], t);
    rep.bound("large fields: up to 256 shares and thresholds up to 256, and 257 to 300 (thorough: 513) shares with thresholds 257, 258 and 299 (513), four patterns of secrets and randomness, windows, spread-out, reversed, rotated and complete selections");
    let mut ns = vec![300, 511, 512, 513, 1000, 1023, 1024, 1025];
    c15_many::<FB20m3>(rep, "2^20-3", &ns);
    ns.extend([2047, 2049, 4095, 4097, 65_535, 65_537]);
    c15_many::<Mersenne61>(rep, "Mersenne61", &ns);
    rep.bound("many shares: up to 65537 with thresholds 2, 3 and 7, selections around every power of two, all of up to 1025 shares");
    rep.assume("shares are numbered 1..n below the prime and the threshold is at least two");
    rep.sample(|| "F7 n=4 t=3: secret 5, coefficients 2 and 6, shares 4,1,2 in this order".into());
}

/// All non-empty sets of at most `most` participants.
pub fn coalitions(n: usize, most: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..most {
        let to = out.len();
        for i in from..to {
            let start = out[i].last().map_or(0, |x| x + 1);
            for x in start..n {
                let mut c = out[i].clone();
                c.push(x);
                out.push(c);
            }
        }
        from = to;
    }
    out.retain(|c| !c.is_empty());
    out
}

fn c16_one<F: Field>(rep: &Report, name: &str, p: u32, n: usize, t: usize) {
    let coalitions = coalitions(n, t - 1);
    let mut reference: Option<Vec<BTreeMap<Vec<u64>, u128>>> = None;
    for s in 0..p {
        let scenario = format!("{} n={} t={} secret={}", name, n, t, s);
        let accs = rep.explore(&scenario, 0, threads(), |ch, acc: &mut Vec<BTreeMap<(u32, Vec<u64>), u128>>| {
            if acc.is_empty() {
                acc.resize(coalitions.len(), BTreeMap::new());
            }
            let secret: F = el(s as u64);
            let mut shares = match generate(ch, &secret, n, t, p)? {
                Some(s) => s,
                None => return Ok(()),
            };
            shares.sort_by_key(|x| x.0);
            let draws = ch.trace.len() as u32;
            for (c, co) in coalitions.iter().enumerate() {
                let view: Vec<u64> = co.iter().map(|i| val(&shares[*i].1)).collect();
                *acc[c].entry((draws, view)).or_insert(0) += 1;
            }
            Ok(())
        });
        if rep.violated() || rep.stopped() || rep.replay.is_some() {
            // distributions need the complete tree: a replay of one execution judges only that execution
            if !rep.replay.as_ref().map_or(false, |r| r.starts_with(&format!("{} n={} t={}", name, n, t))) {
                continue;
            }
        }
        let most = accs.iter().flatten().flat_map(|m| m.keys()).map(|k| k.0).max().unwrap_or(0);
        let mut dist = vec![BTreeMap::new(); coalitions.len()];
        for a in accs {
            for (c, m) in a.into_iter().enumerate() {
                for ((draws, view), k) in m {
                    // every execution of d draws has probability p^-d
                    *dist[c].entry(view).or_insert(0u128) += k * (p as u128).pow(most - draws);
                }
            }
        }
        if rep.replay.is_some() {
            continue;
        }
        for (c, d) in dist.iter().enumerate() {
            rep.add_states(d.len() as u64);
            let co = &coalitions[c];
            let full = (p as usize).pow(co.len() as u32);
            let uniform = d.len() == full && d.values().all(|k| k == d.values().next().unwrap());
            if !uniform {
                rep.fail(
                    format!("{} coalition={:?}", scenario, co),
                    format!("the shares of this coalition take {} of {} values or are not equally likely: they depend on the secret", d.len(), full),
                );
            }
        }
        match &reference {
            None => reference = Some(dist),
            Some(r) => {
                for c in 0..coalitions.len() {
                    let (a, b): (u128, u128) = (r[c].values().sum(), dist[c].values().sum());
                    // equal up to scaling
                    let same = r[c].len() == dist[c].len() && r[c].iter().all(|(v, k)| dist[c].get(v).map_or(false, |l| k * b == l * a));
                    if !same {
                        rep.fail(
                            format!("{} coalition={:?}", scenario, coalitions[c]),
                            "the distribution of this coalition's shares differs from the one for another secret".into(),
                        );
                    }
                }
            }
        }
    }
}

fn rank(mut rows: Vec<Vec<u64>>, p: u64) -> usize {
    let cols = rows.first().map_or(0, |r| r.len());
    let mut rank = 0;
    for c in 0..cols {
        let pivot = match (rank..rows.len()).find(|r| rows[*r][c] != 0) {
            Some(r) => r,
            None => continue,
        };
        rows.swap(rank, pivot);
        let scale = powmod(rows[rank][c], p - 2, p) as u128;
        let top = rows[rank].clone();
        for row in rows.iter_mut().skip(rank + 1) {
            let f = row[c] as u128 * scale % p as u128;
            if f != 0 {
                for (x, y) in row.iter_mut().zip(&top).skip(c) {
                    *x = ((*x as u128 + (p as u128 - f) * *y as u128) % p as u128) as u64;
                }
            }
        }
        rank += 1;
    }
    rank
}

/// Thresholds and fields beyond the complete trees: the shares are computed for a base assignment of the drawn elements and for
/// every deviation of one or two of them. Where all of these agree with an affine map, the shares of a coalition are uniform for
/// every secret exactly if the map onto them has full rank; where they do not, the setting is not judged here.
fn c16_rank<F: Field>(rep: &Report, name: &str, settings: &[(usize, usize)]) {
    let p = F::field_prime().as_uint().to_u64().unwrap();
    let nbits = 64 - p.leading_zeros();
    let (words, shift) = if nbits <= 32 { (1usize, 32 - nbits) } else { (2, 64 - nbits) };
    par_for(rep, settings.len(), |i| {
        let (n, t) = settings[i];
        rep.case_limit(
            300,
            || format!("{} rank n={} t={}", name, n, t),
            || {
                // element d of the base, plus the deviations
                let run = |base: u64, secret: u64, dev: &[(usize, u64)]| -> Result<(Vec<u64>, usize), String> {
                    let mut mix = MixRng(base * 7919 + t as u64);
                    let mut drawn = 0usize;
                    let mut value = 0u64;
                    let shares = {
                        let mut rng = WordRng {
                            next: || {
                                let (d, part) = (drawn / words, drawn % words);
                                if part == 0 {
                                    value = mix.next() % (p / 2) + 1;
                                    for (k, v) in dev {
                                        if *k == d {
                                            value = (value + v) % p;
                                        }
                                    }
                                }
                                drawn += 1;
                                if drawn > 64 * (t + 2) * words {
                                    panic!("{}", EXHAUSTED);
                                }
                                if words == 1 {
                                    (value as u32) << shift
                                } else if part == 0 {
                                    value as u32
                                } else {
                                    ((value >> 32) as u32) << shift
                                }
                            },
                        };
                        guarded(|| Plain::generate_shares(&mut rng, &el::<F>(secret), n, t))?
                    };
                    numbered(&shares, n)?;
                    let mut v: Vec<(usize, u64)> = shares.iter().map(|s| (s.0, val(&s.1))).collect();
                    v.sort_unstable();
                    Ok((v.into_iter().map(|x| x.1).collect(), (drawn + words - 1) / words))
                };
                let minus = |a: &[u64], b: &[u64]| -> Vec<u64> { a.iter().zip(b).map(|(x, y)| (x + p - y) % p).collect() };
                for base in 0..2 {
                    let secret = if base == 0 { 0 } else { p - 2 };
                    let (zero, draws) = match run(base, secret, &[]) {
                        Err(e) if e.contains(EXHAUSTED) => {
                            rep.add_transitions(1);
                            return Ok(());
                        }
                        r => r?,
                    };
                    let mut affine = true;
                    let mut columns: Vec<Vec<u64>> = vec![];
                    let big = p / 3;
                    for k in 0..draws {
                        let one = minus(&run(base, secret, &[(k, 1)])?.0, &zero);
                        for (m, what) in [(2u64, vec![(k, 2)]), (big % p, vec![(k, big)])] {
                            let d = minus(&run(base, secret, &what)?.0, &zero);
                            affine &= d.iter().zip(&one).all(|(x, y)| *x as u128 == m as u128 * *y as u128 % p as u128);
                        }
                        columns.push(one);
                    }
                    for k in 0..draws {
                        for l in [k + 1, k + 2, k + 8, draws - 1] {
                            if l < draws && l != k {
                                let d = minus(&run(base, secret, &[(k, 1), (l, 3)])?.0, &zero);
                                affine &= (0..n).all(|x| d[x] as u128 == (columns[k][x] as u128 + 3 * columns[l][x] as u128) % p as u128);
                            }
                        }
                    }
                    rep.add_states(7 * draws as u64);
                    if !affine {
                        rep.add_transitions(1);
                        if draws == t - 1 {
                            lossy(p, draws, rep, |dev: &[(usize, u64)]| match run(base, secret, dev) {
                                Ok((v, d)) if d == draws => Ok(Some(minus(&v, &zero))),
                                Ok(_) => Ok(None),
                                Err(e) if e.contains(EXHAUSTED) => Ok(None),
                                Err(e) => Err(e),
                            })?;
                        }
                        continue;
                    }
                    let mut cos: Vec<Vec<usize>> = vec![(0..t - 1).collect(), (n + 1 - t..n).collect()];
                    cos.push((0..t - 1).map(|i| i * n / (t - 1)).collect());
                    if t > 3 {
                        cos.extend((0..t - 1).map(|i| vec![i, n - 1]).filter(|c| c[0] != c[1]));
                    }
                    for co in &cos {
                        let rows: Vec<Vec<u64>> = columns.iter().map(|c| co.iter().map(|x| c[*x]).collect()).collect();
                        let r = rank(rows, p);
                        rep.add_transitions(1);
                        if r < co.len() {
                            return Err(format!(
                                "the shares of participants {:?} depend on only {} independent random elements: they are not uniform and tell about the secret",
                                co.iter().map(|x| x + 1).collect::<Vec<_>>(),
                                r
                            ));
                        }
                    }
                }
                Ok(())
            },
        );
    });
}

/// A map from `draws` uniform random elements onto the shares that is not affine. If every element acts on its own, along
/// a direction of its own, the shares of as many participants are uniform exactly if each element's contribution takes
/// every value once; a contribution that takes one value twice is therefore a leak. Anything else is not judged here.
fn lossy(p: u64, draws: usize, rep: &Report, f: impl Fn(&[(usize, u64)]) -> Result<Option<Vec<u64>>, String>) -> Result<(), String> {
    let mut devs: Vec<u64> = if p < 1000 { (1..p).collect() } else { (0..64).map(|i| 1u64 << i).filter(|v| *v < p / 2).flat_map(|v| [v, p - v, 3 * v % p]).collect() };
    devs.sort_unstable();
    devs.dedup();
    let mul = |a: u64, b: u64| (a as u128 * b as u128 % p as u128) as u64;
    let mut dirs: Vec<Vec<u64>> = vec![];
    let mut found = None;
    for k in 0..draws {
        let mut dir: Option<(Vec<u64>, u64)> = None;
        let mut seen = std::collections::HashMap::new();
        seen.insert(0u64, 0u64);
        for v in &devs {
            let d = match f(&[(k, *v)])? {
                None => return Ok(()),
                Some(d) => d,
            };
            rep.add_states(1);
            let scale = if d.iter().all(|x| *x == 0) {
                0
            } else {
                let (base, inverse) = dir.get_or_insert_with(|| (d.clone(), inv(d[0], p)));
                let c = mul(d[0], *inverse);
                if d.iter().zip(base.iter()).any(|(x, y)| *x != mul(c, *y)) {
                    return Ok(());
                }
                c
            };
            if let Some(other) = seen.insert(scale, *v) {
                found.get_or_insert((k, other, *v));
            }
        }
        match dir {
            None => return Ok(()),
            Some((d, _)) => dirs.push(d),
        }
    }
    for k in 0..draws {
        for l in [k + 1, k + 2, k + 8, draws - 1] {
            if l >= draws || l == k {
                continue;
            }
            for (v, w) in [(1u64, 1u64), (3, p - 2), (p - 1, 4)] {
                match (f(&[(k, v), (l, w)])?, f(&[(k, v)])?, f(&[(l, w)])?) {
                    (Some(x), Some(y), Some(z)) if (0..x.len()).all(|i| x[i] == (y[i] + z[i]) % p) => {}
                    _ => return Ok(()),
                }
            }
        }
    }
    if let (Some((k, a, b)), true) = (found, rank(dirs.iter().map(|d| d[..draws].to_vec()).collect(), p) == draws) {
        return Err(format!("random element {} shifted by {} and by {} gives the same shares: not every value of the shares is equally likely, and which are depends on the secret", k, a, b));
    }
    Ok(())
}

pub fn c16(rep: &Report) {
    let t = rep.thorough;
    c16_one::<F3>(rep, "F3", 3, 2, 2);
    for n in 2..=4 {
        for k in 2..=n {
            c16_one::<F5>(rep, "F5", 5, n, k);
        }
    }
    for n in 2..=6 {
        for k in 2..=n {
            if k <= 5 || t {
                c16_one::<F7>(rep, "F7", 7, n, k);
            }
        }
    }
    for (n, k) in [(2, 2), (3, 3), (4, 3), (10, 3), (5, 4), (10, 2), (6, 4), (5, 5)] {
        if k == 5 && !t {
            continue;
        }
        c16_one::<F11>(rep, "F11", 11, n, k);
        if k <= 3 || t {
            c16_one::<F13>(rep, "F13", 13, n, k);
        }
    }
    c16_one::<F17>(rep, "F17", 17, 16, 2);
    c16_one::<F17>(rep, "F17", 17, 5, 3);
    c16_one::<F31>(rep, "F31", 31, 30, 2);
    c16_one::<F31>(rep, "F31", 31, 5, 3);
    c16_one::<F127>(rep, "F127", 127, 10, 2);
    c16_one::<Mersenne5>(rep, "Mersenne5", 31, 4, 3);
    let mut settings: Vec<(usize, usize)> = (2..=if t { 64 } else { 40 }).rev().map(|k| (k + k % 3, k)).collect();
    settings.push((256, 17));
    c16_rank::<F257>(rep, "F257", &settings);
    c16_rank::<Mersenne31>(rep, "Mersenne31", &settings);
    c16_rank::<Mersenne61>(rep, "Mersenne61", &settings);
    rep.bound("thresholds up to 40 (thorough: 64) over F257, Mersenne31, Mersenne61: base assignments of the random elements with all deviations of one and a grid of deviations of two; the rank of the affine map onto the shares of coalitions of threshold-1; for maps that are not affine, collisions of each element's contribution (F257: over all its values)");
    rep.bound("fields of 3 to 127 elements, up to 30 participants, thresholds up to 5 (thorough: 6): complete tree of random choices for every secret, every coalition below the threshold");
    rep.assume("the generator's bits are uniform and independent; rejected draws (outputs not below the prime) are the subject of C08");
    rep.sample(|| "F7 n=4 t=3: coalition {1,3} sees each of the 49 pairs of shares equally often for every secret".into());
}

// ------------------------------------------------------------------------------------------------------------------- C17

fn eval(poly: &[u64], x: u64, p: u64) -> u64 {
    poly.iter().rev().fold(0, |a, c| (a * x + c) % p)
}

fn poly_of(mut k: usize, t: usize, p: u64) -> Vec<u64> {
    (0..t)
        .map(|_| {
            let c = k as u64 % p;
            k /= p as usize;
            c
        })
        .collect()
}

struct Setting<F> {
    p: u64,
    n: usize,
    t: usize,
    subsets: Vec<(Vec<usize>, Vec<u64>)>,
    marker: std::marker::PhantomData<F>,
}

impl<F: Field> Setting<F> {
    fn new(p: u64, n: usize, t: usize) -> Self {
        let subsets = subsets(n, t)
            .into_iter()
            .filter(|s| s.len() == t)
            .map(|s| {
                let xs: Vec<u64> = s.iter().map(|i| *i as u64 + 1).collect();
                let w = weights(&xs, p);
                (s, w)
            })
            .collect();
        Setting { p, n, t, subsets, marker: std::marker::PhantomData }
    }

    fn share(&self, poly: &[u64]) -> Vec<Share<F>> {
        (1..=self.n).map(|x| (x, el(eval(poly, x as u64, self.p)))).collect()
    }

    /// The shares must be one per participant and every threshold-many must interpolate to `want`.
    fn expect(&self, what: &str, got: &[Share<F>], want: u64) -> Result<(), String> {
        for (i, s) in got.iter().enumerate() {
            if s.0 != i + 1 {
                return Err(format!("{}: the result of participant {} is numbered {}", what, i + 1, s.0));
            }
        }
        let v: Vec<u64> = got.iter().map(|s| val(&s.1)).collect();
        for (s, w) in &self.subsets {
            let r = s.iter().zip(w).fold(0, |a, (i, w)| (a + v[*i] * w) % self.p);
            if r != want {
                return Err(format!(
                    "{}: participants {:?} reconstruct {} instead of {}",
                    what,
                    s.iter().map(|i| i + 1).collect::<Vec<_>>(),
                    r,
                    want
                ));
            }
        }
        Ok(())
    }

    fn map(&self, f: impl Fn(usize) -> Share<F>) -> Vec<Share<F>> {
        (0..self.n).map(f).collect()
    }
}

fn c17_ops<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize) {
    let st = Setting::<F>::new(p, n, t);
    let polys = (p as usize).pow(t as u32);
    par_for(rep, polys, |i| {
        let a = poly_of(i, t, p);
        let sa = st.share(&a);
        rep.case(
            || format!("{} n={} t={} a={:?} unary", name, n, t, a),
            || {
                for c in 0..p {
                    let e: F = el(c);
                    st.expect("adding a scalar", &st.map(|x| Plain::add_scalar(&sa[x], &e)), (a[0] + c) % p)?;
                    st.expect("subtracting a scalar", &st.map(|x| Plain::sub_scalar(&sa[x], &e)), (a[0] + p - c) % p)?;
                    st.expect("multiplying by a scalar", &st.map(|x| Plain::multiply_scalar(&sa[x], &e)), a[0] * c % p)?;
                }
                let one: Vec<Option<Share<F>>> = (0..n).map(|x| Plain::sum_shares(&[sa[x].clone()])).collect();
                let one: Option<Vec<_>> = one.into_iter().collect();
                st.expect("sum of one share", &one.ok_or("the sum of one share is nothing")?, a[0])
            },
        );
        rep.add_states(3 * p);
        for j in 0..polys {
            let b = poly_of(j, t, p);
            let sb = st.share(&b);
            rep.case(
                || format!("{} n={} t={} a={:?} b={:?}", name, n, t, a, b),
                || {
                    st.expect("sum of two shares", &st.map(|x| Plain::add_shares(&sa[x], &sb[x])), (a[0] + b[0]) % p)?;
                    st.expect("difference of shares", &st.map(|x| Plain::sub_shares(&sa[x], &sb[x])), (a[0] + p - b[0]) % p)?;
                    let s: Option<Vec<_>> = (0..n).map(|x| Plain::sum_shares(&[sa[x].clone(), sb[x].clone()])).collect();
                    st.expect("sum of a list of two", &s.ok_or("the sum of two shares is nothing")?, (a[0] + b[0]) % p)?;
                    let s: Option<Vec<_>> =
                        (0..n).map(|x| Plain::sum_shares(&[sa[x].clone(), sb[x].clone(), sb[x].clone(), sa[x].clone(), sb[x].clone()])).collect();
                    st.expect("sum of a list of five", &s.ok_or("the sum of five shares is nothing")?, (2 * a[0] + 3 * b[0]) % p)
                },
            );
        }
        rep.add_states(4 * polys as u64);
        rep.add_transitions(4 * polys as u64);
    });
}

/// All expression trees: each layer applies every operation to all expressions of the layer before.
fn c17_trees<F: Field>(rep: &Report, name: &str, p: u64, n: usize, t: usize, leaves: &[Vec<u64>], depth: usize) {
    let st = Setting::<F>::new(p, n, t);
    rep.case_limit(
        900,
        || format!("{} n={} t={} leaves={:?} trees depth={}", name, n, t, leaves, depth),
        || {
            let mut layer: Vec<(Vec<Share<F>>, u64, String)> =
                leaves.iter().enumerate().map(|(i, l)| (st.share(l), l[0], format!("x{}", i))).collect();
            for d in 1..=depth {
                let mut next = layer.clone();
                for (s, v, tx) in &layer {
                    for c in 0..p {
                        let e: F = el(c);
                        next.push((st.map(|x| Plain::add_scalar(&s[x], &e)), (v + c) % p, format!("({}+{})", tx, c)));
                        next.push((st.map(|x| Plain::sub_scalar(&s[x], &e)), (v + p - c) % p, format!("({}-{})", tx, c)));
                        next.push((st.map(|x| Plain::multiply_scalar(&s[x], &e)), v * c % p, format!("({}*{})", tx, c)));
                    }
                    for (s2, v2, tx2) in &layer {
                        next.push((st.map(|x| Plain::add_shares(&s[x], &s2[x])), (v + v2) % p, format!("({}+{})", tx, tx2)));
                        next.push((st.map(|x| Plain::sub_shares(&s[x], &s2[x])), (v + p - v2) % p, format!("({}-{})", tx, tx2)));
                        if d == 1 {
                            for (s3, v3, tx3) in &layer {
                                next.push((
                                    st.map(|x| Plain::sum_shares(&[s[x].clone(), s2[x].clone(), s3[x].clone()]).expect("sum of three shares")),
                                    (v + v2 + v3) % p,
                                    format!("sum({},{},{})", tx, tx2, tx3),
                                ));
                            }
                        }
                    }
                }
                for (s, v, tx) in &next {
                    st.expect(tx, s, *v)?;
                    let got = Plain::reconstruct_secret(s, t);
                    if val(&got) != *v {
                        return Err(format!("{}: all shares reconstruct {} instead of {}", tx, val(&got), v));
                    }
                }
                rep.add_states(next.len() as u64);
                rep.add_transitions(next.len() as u64);
                layer = next;
            }
            Ok(())
        },
    );
}

fn c17_mismatch<F: Field>(rep: &Report, name: &str, n: usize) {
    for x in 1..=n {
        for y in 1..=n {
            if x == y {
                continue;
            }
            for (v, w) in [(0, 0), (1, 2), (2, 2), (0, 1)] {
                let (a, b): (Share<F>, Share<F>) = ((x, el(v)), (y, el(w)));
                rep.case(
                    || format!("{} mismatch {} {} values {} {}", name, x, y, v, w),
                    || {
                        if !refuses(|| Plain::add_shares(&a, &b)) {
                            return Err("adding shares of different participants is not refused".into());
                        }
                        if !refuses(|| Plain::sub_shares(&a, &b)) {
                            return Err("subtracting shares of different participants is not refused".into());
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // numbers that agree in their low bits or differ in few
    let far: Vec<usize> = vec![1, 2, 3, 255, 256, 257, 258, 65_535, 65_536, 65_537, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 257];
    for &x in &far {
        for &y in &far {
            if x == y {
                continue;
            }
            let (a, b): (Share<F>, Share<F>) = ((x, el(1)), (y, el(1)));
            rep.case(
                || format!("{} mismatch {} {}", name, x, y),
                || {
                    if !refuses(|| Plain::add_shares(&a, &b)) || !refuses(|| Plain::sub_shares(&a, &b)) {
                        return Err("combining shares of different participants is not refused".into());
                    }
                    if guarded(|| Plain::sum_shares(&[a.clone(), b.clone()])).map_or(false, |s| s.is_some()) {
                        return Err("summing shares of different participants is not refused".into());
                    }
                    Ok(())
                },
            );
            rep.add_states(1);
            rep.add_transitions(1);
        }
    }
    // long lists: one foreign share at any position; and the sum itself
    for len in (6..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025]) {
        let list = |at: Option<usize>| -> Vec<Share<F>> { (0..len).map(|i| (if Some(i) == at { 3 } else { 2 }, el(i as u64 % 3))).collect() };
        for at in (0..len).filter(|i| len <= 40 || i % 61 == 0 || *i + 3 > len || i.is_power_of_two()) {
            rep.case(
                || format!("{} list of {} with a foreign share at {}", name, len, at),
                || match guarded(|| Plain::sum_shares(&list(Some(at)))) {
                    Ok(Some(s)) => Err(format!("summing shares of different participants gives a share of participant {}", s.0)),
                    _ => Ok(()),
                },
            );
        }
        rep.case(
            || format!("{} sum of {} shares", name, len),
            || {
                let want = (0..len as u64).fold(BigUint::from(0u32), |a, i| a + i % 3) % F::field_prime().as_uint();
                match Plain::sum_shares(&list(None)) {
                    Some((2, v)) if v.as_uint() == want => Ok(()),
                    Some((x, v)) => Err(format!("the sum is {} of participant {} instead of {} of participant 2", v.as_uint(), x, want)),
                    None => Err("the sum is missing".into()),
                }
            },
        );
        rep.add_states(1);
        rep.add_transitions(len as u64);
    }
    // every list of up to 5 shares over 3 participants that are not all the same
    for len in 2..=5u32 {
        for k in 0..3usize.pow(len) {
            let mut r = k;
            let xs: Vec<usize> = (0..len)
                .map(|_| {
                    let x = r % 3 + 1;
                    r /= 3;
                    x
                })
                .collect();
            if xs.iter().all(|x| *x == xs[0]) {
                continue;
            }
            let list: Vec<Share<F>> = xs.iter().map(|x| (*x, el(1))).collect();
            rep.case(
                || format!("{} mismatched list {:?}", name, xs),
                || match guarded(|| Plain::sum_shares(&list)) {
                    Ok(Some(s)) => Err(format!("summing shares of different participants gives a share of participant {}", s.0)),
                    _ => Ok(()),
                },
            );
            rep.add_states(1);
            rep.add_transitions(1);
        }
    }
    rep.case(
        || format!("{} empty sum", name),
        || match <Plain as LinearSharingScheme<F, Share<F>>>::sum_shares(&[]) {
            None => Ok(()),
            Some(_) => Err("the sum of no shares is a share".into()),
        },
    );
}

fn c17_large<F: Field>(rep: &Report, name: &str) {
    let p = F::field_prime().as_uint();
    let vals = boundary_values(&p, 32);
    let (n, t) = (3usize, 2usize);
    par_for(rep, vals.len(), |i| {
        for b in &vals {
            let a = &vals[i];
            rep.case(
                || format!("{} a={} b={}", name, a, b),
                || {
                    // f(x) = a + (b + 1) x, g(x) = b + (a + 2) x
                    let sh = |c0: &BigUint, c1: BigUint| -> Vec<Share<F>> {
                        (1..=n).map(|x| (x, F::from((c0 + &c1 * BigUint::from(x)) % &p))).collect()
                    };
                    let (sa, sb) = (sh(a, b + 1u32), sh(b, a + 2u32));
                    let c = F::from(b.clone());
                    let outs: Vec<(&str, Vec<Share<F>>, BigUint)> = vec![
                        ("add_shares", (0..n).map(|x| Plain::add_shares(&sa[x], &sb[x])).collect(), (a + b) % &p),
                        ("sub_shares", (0..n).map(|x| Plain::sub_shares(&sa[x], &sb[x])).collect(), (a + &p - b) % &p),
                        ("add_scalar", (0..n).map(|x| Plain::add_scalar(&sa[x], &c)).collect(), (a + b) % &p),
                        ("sub_scalar", (0..n).map(|x| Plain::sub_scalar(&sa[x], &c)).collect(), (a + &p - b) % &p),
                        ("multiply_scalar", (0..n).map(|x| Plain::multiply_scalar(&sa[x], &c)).collect(), a * b % &p),
                        (
                            "sum_shares",
                            (0..n).map(|x| Plain::sum_shares(&[sa[x].clone(), sb[x].clone(), sa[x].clone()]).expect("sum of three")).collect(),
                            (a + b + a) % &p,
                        ),
                    ];
                    for (what, s, want) in outs {
                        for sub in subsets(n, t) {
                            let sel: Vec<Share<F>> = sub.iter().map(|i| s[*i].clone()).collect();
                            if sel.iter().zip(&sub).any(|(s, i)| s.0 != i + 1) {
                                return Err(format!("{} changes participant numbers", what));
                            }
                            let got = Plain::reconstruct_secret(&sel, t).as_uint();
                            if got != want {
                                return Err(format!("{}: participants {:?} reconstruct {} instead of {}", what, sub, got, want));
                            }
                        }
                    }
                    Ok(())
                },
            );
            rep.add_states(6);
            rep.add_transitions(6);
        }
    });
}

pub fn c17(rep: &Report) {
    let t = rep.thorough;
    c17_ops::<F3>(rep, "F3", 3, 2, 2);
    c17_ops::<F5>(rep, "F5", 5, 3, 2);
    c17_ops::<F5>(rep, "F5", 5, 4, 3);
    c17_ops::<F7>(rep, "F7", 7, 4, 2);
    c17_ops::<F11>(rep, "F11", 11, 3, 2);
    c17_ops::<F13>(rep, "F13", 13, 4, 2);
    if t {
        c17_ops::<F5>(rep, "F5", 5, 4, 4);
        c17_ops::<F7>(rep, "F7", 7, 5, 3);
        c17_ops::<F31>(rep, "F31", 31, 3, 2);
    }
    rep.bound("fields of 3 to 13 elements (thorough: 31): every pair of sharing polynomials, every scalar, every threshold-many participants");
    c17_trees::<F3>(rep, "F3", 3, 2, 2, &[vec![1, 2], vec![2, 2]], 2);
    c17_trees::<F5>(rep, "F5", 5, 3, 2, &[vec![3, 4], vec![2, 1]], 2);
    c17_trees::<F5>(rep, "F5", 5, 4, 3, &[vec![4, 0, 3], vec![0, 1, 2]], 2);
    if t {
        c17_trees::<F7>(rep, "F7", 7, 4, 3, &[vec![6, 1, 3], vec![2, 0, 5], vec![1, 1, 1]], 2);
    }
    rep.bound("every expression tree of linear operations of depth two over two sharings");
    c17_mismatch::<F5>(rep, "F5", 4);
    c17_mismatch::<F11>(rep, "F11", 10);
    c17_mismatch::<Mersenne61>(rep, "Mersenne61", 8);
    rep.bound("every pair of different participants up to 10, every mixed list of up to 5 shares of 3 participants, sums of up to 1025 shares with a foreign one at any (beyond 40 shares: some) position, participant numbers around 2^8, 2^16, 2^31, 2^32");
    c17_large::<Mersenne61>(rep, "Mersenne61");
    c17_large::<Mersenne127>(rep, "Mersenne127");
    c17_large::<FB64p13>(rep, "2^64+13");
    c17_large::<FB32p15>(rep, "2^32+15");
    rep.bound("large fields: all pairs of boundary values");
    rep.sample(|| "F5 n=4 t=3: ((x0*3)-(x1+4)) over polynomials [4,0,3] and [0,1,2]".into());
}
