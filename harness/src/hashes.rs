//! C01 - C04: hash functions, streaming, HMAC, HKDF.

use crate::engine::*;
use crate::refhash::*;
use jester_hashes::blake::blake2b::{Blake2b, Blake2bContext};
use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
use jester_hashes::hmac::hmac;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::md5::MD5Hash;
use jester_hashes::sha1::SHA1Hash;
use jester_hashes::{BlockHashFunction, HashFunction, HashValue};
use std::sync::atomic::Ordering::Relaxed;

fn b2b(out: usize, key: &[u8]) -> Blake2bContext {
    Blake2bContext { output_len: out, key: key.to_vec() }
}

fn b2s(out: usize, key: &[u8]) -> Blake2sContext {
    Blake2sContext { output_len: out, key: key.to_vec() }
}

/// Something to be done with the implementation under test that belongs to a reference algorithm.
pub trait WithHash {
    type Out;
    fn run<H: BlockHashFunction>(self, ctx: &H::Context) -> Self::Out;
}

pub fn with_hash<W: WithHash>(alg: &Alg, w: W) -> W::Out {
    match alg {
        Alg::Md5 => w.run::<MD5Hash>(&()),
        Alg::Sha1 => w.run::<SHA1Hash>(&()),
        Alg::B2b { out, key } => w.run::<Blake2b>(&b2b(*out, key)),
        Alg::B2s { out, key } => w.run::<Blake2s>(&b2s(*out, key)),
    }
}

struct OneShot<'a>(&'a [u8]);
impl<'a> WithHash for OneShot<'a> {
    type Out = Vec<u8>;
    fn run<H: BlockHashFunction>(self, ctx: &H::Context) -> Vec<u8> {
        H::digest_message(ctx, self.0).raw()
    }
}

struct Stream<'a>(&'a [&'a [u8]]);
impl<'a> WithHash for Stream<'a> {
    type Out = Vec<u8>;
    fn run<H: BlockHashFunction>(self, ctx: &H::Context) -> Vec<u8> {
        let mut st = H::init_hash(ctx);
        for p in self.0 {
            H::update_hash(&mut st, ctx, p);
        }
        H::finish_hash(&mut st, ctx).raw()
    }
}

struct Sizes;
impl WithHash for Sizes {
    type Out = (usize, usize);
    fn run<H: BlockHashFunction>(self, ctx: &H::Context) -> (usize, usize) {
        (H::block_size(ctx), H::output_size(ctx))
    }
}

struct Hmac<'a>(&'a [u8], &'a [u8]);
impl<'a> WithHash for Hmac<'a> {
    type Out = Vec<u8>;
    fn run<H: BlockHashFunction>(self, ctx: &H::Context) -> Vec<u8> {
        hmac::<H, H::Context>(ctx, self.0, self.1)
    }
}

struct Hkdf<'a>(&'a [u8], &'a [u8], &'a [u8], usize);
impl<'a> WithHash for Hkdf<'a> {
    type Out = Vec<u8>;
    fn run<H: BlockHashFunction>(self, ctx: &H::Context) -> Vec<u8> {
        hkdf_derive_key::<H, H::Context>(ctx, self.0, self.1, self.3, self.2)
    }
}

fn eq(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {} ({} bytes) but must be {} ({} bytes)", what, brief(got), got.len(), brief(want), want.len()))
    }
}

fn base_algs() -> Vec<Alg> {
    vec![
        Alg::Md5,
        Alg::Sha1,
        Alg::B2b { out: 64, key: vec![] },
        Alg::B2b { out: 20, key: pattern(3, 17) },
        Alg::B2b { out: 64, key: pattern(2, 64) },
        Alg::B2s { out: 32, key: vec![] },
        Alg::B2s { out: 11, key: pattern(3, 17) },
        Alg::B2s { out: 32, key: pattern(2, 32) },
    ]
}

fn boundary_lens(b: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, b / 2, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 17, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 4 * b + 1];
    v.sort_unstable();
    v.dedup();
    v
}

/// 2^k - 1, 2^k, 2^k + 1 for the given exponents
fn around_powers(from: u32, to: u32) -> Vec<usize> {
    (from..=to).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect()
}

pub fn c01(rep: &Report) {
    self_test();
    let t = rep.thorough;
    // every length
    let max = if t { 8192 } else { 1100 };
    let algs = base_algs();
    rep.bound(format!("all message lengths 0..={} with {} byte patterns for {} parameter sets", max, PATTERNS, algs.len()));
    par_for(rep, max + 1, |len| {
        for kind in 0..PATTERNS {
            let m = pattern(kind, len);
            for a in &algs {
                rep.case(|| format!("{}|len={}|pattern={}", a.name(), len, kind), || {
                    eq("digest", &with_hash(a, OneShot(&m)), &a.digest(&m))
                });
            }
        }
        rep.add_states((PATTERNS * algs.len()) as u64);
        rep.add_transitions((PATTERNS * algs.len()) as u64);
    });
    // every parameter set
    let mut params = vec![];
    for out in 1..=64 {
        for kl in 0..=64 {
            params.push((true, out, kl));
            if out <= 32 && kl <= 32 {
                params.push((false, out, kl));
            }
        }
    }
    rep.bound("all output lengths 1..=64 x key lengths 0..=64 (blake2b), 1..=32 x 0..=32 (blake2s), each with 3 key contents and 15 message lengths around block boundaries");
    par_for(rep, params.len(), |i| {
        let (big, out, kl) = params[i];
        for kk in [0usize, 1, 3] {
            if kl == 0 && kk > 0 {
                continue;
            }
            let key = pattern(kk, kl);
            let a = if big { Alg::B2b { out, key } } else { Alg::B2s { out, key } };
            rep.case(|| format!("{}|keypattern={}|sizes", a.name(), kk), || {
                let (b, o) = with_hash(&a, Sizes);
                if (b, o) == (a.block(), a.out()) {
                    Ok(())
                } else {
                    Err(format!("advertised block/output size {:?} instead of {:?}", (b, o), (a.block(), a.out())))
                }
            });
            for len in boundary_lens(a.block()) {
                for kind in [2, 3] {
                    let m = pattern(kind, len);
                    rep.case(|| format!("{}|keypattern={}|len={}|pattern={}", a.name(), kk, len, kind), || {
                        eq("digest", &with_hash(&a, OneShot(&m)), &a.digest(&m))
                    });
                    rep.add_states(1);
                    rep.add_transitions(1);
                }
            }
        }
    });
    for a in [Alg::Md5, Alg::Sha1] {
        rep.case(|| format!("{}|sizes", a.name()), || {
            if with_hash(&a, Sizes) == (a.block(), a.out()) {
                Ok(())
            } else {
                Err(format!("advertised sizes {:?}", with_hash(&a, Sizes)))
            }
        });
    }
    // contents: every message of up to two (three) bytes, every one-hot and one-cold message of up to two blocks
    let plain = [Alg::Md5, Alg::Sha1, Alg::B2b { out: 64, key: vec![] }, Alg::B2s { out: 32, key: vec![] }];
    let depth = if t { 3 } else { 2 };
    rep.bound(format!("every message of at most {} bytes; every message of 1..=2 blocks with exactly one bit set or cleared", depth));
    for a in &plain {
        for len in 1..=depth {
            let total: usize = 256usize.pow(len as u32);
            let chunk = 4096.min(total);
            par_for(rep, total / chunk, |c| {
                let mut x = c * chunk;
                let mut m = vec![0u8; len];
                while x < (c + 1) * chunk {
                    for (i, b) in m.iter_mut().enumerate() {
                        *b = (x >> (8 * i)) as u8
                    }
                    rep.case(|| format!("{}|message={}", a.name(), hex(&m)), || {
                        eq("digest", &with_hash(a, OneShot(&m)), &a.digest(&m))
                    });
                    x += 1;
                }
                rep.add_states(chunk as u64);
                rep.add_transitions(chunk as u64);
            });
        }
        let b = a.block();
        par_for(rep, 2 * b * 8 * 2, |i| {
            let (bit, cold) = (i / 2, i % 2 == 1);
            for len in [b - 9, b - 1, b, b + 1, 2 * b] {
                if bit / 8 >= len {
                    continue;
                }
                let mut m = vec![if cold { 0xff } else { 0 }; len];
                m[bit / 8] ^= 1 << (bit % 8);
                rep.case(|| format!("{}|len={}|{} bit={}", a.name(), len, if cold { "cleared" } else { "set" }, bit), || {
                    eq("digest", &with_hash(a, OneShot(&m)), &a.digest(&m))
                });
                rep.add_states(1);
                rep.add_transitions(1);
            }
        });
    }
    // lengths on both sides of every power of two, up to many blocks
    let top = if t { 26 } else { 22 };
    let mut far = around_powers(9, top);
    far.extend([10_000, 100_000, 1_000_000, 3 << 12, (3 << 12) + 1, 5 << 14, (5 << 14) + 1]);
    rep.bound(format!("message lengths 2^k-1, 2^k, 2^k+1 for k = 9..={} (and some multiples of ten), for {} parameter sets", top, algs.len()));
    far.reverse();
    par_for(rep, far.len() * algs.len(), |i| {
        let (len, a) = (far[i / algs.len()], &algs[i % algs.len()]);
        let m = pattern(3, len);
        rep.case_limit(300, || format!("{}|len={}|pattern=3", a.name(), len), || eq("digest", &with_hash(a, OneShot(&m)), &a.digest(&m)));
        rep.add_states(1);
        rep.add_transitions(1);
    });
    // message lengths at which the length counters cross 32 bits
    let mut long: Vec<(Alg, usize)> = vec![];
    let bits = 1usize << 29;
    for a in [Alg::Md5, Alg::Sha1] {
        long.push((a.clone(), bits));
        long.push((a.clone(), bits + 57));
        if t {
            long.push((a.clone(), bits - 1));
            long.push((a.clone(), 2 * bits + 1));
            long.push((a.clone(), (1usize << 32) + 3));
        }
    }
    for a in [Alg::B2s { out: 32, key: vec![] }, Alg::B2b { out: 64, key: vec![] }] {
        long.push((a.clone(), (1usize << 32) + 5));
        if t {
            long.push((a.clone(), (1usize << 32)));
            long.push((a.clone(), (1usize << 31) + 1));
            long.push((a.clone(), (1usize << 29) + 1));
        }
    }
    long.sort_by_key(|x| std::cmp::Reverse(x.1));
    rep.bound("all-zero messages of 2^29 bytes (2^32 bits, md5/sha1) and just above 2^32 bytes (blake2)");
    par_for(rep, long.len(), |i| {
        let (a, len) = &long[i];
        rep.case_limit(600, || format!("{}|zeros={}", a.name(), len), || {
            // untouched zero pages are not backed by memory
            let m = vec![0u8; *len];
            let want = std::thread::scope(|s| {
                let h = s.spawn(|| {
                    let zeros = vec![0u8; 1 << 20];
                    let mut st = RefState::new(a);
                    let mut left = *len;
                    while left > 0 {
                        let n = left.min(zeros.len());
                        st.update(&zeros[..n]);
                        left -= n;
                    }
                    st.finish()
                });
                let got = guarded(|| with_hash(a, OneShot(&m)));
                (got, h.join().unwrap())
            });
            eq("digest", &want.0?, &want.1)
        });
        rep.add_states(1);
        rep.add_transitions(1);
    });
    // the raw form of a digest
    let zero: [u32; 7] = [0, 1, 0x01020304, 0x80000000, 0xffffffff, 0xfedcba98, 0x000000ff];
    rep.bound("raw bytes of digest values over 7 words in every position");
    for (i, &w) in zero.iter().enumerate() {
        for pos in 0..5 {
            let mut x = [0x11223344u32, 0x55667788, 0x99aabbcc, 0xddeeff00, 0x0badcafe];
            x[pos] = w;
            rep.case(|| format!("raw|word={}|pos={}", i, pos), || {
                let m = MD5Hash(x[0], x[1], x[2], x[3]).raw();
                let s = SHA1Hash { a: x[0], b: x[1], c: x[2], d: x[3], e: x[4] }.raw();
                eq("md5 raw", &m, &x[..4].iter().flat_map(|v| v.to_le_bytes().to_vec()).collect::<Vec<u8>>())?;
                eq("sha1 raw", &s, &x.iter().flat_map(|v| v.to_be_bytes().to_vec()).collect::<Vec<u8>>())
            });
            rep.add_states(1);
            rep.add_transitions(1);
        }
    }
    rep.sample(|| "blake2b(out=33,key length 64)|len=257|pattern=3 compared with the RFC 7693 reference".into());
    rep.assume("the reference implementations in refhash.rs, checked against hashlib vectors at start-up");
    rep.assume("messages longer than the bounds behave like shorter ones apart from the length counters, whose 32-bit crossings are covered");
}

struct Interleave<'a> {
    a: &'a [&'a [u8]],
    b: &'a [&'a [u8]],
    order: u32,
}
impl<'a> WithHash for Interleave<'a> {
    type Out = (Vec<u8>, Vec<u8>);
    fn run<H: BlockHashFunction>(self, ctx: &H::Context) -> Self::Out {
        let (mut sa, mut sb) = (None, None);
        let (mut ia, mut ib) = (0, 0);
        let (mut ra, mut rb) = (None, None);
        // each stream: init, its updates, finish; bit i of order: which stream moves at step i
        let total = self.a.len() + self.b.len() + 4;
        for step in 0..total {
            if self.order >> step & 1 == 0 {
                if ia == 0 {
                    sa = Some(H::init_hash(ctx));
                } else if ia <= self.a.len() {
                    H::update_hash(sa.as_mut().unwrap(), ctx, self.a[ia - 1]);
                } else {
                    ra = Some(H::finish_hash(sa.as_mut().unwrap(), ctx).raw());
                }
                ia += 1;
            } else {
                if ib == 0 {
                    sb = Some(H::init_hash(ctx));
                } else if ib <= self.b.len() {
                    H::update_hash(sb.as_mut().unwrap(), ctx, self.b[ib - 1]);
                } else {
                    rb = Some(H::finish_hash(sb.as_mut().unwrap(), ctx).raw());
                }
                ib += 1;
            }
        }
        (ra.unwrap(), rb.unwrap())
    }
}

pub fn c02(rep: &Report) {
    self_test();
    let t = rep.thorough;
    let algs = base_algs();
    for a in &algs {
        let b = a.block();
        // state x input: every buffer fill (reached by one update of r bytes) x every next piece
        let (rmax, qmax) = if t { (3 * b + 1, 5 * b + 1) } else { (2 * b + 1, 3 * b + 1) };
        rep.bound(format!("{}: every first piece 0..={} followed by every piece 0..={}", a.name(), rmax, qmax));
        let m = pattern(3, rmax + qmax + 200);
        let prefix: Vec<Vec<u8>> = (0..=rmax + qmax + 3).map(|n| a.digest(&m[..n])).collect();
        par_for(rep, rmax + 1, |r| {
            for q in 0..=qmax {
                rep.case(|| format!("{}|pieces={},{}", a.name(), r, q), || {
                    eq("digest", &with_hash(a, Stream(&[&m[..r], &m[r..r + q]])), &prefix[r + q])
                });
            }
            rep.add_states(qmax as u64 + 1);
            rep.add_transitions(2 * (qmax as u64 + 1));
        });
        // all sequences over a boundary alphabet
        let alpha = [0, 1, b - 1, b, b + 1, 2 * b - 1, 2 * b, 3 * b];
        let depth = if t { 6 } else { 4 };
        rep.bound(format!("{}: every sequence of {} pieces with lengths from {:?}", a.name(), depth, alpha));
        let m = pattern(3, depth * 3 * b + 16);
        // reference digests of all prefixes of m, computed incrementally
        let mut refs: Vec<Option<Vec<u8>>> = vec![None; m.len() + 1];
        let mut st = RefState::new(a);
        refs[0] = Some(st.clone().finish());
        for (i, x) in m.iter().enumerate() {
            st.update(&[*x]);
            refs[i + 1] = Some(st.clone().finish());
        }
        let total = alpha.len().pow(depth as u32);
        par_for(rep, total / 64, |c| {
            for mut x in c * 64..(c + 1) * 64 {
                let mut lens = vec![];
                for _ in 0..depth {
                    lens.push(alpha[x % alpha.len()]);
                    x /= alpha.len();
                }
                let mut pieces = vec![];
                let mut off = 0;
                for l in &lens {
                    pieces.push(&m[off..off + l]);
                    off += l;
                }
                rep.case(|| format!("{}|pieces={}", a.name(), join(&lens)), || {
                    eq("digest", &with_hash(a, Stream(&pieces)), refs[off].as_ref().unwrap())
                });
            }
            rep.add_states(64);
            rep.add_transitions(64 * depth as u64);
        });
        // uniform small pieces over several blocks
        let maxlen = if t { 6 * b } else { 4 * b + 3 };
        rep.bound(format!("{}: messages of {} bytes in uniform pieces of every size 1..={}, with and without empty pieces", a.name(), maxlen, b + 2));
        let m = pattern(2, maxlen);
        let want = a.digest(&m);
        par_for(rep, b + 2, |s| {
            for empties in [false, true] {
                let mut pieces: Vec<&[u8]> = vec![];
                for p in m.chunks(s + 1) {
                    pieces.push(p);
                    if empties {
                        pieces.push(&[]);
                    }
                }
                rep.case(|| format!("{}|uniform={}|empties={}", a.name(), s + 1, empties), || {
                    eq("digest", &with_hash(a, Stream(&pieces)), &want)
                });
                rep.add_states(1);
                rep.add_transitions(pieces.len() as u64);
            }
        });
        // every composition of a short message that crosses a block boundary: first piece brings the buffer near it
        let tail = if t { 14 } else { 10 };
        let bits = tail - 1;
        rep.bound(format!("{}: every composition of the {} bytes around every block boundary up to the second", a.name(), tail));
        for start in [0, b - tail / 2, 2 * b - tail / 2] {
            let m = pattern(3, start + tail);
            let want = a.digest(&m);
            par_for(rep, (1usize << bits) / 16, |c| {
                for x in c * 16..(c + 1) * 16 {
                    let mut pieces: Vec<&[u8]> = vec![&m[..start]];
                    let mut from = start;
                    for i in 0..bits {
                        if x >> i & 1 == 1 {
                            pieces.push(&m[from..start + i + 1]);
                            from = start + i + 1;
                        }
                    }
                    pieces.push(&m[from..]);
                    rep.case(|| format!("{}|start={}|composition={:b}", a.name(), start, x), || {
                        eq("digest", &with_hash(a, Stream(&pieces)), &want)
                    });
                }
                rep.add_states(16);
                rep.add_transitions(16 * bits as u64);
            });
        }
        // long pieces arriving at every kind of buffer fill, alone and after one another
        let top = if t { 24 } else { 20 };
        let longs = around_powers(9, top);
        let fills = [0, 1, b / 2, b - 1, b, b + 1, 2 * b];
        rep.bound(format!("{}: first pieces {:?}, then a piece of 2^k-1, 2^k or 2^k+1 bytes (k = 9..={}), then 0, 1 or 2^13+1 more bytes", a.name(), fills, top));
        let m = pattern(3, (1 << top) + 2 * b + (1 << 13) + 16);
        let mut ends: Vec<usize> = vec![];
        for f in fills {
            for l in &longs {
                ends.extend([f + l, f + l + 1, f + l + (1 << 13) + 1]);
            }
        }
        ends.sort_unstable();
        ends.dedup();
        let mut st = RefState::new(a);
        let mut at = 0;
        let mut want = std::collections::HashMap::new();
        for e in ends {
            st.update(&m[at..e]);
            at = e;
            want.insert(e, st.clone().finish());
        }
        par_for(rep, longs.len() * fills.len(), |i| {
            let (l, f) = (longs[longs.len() - 1 - i / fills.len()], fills[i % fills.len()]);
            for tail in [0, 1, (1 << 13) + 1] {
                if tail > 1 && l > 1 << 17 && !t {
                    continue;
                }
                rep.case_limit(300, || format!("{}|pieces={},{},{}", a.name(), f, l, tail), || {
                    let got = with_hash(a, Stream(&[&m[..f], &m[f..f + l], &m[f + l..f + l + tail]]));
                    eq("digest", &got, &want[&(f + l + tail)])
                });
                rep.add_states(1);
                rep.add_transitions(3);
            }
        });
        // even longer single pieces, arriving at a partly filled buffer
        let (top, fill) = if t { (28u32, b / 2) } else { (26u32, b / 2) };
        rep.bound(format!("{}: a first piece of {} bytes, then one piece of 2^k+1 bytes (k = 21..={}), then one more byte", a.name(), fill, top));
        let m = pattern(3, fill + (1 << top) + 2);
        let mut st = RefState::new(a);
        let mut at = 0;
        let want: Vec<Vec<u8>> = (21..=top)
            .map(|k| {
                let e = fill + (1usize << k) + 2;
                st.update(&m[at..e]);
                at = e;
                st.clone().finish()
            })
            .collect();
        par_for(rep, want.len(), |i| {
            let i = want.len() - 1 - i;
            let l = (1usize << (21 + i)) + 1;
            rep.case_limit(300, || format!("{}|pieces={},{},1", a.name(), fill, l), || {
                eq("digest", &with_hash(a, Stream(&[&m[..fill], &m[fill..fill + l], &m[fill + l..fill + l + 1]])), &want[i])
            });
            rep.add_states(1);
            rep.add_transitions(3);
        });
        // very many pieces
        let many = if t { 1 << 20 } else { 1 << 17 };
        rep.bound(format!("{}: {} pieces of 0 bytes, 1 byte, one block less one byte, one block", a.name(), many + 1));
        par_for(rep, 4, |i| {
            let size = [0, 1, b - 1, b][i];
            let m = pattern(2, size);
            let pieces: Vec<&[u8]> = vec![&m; many + 1];
            rep.case_limit(300, || format!("{}|{} pieces of {}", a.name(), pieces.len(), size), || {
                let mut st = RefState::new(a);
                for p in &pieces {
                    st.update(p);
                }
                eq("digest", &with_hash(a, Stream(&pieces)), &st.finish())
            });
            rep.add_states(1);
            rep.add_transitions(pieces.len() as u64);
        });
        // two computations sharing one context, in every interleaving
        let (n, alpha2) = (2usize, [0, 1, b - 1, b, b + 1]);
        rep.bound(format!("{}: every interleaving of two streams of 2 pieces with lengths from {:?}", a.name(), alpha2));
        let ma = pattern(2, 4 * b + 8);
        let mb = pattern(3, 4 * b + 8);
        let steps = 2 * n + 4;
        let orders: Vec<u32> = (0u32..1 << steps).filter(|o| o.count_ones() as usize == n + 2).collect();
        let combos = alpha2.len().pow(2 * n as u32);
        par_for(rep, combos, |c| {
            let mut x = c;
            let mut l = [0usize; 4];
            for v in l.iter_mut() {
                *v = alpha2[x % alpha2.len()];
                x /= alpha2.len();
            }
            let pa = [&ma[..l[0]], &ma[l[0]..l[0] + l[1]]];
            let pb = [&mb[..l[2]], &mb[l[2]..l[2] + l[3]]];
            let (wa, wb) = (a.digest(&ma[..l[0] + l[1]]), a.digest(&mb[..l[2] + l[3]]));
            for &o in &orders {
                rep.case(|| format!("{}|streams={}|order={:b}", a.name(), join(&l), o), || {
                    let (ra, rb) = with_hash(a, Interleave { a: &pa, b: &pb, order: o });
                    eq("digest of the first stream", &ra, &wa)?;
                    eq("digest of the second stream", &rb, &wb)
                });
            }
            rep.add_states(orders.len() as u64);
            rep.add_transitions((orders.len() * steps) as u64);
        });
    }
    // a context that is used again and again is not changed
    rep.bound("one context object reused for 200 one-shot and streamed computations");
    rep.case(|| "context-reuse".into(), || {
        let cb = b2b(20, &pattern(3, 17));
        let cs = b2s(11, &pattern(3, 9));
        let (ab, asx) = (Alg::B2b { out: 20, key: pattern(3, 17) }, Alg::B2s { out: 11, key: pattern(3, 9) });
        for len in 0..200 {
            let m = pattern(3, len);
            eq("blake2b digest", &Blake2b::digest_message(&cb, &m).raw(), &ab.digest(&m))?;
            eq("blake2s digest", &Blake2s::digest_message(&cs, &m).raw(), &asx.digest(&m))?;
        }
        Ok(())
    });
    // long streams
    let long = 1usize << 29;
    rep.bound("2^29+70 bytes in 64 KiB + 1 pieces (md5/sha1), 2^32+70 bytes (blake2s)");
    let cases: Vec<(Alg, usize)> = vec![
        (Alg::B2s { out: 32, key: vec![] }, (1usize << 32) + 70),
        (Alg::Md5, long + 70),
        (Alg::Sha1, long + 70),
    ];
    par_for(rep, cases.len(), |i| {
        let (a, len) = &cases[i];
        rep.case_limit(600, || format!("{}|stream zeros={}", a.name(), len), || {
            let z = vec![0u8; 65537];
            let mut pieces: Vec<&[u8]> = vec![&z; len / z.len()];
            pieces.push(&z[..len % z.len()]);
            let r = std::thread::scope(|s| {
                let h = s.spawn(|| {
                    let mut st = RefState::new(a);
                    for p in &pieces {
                        st.update(p);
                    }
                    st.finish()
                });
                (guarded(|| with_hash(a, Stream(&pieces))), h.join().unwrap())
            });
            eq("digest", &r.0?, &r.1)
        });
        rep.add_states(1);
        rep.add_transitions((len / 65537 + 1) as u64);
    });
    rep.sample(|| "blake2s(out=32)|pieces=63,65,0,128 equals the digest of the concatenation".into());
    rep.assume("the reference implementations in refhash.rs, checked against hashlib vectors at start-up");
}

/// A user-defined block hash with configurable (tiny) block and output sizes.
pub struct Toy;
pub struct ToyCtx {
    pub block: usize,
    pub out: usize,
}
pub struct ToyData(Vec<u8>);
impl HashValue for ToyData {
    fn raw(&self) -> Vec<u8> {
        self.0.clone()
    }
}

pub fn toy_digest(out: usize, m: &[u8]) -> Vec<u8> {
    let mut h = 0xcbf29ce484222325u64 ^ (m.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for b in m {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3).rotate_left(11);
    }
    (0..out)
        .map(|i| {
            let mut x = h.wrapping_add((i as u64).wrapping_mul(0x9e3779b97f4a7c15));
            x ^= x >> 29;
            x = x.wrapping_mul(0xbf58476d1ce4e5b9);
            (x >> 53) as u8
        })
        .collect()
}

impl HashFunction for Toy {
    type Context = ToyCtx;
    type HashState = Vec<u8>;
    type HashData = ToyData;
    fn init_hash(_: &ToyCtx) -> Vec<u8> {
        vec![]
    }
    fn update_hash(hash: &mut Vec<u8>, _: &ToyCtx, input: &[u8]) {
        hash.extend_from_slice(input)
    }
    fn finish_hash(hash: &mut Vec<u8>, ctx: &ToyCtx) -> ToyData {
        ToyData(toy_digest(ctx.out, hash))
    }
    fn digest_message(ctx: &ToyCtx, input: &[u8]) -> ToyData {
        ToyData(toy_digest(ctx.out, input))
    }
}
impl BlockHashFunction for Toy {
    fn block_size(ctx: &ToyCtx) -> usize {
        ctx.block
    }
    fn output_size(ctx: &ToyCtx) -> usize {
        ctx.out
    }
}

fn words(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for w in &last {
            for a in alpha {
                let mut v: Vec<u8> = w.clone();
                v.push(*a);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

pub fn wide_algs() -> Vec<Alg> {
    let mut v = vec![Alg::Md5, Alg::Sha1];
    for out in 1..=64 {
        v.push(Alg::B2b { out, key: vec![] });
    }
    for out in 1..=32 {
        v.push(Alg::B2s { out, key: vec![] });
    }
    v.push(Alg::B2b { out: 64, key: pattern(3, 64) });
    v.push(Alg::B2b { out: 24, key: pattern(3, 5) });
    v.push(Alg::B2s { out: 32, key: pattern(3, 32) });
    v.push(Alg::B2s { out: 12, key: pattern(3, 5) });
    v
}

fn ctx_id(a: &Alg) -> String {
    a.name()
}

pub fn c03(rep: &Report) {
    self_test();
    let t = rep.thorough;
    // every key length
    let algs = wide_algs();
    rep.bound(format!("every key length 0..=3 blocks+1 x message lengths around block boundaries, {} hash parameter sets, 2 contents", algs.len()));
    par_for(rep, algs.len(), |i| {
        let a = &algs[i];
        let b = a.block();
        let full = matches!(a, Alg::Md5 | Alg::Sha1) || a.out() % 32 == 0 || t;
        let keys: Vec<usize> = if full { (0..=3 * b + 1).collect() } else { vec![0, 1, a.out(), b - 1, b, b + 1, 2 * b, 3 * b + 1] };
        for kl in keys {
            for ml in [0, 1, b - 1, b, b + 1, 3 * b] {
                for kind in [3, 5] {
                    let (k, m) = (pattern(kind, kl), pattern(2, ml));
                    rep.case(|| format!("{}|keylen={}|msglen={}|pattern={}", ctx_id(a), kl, ml, kind), || {
                        eq("authentication code", &with_hash(a, Hmac(&k, &m)), &ref_hmac(&|x| a.digest(x), b, &k, &m))
                    });
                    rep.add_states(1);
                    rep.add_transitions(1);
                }
            }
        }
    });
    // every message length
    let maxm = if t { 2000 } else { 300 };
    rep.bound(format!("every message length 0..={} x 6 key lengths, base parameter sets", maxm));
    let base = base_algs();
    par_for(rep, maxm + 1, |ml| {
        for a in &base {
            let b = a.block();
            for kl in [0, 1, b - 1, b, b + 1, 2 * b + 3] {
                let (k, m) = (pattern(2, kl), pattern(3, ml));
                rep.case(|| format!("{}|keylen={}|msglen={}", ctx_id(a), kl, ml), || {
                    eq("authentication code", &with_hash(a, Hmac(&k, &m)), &ref_hmac(&|x| a.digest(x), b, &k, &m))
                });
            }
        }
        rep.add_states(6 * base.len() as u64);
        rep.add_transitions(6 * base.len() as u64);
    });
    // long keys and messages
    let top = if t { 24 } else { 21 };
    let longs = around_powers(8, top);
    rep.bound(format!("key lengths, and message lengths with 3 key lengths, 2^k-1, 2^k, 2^k+1 for k = 8..={}, base parameter sets", top));
    par_for(rep, longs.len() * base.len(), |i| {
        let (l, a) = (longs[longs.len() - 1 - i / base.len()], &base[i % base.len()]);
        let b = a.block();
        let long = pattern(3, l);
        let short = pattern(2, 2 * b);
        for n in [0, 20, b + 1] {
            for (k, m) in [(&long[..], &short[..n]), (&short[..n], &long[..])] {
                rep.case_limit(300, || format!("{}|keylen={}|msglen={}", ctx_id(a), k.len(), m.len()), || {
                    eq("authentication code", &with_hash(a, Hmac(k, m)), &ref_hmac(&|x| a.digest(x), b, k, m))
                });
                rep.add_states(1);
                rep.add_transitions(1);
            }
        }
    });
    // key contents: every single byte key, every one-byte message
    rep.bound("every one-byte key x every one-byte message (md5, sha1, blake2)");
    par_for(rep, 256, |k| {
        for m in 0..256usize {
            for a in [&base[0], &base[1], &base[2], &base[5]] {
                let (kk, mm) = ([k as u8], [m as u8]);
                rep.case(|| format!("{}|key={:02x}|msg={:02x}", ctx_id(a), k, m), || {
                    eq("authentication code", &with_hash(a, Hmac(&kk, &mm)), &ref_hmac(&|x| a.digest(x), a.block(), &kk, &mm))
                });
                rep.add_states(1);
                rep.add_transitions(1);
            }
        }
    });
    // user-defined hashes
    let alpha = [0u8, 1, 0x36, 0x5c, 0xff];
    let ws = words(&alpha, if t { 4 } else { 3 });
    let mut ctxs = vec![];
    for block in 1..=4usize {
        for out in 0..=block {
            ctxs.push((block, out));
        }
    }
    ctxs.push((200, 150));
    ctxs.push((7, 7));
    rep.bound(format!("user-defined hashes with block 1..=4 and every output size up to the block: all {}^2 keys and messages over {:02x?}", ws.len(), alpha));
    par_for(rep, ctxs.len() * ws.len(), |i| {
        let (block, out) = ctxs[i / ws.len()];
        let k = &ws[i % ws.len()];
        for m in &ws {
            rep.case(|| format!("toy(block={},out={})|key={}|msg={}", block, out, hex(k), hex(m)), || {
                let got = hmac::<Toy, ToyCtx>(&ToyCtx { block, out }, k, m);
                eq("authentication code", &got, &ref_hmac(&|x| toy_digest(out, x), block, k, m))
            });
        }
        rep.add_states(ws.len() as u64);
        rep.add_transitions(ws.len() as u64);
    });
    rep.sample(|| "sha1|keylen=65|msglen=64: the key is hashed first, then padded".into());
    rep.assume("the reference implementations in refhash.rs, checked against hashlib/hmac vectors at start-up");
}

pub fn c04(rep: &Report) {
    self_test();
    let t = rep.thorough;
    let algs: Vec<Alg> = if t { wide_algs() } else { base_algs() };
    // every requested length up to 255 outputs (near output multiples in the quick tier)
    let mut work = vec![];
    for a in &algs {
        let h = a.out();
        let lens: Vec<usize> = if (t && h <= 32) || h <= 20 {
            (0..=255 * h).collect()
        } else {
            let mut v: Vec<usize> = (0..=4 * h + 1).collect();
            for k in 5..=255 {
                v.extend([k * h - 1, k * h, k * h + 1].iter().filter(|x| **x <= 255 * h));
            }
            v
        };
        for c in lens.chunks(64) {
            work.push((a.clone(), c.to_vec()));
        }
    }
    rep.bound("every output length up to 255 hash outputs (hash outputs of at most 20 bytes; thorough: 32), else all up to 4 outputs and all within one byte of a multiple");
    work.reverse();
    par_for(rep, work.len(), |i| {
        let (a, lens) = &work[i];
        let (salt, ikm, info) = (pattern(3, 13), pattern(2, 22), pattern(5, 10));
        let full = ref_hkdf(&|x| a.digest(x), a.block(), &salt, &ikm, &info, *lens.iter().max().unwrap());
        for &l in lens {
            rep.case(|| format!("{}|output={}", ctx_id(a), l), || {
                eq("derived key", &with_hash(a, Hkdf(&salt, &ikm, &info, l)), &full[..l])
            });
        }
        rep.add_states(lens.len() as u64);
        rep.add_transitions(lens.len() as u64);
    });
    // every combination of input lengths
    let base = base_algs();
    rep.bound("salt x key material x info lengths from {0,1,out,block-1,block,block+1,2*block} x 6 output lengths");
    let mut combos = vec![];
    for a in &base {
        let b = a.block();
        let al = [0, 1, a.out(), b - 1, b, b + 1, 2 * b];
        for s in al {
            for k in al {
                for n in al {
                    combos.push((a.clone(), s, k, n));
                }
            }
        }
    }
    par_for(rep, combos.len(), |i| {
        let (a, s, k, n) = &combos[i];
        let h = a.out();
        let (salt, ikm, info) = (pattern(3, *s), pattern(2, *k), pattern(1, *n));
        let full = ref_hkdf(&|x| a.digest(x), a.block(), &salt, &ikm, &info, 3 * h + 1);
        for l in [0, 1, h - 1, h, h + 1, 3 * h + 1] {
            rep.case(|| format!("{}|salt={}|ikm={}|info={}|output={}", ctx_id(a), s, k, n, l), || {
                eq("derived key", &with_hash(a, Hkdf(&salt, &ikm, &info, l)), &full[..l])
            });
            rep.add_states(1);
            rep.add_transitions(1);
        }
    });
    // long inputs
    let top = if t { 20 } else { 16 };
    let longs = around_powers(7, top);
    rep.bound(format!("salt, key material or info of 2^k-1, 2^k, 2^k+1 bytes, k = 7..={}, base parameter sets, 3 output lengths", top));
    par_for(rep, longs.len() * base.len(), |i| {
        let (l, a) = (longs[longs.len() - 1 - i / base.len()], &base[i % base.len()]);
        let h = a.out();
        let long = pattern(3, l);
        let short = pattern(2, 11);
        for which in 0..3 {
            let pick = |j: usize| if j == which { &long[..] } else { &short[..] };
            let full = ref_hkdf(&|x| a.digest(x), a.block(), pick(0), pick(1), pick(2), 3 * h + 1);
            for out in [h, h + 1, 3 * h + 1] {
                rep.case_limit(300, || format!("{}|salt={}|ikm={}|info={}|output={}", ctx_id(a), pick(0).len(), pick(1).len(), pick(2).len(), out), || {
                    eq("derived key", &with_hash(a, Hkdf(pick(0), pick(1), pick(2), out)), &full[..out])
                });
                rep.add_states(1);
                rep.add_transitions(1);
            }
        }
    });
    // user-defined hashes: all inputs over a small alphabet
    let ws = words(&[0u8, 1, 0x5c, 0xff], if t { 3 } else { 2 });
    let mut ctxs = vec![];
    for block in 1..=3usize {
        for out in 1..=block {
            ctxs.push((block, out));
        }
    }
    rep.bound(format!("user-defined hashes with block 1..=3, output 1..=block: all {}^3 salts, key materials and infos over 4 byte values, 5 output lengths", ws.len()));
    par_for(rep, ctxs.len() * ws.len(), |i| {
        let (block, out) = ctxs[i / ws.len()];
        let salt = &ws[i % ws.len()];
        for ikm in &ws {
            for info in &ws {
                let full = ref_hkdf(&|x| toy_digest(out, x), block, salt, ikm, info, 7);
                for l in [0usize, 1, 2, 5, 7] {
                    rep.case(
                        || format!("toy(block={},out={})|salt={}|ikm={}|info={}|output={}", block, out, hex(salt), hex(ikm), hex(info), l),
                        || {
                            let got = hkdf_derive_key::<Toy, ToyCtx>(&ToyCtx { block, out }, salt, ikm, l, info);
                            eq("derived key", &got, &full[..l])
                        },
                    );
                }
            }
        }
        rep.add_states((ws.len() * ws.len() * 5) as u64);
        rep.add_transitions((ws.len() * ws.len() * 5) as u64);
    });
    rep.nontrivial.fetch_add(0, Relaxed);
    rep.sample(|| "sha1|output=21: two expand rounds, the second truncated to one byte".into());
    rep.assume("the reference implementations in refhash.rs, checked against hmac vectors at start-up");
}
