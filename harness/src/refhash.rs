//! Independent reference implementations of the published hash standards, used as the oracle. They are validated at the
//! start of every run against vectors produced by CPython's hashlib (data/vectors.txt).

use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Alg {
    Md5,
    Sha1,
    B2b { out: usize, key: Vec<u8> },
    B2s { out: usize, key: Vec<u8> },
}

impl Alg {
    pub fn name(&self) -> String {
        match self {
            Alg::Md5 => "md5".into(),
            Alg::Sha1 => "sha1".into(),
            Alg::B2b { out, key } => format!("blake2b(out={},key={})", out, brief(key)),
            Alg::B2s { out, key } => format!("blake2s(out={},key={})", out, brief(key)),
        }
    }
    pub fn block(&self) -> usize {
        match self {
            Alg::B2b { .. } => 128,
            _ => 64,
        }
    }
    pub fn out(&self) -> usize {
        match self {
            Alg::Md5 => 16,
            Alg::Sha1 => 20,
            Alg::B2b { out, .. } | Alg::B2s { out, .. } => *out,
        }
    }
    pub fn digest(&self, m: &[u8]) -> Vec<u8> {
        let mut s = RefState::new(self);
        s.update(m);
        s.finish()
    }
}

pub fn brief(b: &[u8]) -> String {
    if b.len() <= 8 {
        hex(b)
    } else {
        format!("{}..[{}]", hex(&b[..4]), b.len())
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Clone)]
pub struct RefState {
    alg: Alg,
    h32: [u32; 8],
    h64: [u64; 8],
    buf: Vec<u8>,
    total: u128,
}

fn md5_table() -> &'static [u32; 64] {
    static T: OnceLock<[u32; 64]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0; 64];
        for i in 0..64 {
            t[i] = (((i + 1) as f64).sin().abs() * 4294967296.0).floor() as u32;
        }
        t
    })
}

const SIG: [[u8; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
const IV64: [u64; 8] = [
    0x6a09e667f3bcc908,
    0xbb67ae8584caa73b,
    0x3c6ef372fe94f82b,
    0xa54ff53a5f1d36f1,
    0x510e527fade682d1,
    0x9b05688c2b3e6c1f,
    0x1f83d9abfb41bd6b,
    0x5be0cd19137e2179,
];

impl RefState {
    pub fn new(alg: &Alg) -> RefState {
        let mut s = RefState { alg: alg.clone(), h32: [0; 8], h64: [0; 8], buf: vec![], total: 0 };
        match alg {
            Alg::Md5 => s.h32[..4].copy_from_slice(&[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]),
            Alg::Sha1 => {
                s.h32[..5].copy_from_slice(&[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0])
            }
            Alg::B2b { out, key } => {
                s.h64 = IV64;
                s.h64[0] ^= 0x01010000 + ((key.len() as u64) << 8) + *out as u64;
                if !key.is_empty() {
                    s.buf = key.clone();
                    s.buf.resize(128, 0);
                }
            }
            Alg::B2s { out, key } => {
                for i in 0..8 {
                    s.h32[i] = (IV64[i] >> 32) as u32;
                }
                s.h32[0] ^= 0x01010000 + ((key.len() as u32) << 8) + *out as u32;
                if !key.is_empty() {
                    s.buf = key.clone();
                    s.buf.resize(64, 0);
                }
            }
        }
        s
    }

    pub fn update(&mut self, mut m: &[u8]) {
        let b = self.alg.block();
        let lazy = matches!(self.alg, Alg::B2b { .. } | Alg::B2s { .. });
        // merkle-damgard hashes compress eagerly, blake2 keeps the last block
        while !m.is_empty() {
            let take = (b - self.buf.len()).min(m.len());
            if lazy && self.buf.len() == b {
                let blk = std::mem::take(&mut self.buf);
                self.total += b as u128;
                self.compress(&blk, false);
                self.buf = blk;
                self.buf.clear();
                continue;
            }
            if self.buf.is_empty() && take == b && (!lazy || m.len() > b) {
                self.total += b as u128;
                let (x, y) = m.split_at(b);
                self.compress(x, false);
                m = y;
                continue;
            }
            self.buf.extend_from_slice(&m[..take]);
            m = &m[take..];
            if !lazy && self.buf.len() == b {
                let blk = std::mem::take(&mut self.buf);
                self.total += b as u128;
                self.compress(&blk, false);
                self.buf = blk;
                self.buf.clear();
            }
        }
    }

    pub fn finish(mut self) -> Vec<u8> {
        self.total += self.buf.len() as u128;
        match self.alg.clone() {
            Alg::Md5 | Alg::Sha1 => {
                let bits = (self.total * 8) as u64;
                let mut p = std::mem::take(&mut self.buf);
                p.push(0x80);
                while p.len() % 64 != 56 {
                    p.push(0);
                }
                let md5 = self.alg == Alg::Md5;
                p.extend_from_slice(&if md5 { bits.to_le_bytes() } else { bits.to_be_bytes() });
                for c in p.chunks(64) {
                    self.compress(c, false);
                }
                if md5 {
                    self.h32[..4].iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
                } else {
                    self.h32[..5].iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
                }
            }
            Alg::B2b { out, .. } => {
                let mut p = std::mem::take(&mut self.buf);
                p.resize(128, 0);
                self.compress(&p, true);
                self.h64.iter().flat_map(|x| x.to_le_bytes().to_vec()).take(out).collect()
            }
            Alg::B2s { out, .. } => {
                let mut p = std::mem::take(&mut self.buf);
                p.resize(64, 0);
                self.compress(&p, true);
                self.h32.iter().flat_map(|x| x.to_le_bytes().to_vec()).take(out).collect()
            }
        }
    }

    fn compress(&mut self, blk: &[u8], last: bool) {
        match &self.alg {
            Alg::Md5 => {
                let t = md5_table();
                let x: Vec<u32> = blk.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                let (mut a, mut b, mut c, mut d) = (self.h32[0], self.h32[1], self.h32[2], self.h32[3]);
                const R: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
                for i in 0..64 {
                    let (f, k) = match i / 16 {
                        0 => ((b & c) | (!b & d), i),
                        1 => ((b & d) | (c & !d), (1 + 5 * i) & 15),
                        2 => (b ^ c ^ d, (5 + 3 * i) & 15),
                        _ => (c ^ (b | !d), (7 * i) & 15),
                    };
                    let n = b.wrapping_add(
                        a.wrapping_add(f).wrapping_add(x[k]).wrapping_add(t[i]).rotate_left(R[i / 16][i % 4]),
                    );
                    a = d;
                    d = c;
                    c = b;
                    b = n;
                }
                for (h, v) in self.h32.iter_mut().zip([a, b, c, d]) {
                    *h = h.wrapping_add(v)
                }
            }
            Alg::Sha1 => {
                let mut w = [0u32; 80];
                for i in 0..16 {
                    w[i] = u32::from_be_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
                }
                for i in 16..80 {
                    w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
                }
                let [mut a, mut b, mut c, mut d, mut e, ..] = self.h32;
                for i in 0..80 {
                    let (f, k) = match i / 20 {
                        0 => (d ^ (b & (c ^ d)), 0x5a827999u32),
                        1 => (b ^ c ^ d, 0x6ed9eba1),
                        2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                        _ => (b ^ c ^ d, 0xca62c1d6),
                    };
                    let n = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
                    e = d;
                    d = c;
                    c = b.rotate_left(30);
                    b = a;
                    a = n;
                }
                for (h, v) in self.h32.iter_mut().zip([a, b, c, d, e]) {
                    *h = h.wrapping_add(v)
                }
            }
            Alg::B2b { .. } => {
                let mut m = [0u64; 16];
                for i in 0..16 {
                    let mut w = [0; 8];
                    w.copy_from_slice(&blk[8 * i..8 * i + 8]);
                    m[i] = u64::from_le_bytes(w);
                }
                let mut v = [0u64; 16];
                v[..8].copy_from_slice(&self.h64);
                v[8..].copy_from_slice(&IV64);
                v[12] ^= self.total as u64;
                v[13] ^= (self.total >> 64) as u64;
                if last {
                    v[14] = !v[14]
                }
                for r in 0..12 {
                    let s = &SIG[r % 10];
                    for g in 0..8 {
                        let (a, b, c, d) = G[g];
                        let (x, y) = (m[s[2 * g] as usize], m[s[2 * g + 1] as usize]);
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                        v[d] = (v[d] ^ v[a]).rotate_right(32);
                        v[c] = v[c].wrapping_add(v[d]);
                        v[b] = (v[b] ^ v[c]).rotate_right(24);
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                        v[d] = (v[d] ^ v[a]).rotate_right(16);
                        v[c] = v[c].wrapping_add(v[d]);
                        v[b] = (v[b] ^ v[c]).rotate_right(63);
                    }
                }
                for i in 0..8 {
                    self.h64[i] ^= v[i] ^ v[i + 8]
                }
            }
            Alg::B2s { .. } => {
                let mut m = [0u32; 16];
                for i in 0..16 {
                    m[i] = u32::from_le_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
                }
                let mut v = [0u32; 16];
                v[..8].copy_from_slice(&self.h32);
                for i in 0..8 {
                    v[8 + i] = (IV64[i] >> 32) as u32;
                }
                v[12] ^= self.total as u32;
                v[13] ^= (self.total >> 32) as u32;
                if last {
                    v[14] = !v[14]
                }
                for r in 0..10 {
                    let s = &SIG[r];
                    for g in 0..8 {
                        let (a, b, c, d) = G[g];
                        let (x, y) = (m[s[2 * g] as usize], m[s[2 * g + 1] as usize]);
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                        v[d] = (v[d] ^ v[a]).rotate_right(16);
                        v[c] = v[c].wrapping_add(v[d]);
                        v[b] = (v[b] ^ v[c]).rotate_right(12);
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                        v[d] = (v[d] ^ v[a]).rotate_right(8);
                        v[c] = v[c].wrapping_add(v[d]);
                        v[b] = (v[b] ^ v[c]).rotate_right(7);
                    }
                }
                for i in 0..8 {
                    self.h32[i] ^= v[i] ^ v[i + 8]
                }
            }
        }
    }
}

const G: [(usize, usize, usize, usize); 8] = [
    (0, 4, 8, 12),
    (1, 5, 9, 13),
    (2, 6, 10, 14),
    (3, 7, 11, 15),
    (0, 5, 10, 15),
    (1, 6, 11, 12),
    (2, 7, 8, 13),
    (3, 4, 9, 14),
];

/// RFC 2104 over any digest.
pub fn ref_hmac(digest: &dyn Fn(&[u8]) -> Vec<u8>, block: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { digest(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend(digest(&inner));
    digest(&outer)
}

/// RFC 5869: the first `len` bytes of the output keying material.
pub fn ref_hkdf(
    digest: &dyn Fn(&[u8]) -> Vec<u8>,
    block: usize,
    salt: &[u8],
    ikm: &[u8],
    info: &[u8],
    len: usize,
) -> Vec<u8> {
    let prk = ref_hmac(digest, block, salt, ikm);
    let mut okm = vec![];
    let mut t = vec![];
    let mut i = 1u32;
    while okm.len() < len {
        assert!(i <= 255);
        let mut x = t.clone();
        x.extend_from_slice(info);
        x.push(i as u8);
        t = ref_hmac(digest, block, &prk, &x);
        okm.extend_from_slice(&t);
        i += 1;
    }
    okm.truncate(len);
    okm
}

/// Patterned message bytes, the same generator as in data/gen_vectors.py.
pub fn pattern(kind: usize, len: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => (0..len).map(|i| (i % 251) as u8).collect(),
        3 => {
            let mut x = 0x12345678u32;
            (0..len)
                .map(|_| {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    (x >> 24) as u8
                })
                .collect()
        }
        4 => vec![0x80; len],
        _ => (0..len).map(|i| if i % 2 == 0 { 0x36 } else { 0x5c }).collect(),
    }
}

pub const PATTERNS: usize = 6;

/// Validate the reference against hashlib. A failure is an error of the machinery, not a violation.
pub fn self_test() {
    let text = include_str!("data/vectors.txt");
    let mut n = 0;
    for line in text.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        let (out, klen, kind, len): (usize, usize, usize, usize) =
            (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].parse().unwrap());
        let key = pattern(3, klen);
        let msg = pattern(kind, len);
        let got = match f[0] {
            "md5" => Alg::Md5.digest(&msg),
            "sha1" => Alg::Sha1.digest(&msg),
            "b2b" => Alg::B2b { out, key }.digest(&msg),
            "b2s" => Alg::B2s { out, key }.digest(&msg),
            "hmacmd5" => ref_hmac(&|m| Alg::Md5.digest(m), 64, &key, &msg),
            "hmacsha1" => ref_hmac(&|m| Alg::Sha1.digest(m), 64, &key, &msg),
            "hkdfsha1" => ref_hkdf(&|m| Alg::Sha1.digest(m), 64, &key, &msg, &pattern(2, 10), out),
            _ => panic!(),
        };
        if hex(&got) != f[5] {
            eprintln!("the reference hash implementation fails its own vectors: {}", line);
            std::process::exit(4);
        }
        n += 1;
    }
    assert!(n > 200);
}
