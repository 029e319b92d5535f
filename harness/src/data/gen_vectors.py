"""Vectors from CPython's hashlib/hmac that validate the reference implementations. usage: gen_vectors.py > vectors.txt"""
import hashlib, hmac

def pattern(kind, n):
    if kind == 0: return bytes(n)
    if kind == 1: return b'\xff' * n
    if kind == 2: return bytes(i % 251 for i in range(n))
    if kind == 3:
        x = 0x12345678; o = []
        for _ in range(n):
            x = (x * 1664525 + 1013904223) & 0xffffffff
            o.append(x >> 24)
        return bytes(o)
    if kind == 4: return b'\x80' * n
    return bytes(0x36 if i % 2 == 0 else 0x5c for i in range(n))

def hkdf(salt, ikm, info, n):
    prk = hmac.new(salt, ikm, 'sha1').digest()
    t = b''; o = b''; i = 1
    while len(o) < n:
        t = hmac.new(prk, t + info + bytes([i]), 'sha1').digest(); o += t; i += 1
    return o[:n]

LENS = [0, 1, 3, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 255, 256, 257, 1000]
for k in range(6):
    for n in LENS:
        m = pattern(k, n)
        print('md5 0 0', k, n, hashlib.md5(m).hexdigest())
        print('sha1 0 0', k, n, hashlib.sha1(m).hexdigest())
for out, kl in [(64, 0), (1, 0), (64, 64), (33, 1), (20, 63), (48, 32)]:
    for k in range(6):
        for n in LENS:
            print('b2b', out, kl, k, n, hashlib.blake2b(pattern(k, n), digest_size=out, key=pattern(3, kl)).hexdigest())
for out, kl in [(32, 0), (1, 0), (32, 32), (17, 1), (20, 31), (16, 16)]:
    for k in range(6):
        for n in LENS:
            print('b2s', out, kl, k, n, hashlib.blake2s(pattern(k, n), digest_size=out, key=pattern(3, kl)).hexdigest())
for kl in [0, 1, 63, 64, 65, 130]:
    for n in LENS:
        print('hmacmd5 0', kl, 3, n, hmac.new(pattern(3, kl), pattern(3, n), 'md5').hexdigest())
        print('hmacsha1 0', kl, 3, n, hmac.new(pattern(3, kl), pattern(3, n), 'sha1').hexdigest())
for out in [1, 19, 20, 21, 100, 5100]:
    for kl in [0, 20, 80]:
        print('hkdfsha1', out, kl, 3, 22, hkdf(pattern(3, kl), pattern(3, 22), pattern(2, 10), out).hex())
