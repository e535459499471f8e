"""Primes the field checks are instantiated with: named ones and ones generated from the seed."""
import random

def is_prime(n):
    if n < 2:
        return False
    small = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]
    for p in small:
        if n == p:
            return True
        if n % p == 0:
            return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    rng = random.Random(n & 0xFFFFFFFF)
    for a in small + [rng.randrange(2, n - 1) for _ in range(12)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True

NAMED = {
    "bn128r": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bn128q": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "bls381q": 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787,
    "bls381r": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "secp256k1q": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F,
    "secp256k1r": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
    "goldilocks": 0xFFFFFFFF00000001,
    "mnt6753q": 41898490967918953402344214791240637128170709919953949071783502921025352812571106773058893763790338921418070971888458477323173057491593855069696241854796396165721416325350064441470418137846398469611935719059908164220784476160001,
    "mnt6753r": 41898490967918953402344214791240637128170709919953949071783502921025352812571106773058893763790338921418070971888253786114353726529584385201591605722013126468931404347949840543007986327743462853720628051692141265303114721689601,
    "ed25519": 2**255 - 19,
    "p384": 2**384 - 2**128 - 2**96 + 2**32 - 1,
    "p521": 2**521 - 1,
    "p192": 2**192 - 2**64 - 1,
    "m127": 2**127 - 1,
    "p128": 2**128 - 159,
    "p224": 2**224 - 2**96 + 1,
    "bls377q": 258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177,
}
assert all(is_prime(p) for p in NAMED.values())

def gen_prime(rng, bits):
    """A prime of exactly `bits` bits; the shape (dense, top-heavy, sparse, low limb 1) is drawn too."""
    while True:
        shape = rng.randrange(5)
        if shape == 0:                                    # uniformly random
            n = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
        elif shape == 1:                                  # just below a power of two
            n = (1 << bits) - rng.randrange(1, 1 << min(24, bits // 2), 2)
        elif shape == 2:                                  # just above a power of two
            n = (1 << (bits - 1)) + rng.randrange(1, 1 << min(24, bits // 2), 2)
        elif shape == 3 and bits > 72:                    # q = 1 mod 2^64 (Montgomery constant all ones)
            n = ((rng.getrandbits(bits - 64) | (1 << (bits - 65))) << 64) | 1
        else:                                             # limbs of zeros and ones
            n = 0
            while n.bit_length() < bits:
                n = (n << 64) | rng.choice([0, 2**64 - 1, 1, 2**63, rng.getrandbits(64)])
            n = (n & ((1 << bits) - 1)) | (1 << (bits - 1)) | 1
        for k in range(400):
            m = n + 2 * k
            if shape == 3 and bits > 72:
                m = n + (k << 64)
            if m.bit_length() == bits and is_prime(m):
                return m

def seeded(seed, count, lo=62, hi=768, salt=""):
    """`count` generated primes: bit lengths at limb boundaries and in between."""
    rng = random.Random("primes-%s-%s" % (seed, salt))
    out = []
    for i in range(count):
        if rng.random() < 0.6:
            limbs = rng.randint(max(1, lo // 64), hi // 64)
            bits = 64 * limbs + rng.choice([-2, -1, 0, 0, 1])
        else:
            bits = rng.randint(lo, hi)
        bits = max(lo, min(hi, bits))
        p = gen_prime(rng, bits)
        out.append(("rnd%d_%db" % (i, bits), p))
    return out

EDGE_TOPS = [2**63 - 2, 2**63 - 1, 2**63, 2**64 - 1, 1, 2**62]

def gen_top(rng, limbs, top):
    """A prime of `limbs` words with the given top word; the words below are all ones, all zeros or random."""
    low = 64 * (limbs - 1)
    while True:
        r = rng.randrange(3)
        m = (1 << low) - 1 - 2 * rng.randrange(1 << 20) if r == 0 else 1 + 2 * rng.randrange(1 << 20) if r == 1 else rng.getrandbits(low) | 1
        for k in range(400):
            q = (top << low) + m + (-2 * k if r == 0 else 2 * k)
            if q >> low == top and is_prime(q):
                return q

EDGE_LOWS = [1, 2**64 - 1, 2**63 + 1, 2**63 - 1, 2**32 + 1, 2**64 - 2**32 + 1]     # -1/q mod 2^64 is all ones, 1, ...

def gen_low(rng, limbs, low, spare):
    """A prime of `limbs` words with the given lowest word, with or without a spare top bit; some inner words 0 or all ones."""
    while True:
        q = rng.getrandbits(63 if spare else 64) | (1 << (62 if spare else 63))
        if spare:
            q &= 2**63 - 2**rng.randrange(62)
        for i in range(limbs - 2):
            q = (q << 64) | rng.choice([0, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(64)])
        for k in range(400):
            p = ((q + k) << 64) | low
            if p.bit_length() == 64 * limbs - (1 if spare else 0) and is_prime(p):
                return p

def gen_adic(rng, bits, s):
    """A prime of `bits` bits with q - 1 divisible by 2^s and by no higher power."""
    while True:
        q = ((rng.getrandbits(bits - s) | (1 << (bits - s - 1)) | 1) << s) + 1
        if is_prime(q):
            return q
