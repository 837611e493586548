"""independent SHA-256 compression function and midstate"""


def _primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _frac_root(p, r):
    """first 32 bits of the fractional part of the r-th root of p"""
    lo, hi = 0, p << 32
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** r <= p << (32 * r):
            lo = m
        else:
            hi = m
    return lo & 0xffffffff


IV = b''.join([_frac_root(p, 2).to_bytes(4, 'big') for p in _primes(8)])
K = [_frac_root(p, 3) for p in _primes(64)]


def _rotr(x, n):
    return (x >> n | x << (32 - n)) & 0xffffffff


def compress(state, block):
    w = [int.from_bytes(block[4 * i:4 * i + 4], 'big') for i in range(16)]
    for i in range(16, 64):
        a, b = w[i - 15], w[i - 2]
        w.append((w[i - 16] + (_rotr(a, 7) ^ _rotr(a, 18) ^ a >> 3) + w[i - 7]
                  + (_rotr(b, 17) ^ _rotr(b, 19) ^ b >> 10)) & 0xffffffff)
    v = [int.from_bytes(state[4 * i:4 * i + 4], 'big') for i in range(8)]
    s = list(v)
    for i in range(64):
        a, b, c, d, e, f, g, h = s
        t1 = h + (_rotr(e, 6) ^ _rotr(e, 11) ^ _rotr(e, 25)) + (e & f ^ ~e & g) + K[i] + w[i]
        t2 = (_rotr(a, 2) ^ _rotr(a, 13) ^ _rotr(a, 22)) + (a & b ^ a & c ^ b & c)
        s = [(t1 + t2) & 0xffffffff, a, b, c, (d + t1) & 0xffffffff, e, f, g]
    return b''.join([((x + y) & 0xffffffff).to_bytes(4, 'big') for x, y in zip(v, s)])


def midstate(block):
    """state after one 64-byte block"""
    assert len(block) == 64
    return compress(IV, block)
