"""reference Blech32 / Blech32m, written as polynomial arithmetic over GF(32)

A string stands for the polynomial whose coefficients are the values of the expanded prefix and of the data; the checksum
makes it congruent to the constant modulo the degree-12 generator polynomial."""
CHARS = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
# x^12 = sum of G[k] * x^(11-k), coefficients in GF(32)
GEN = 0x7d52fba40bd886
M_CONST = {False: 1, True: 0x455972a3350f7a1}


def gf_mul(a, b):
    r = 0
    for i in range(5):
        if (b >> i) & 1:
            r ^= a << i
    for i in range(9, 4, -1):
        if (r >> i) & 1:
            r ^= 0b101001 << (i - 5)
    return r


def vec_mul(k, v):
    """multiply the twelve packed coefficients of v by k"""
    r = 0
    for i in range(12):
        r |= gf_mul(k, (v >> (5 * i)) & 31) << (5 * i)
    return r


# multiples of the generator by 1, 2, 4, 8, 16
ROWS = [vec_mul(1 << i, GEN) for i in range(5)]


def spread(bit, mask):
    """mask if bit else 0, without a branch"""
    r = 0
    for j in range(60):
        if (mask >> j) & 1:
            r = r | (bit << j)
    return r


def residue(vals):
    rem = 1
    for v in vals:
        top = rem >> 55
        rem = ((rem & ((1 << 55) - 1)) << 5) ^ v
        for i in range(5):
            rem = rem ^ spread((top >> i) & 1, ROWS[i])
    return rem


def expand(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def groups(prog):
    """bytes as 5-bit groups, last one padded with zero bits"""
    n = len(prog) * 8
    x = int.from_bytes(prog, 'big')
    pad = -n % 5
    x = x << pad
    k = (n + pad) // 5
    return [(x >> (5 * (k - 1 - i))) & 31 for i in range(k)]


def ref_data(hrp, v, prog):
    vals = [v] + groups(prog)
    r = residue(expand(hrp) + vals + [0] * 12) ^ M_CONST[v != 0]
    return vals + [(r >> (5 * (11 - i))) & 31 for i in range(12)]


def ref_encode(hrp, v, prog):
    s = hrp + '1'
    for d in ref_data(hrp, v, prog):
        s = s + CHARS[d]
    return s
