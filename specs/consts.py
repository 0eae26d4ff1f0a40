"""Derived constants: binary expansion of pi, affine matrices of the SEED and ARIA S-boxes."""
def pi_frac(bits):
    """floor(frac(pi) * 2^bits) by Machin's formula with guard bits"""
    g = 64
    one = 1 << (bits + g)
    def atan_inv(x):
        t = one // x; s = t; n = 3; x2 = x * x; sg = -1
        while t:
            t //= x2; s += sg * (t // n); sg = -sg; n += 2
        return s
    pi = 4 * (4 * atan_inv(5) - atan_inv(239))
    return (pi - 3 * one) >> g
SEED_COLS = ([44, 208, 105, 194, 65, 68, 88, 226], [208, 42, 225, 44, 33, 48, 162, 108])
ARIA_COLS = [172, 197, 18, 207, 91, 95, 133, 238]
