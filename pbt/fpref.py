"""Exact reference for binary floating point."""
from fractions import Fraction
from math import isqrt

RNE, RTZ, RDN, RUP = 'RNE', 'RTZ', 'RDN', 'RUP'


class Fmt:
    def __init__(self, e, f):
        self.e, self.f = e, f
        self.bias = (1 << (e - 1)) - 1
        self.emin, self.emax = 1 - self.bias, self.bias
        self.max = Fraction((1 << (f + 1)) - 1) * two(self.emax - f)
        self.min_normal = two(self.emin)

    def split(self, bits):
        m = bits & ((1 << self.f) - 1)
        x = (bits >> self.f) & ((1 << self.e) - 1)
        return bits >> (self.e + self.f), x, m

    def decode(self, bits):
        """Fraction, 'inf', '-inf', 'nan', and the class of the number"""
        s, x, m = self.split(bits)
        if x == (1 << self.e) - 1:
            return ('nan', 'nan') if m else ('-inf' if s else 'inf', 'inf')
        if x == 0:
            v = Fraction(m) * two(self.emin - self.f)
            return (-v if s else v), 'subnormal' if m else 'zero'
        v = Fraction(m + (1 << self.f)) * two(x - self.bias - self.f)
        return (-v if s else v), 'normal'

    def round(self, q, mode, subnormal=True):
        """(value, kind): kind is exact|normal|tiny|overflow"""
        if q == 0:
            return Fraction(0), 'exact'
        a = abs(q)
        e = a.numerator.bit_length() - a.denominator.bit_length()
        while two(e) > a:
            e -= 1
        while two(e + 1) <= a:
            e += 1
        tiny = e < self.emin
        ulp = two(max(e, self.emin) - self.f)
        n, rest = divmod(a, ulp)
        n = int(n)
        up = False
        if rest:
            if mode == RNE:
                up = rest * 2 > ulp or rest * 2 == ulp and n % 2 == 1
            elif mode == RUP:
                up = q > 0
            elif mode == RDN:
                up = q < 0
        v = (n + up) * ulp
        if v > self.max:
            inf = mode == RNE or mode == RUP and q > 0 or mode == RDN and q < 0
            if inf:
                return ('inf' if q > 0 else '-inf'), 'overflow'
            v = self.max
            return (v if q > 0 else -v), 'overflow'
        return (v if q > 0 else -v), 'tiny' if tiny else 'normal' if rest else 'exact'

    def sqrt(self, q):
        """a rational that rounds like the square root"""
        k = 4 * (self.f + 4) + 4 * abs(q.numerator.bit_length() - q.denominator.bit_length())
        n = q * two(2 * k)
        i = isqrt(n.numerator // n.denominator)
        if Fraction(i * i) == n:
            return i * two(-k)
        return (2 * i + 1) * two(-k - 1)


def two(n):
    return Fraction(1 << n) if n >= 0 else Fraction(1, 1 << -n)
