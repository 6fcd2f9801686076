"""Rounding mode conversions."""
from ..core import Sub, require
from ..hyp import st
from ..smt import ev, term

import hwtypes as hw
from hwtypes import RoundingMode as HR
from peak import family as fam
from peak.float import RoudningMode_utils, RoundingMode as RM

PID = 'L02'
ASSUMPTIONS = ['pysmt substitutes and simplifies correctly']
CODES = {'RNE': 0, 'RTZ': 1, 'RDN': 2, 'RUP': 3, 'RMM': 4}       # RISC-V's frm
LIB = {'RNE': HR.RNE, 'RTZ': HR.RTZ, 'RDN': HR.RTN, 'RUP': HR.RTP, 'RMM': HR.RNA}
FAMS = {'Py': fam.PyFamily, 'PyX': fam.PyXFamily, 'SMT': fam.SMTFamily}


class Conv:
    """one family's conversions, on names and codes"""
    def __init__(self, name, symbolic):
        self.F = FAMS[name]()
        self.name, self.symbolic = name, symbolic and name == 'SMT'
        self.u = RoudningMode_utils(self.F)
        self.T = self.F.get_adt_t(RM)

    def to_bits(self, mode):
        rm = getattr(RM, mode)
        env = {}
        if self.name == 'Py':
            x = rm
        elif self.symbolic:
            bv = hw.SMTBitVector[3]()
            env[term(bv)] = CODES[mode]
            x = self.T(bv)
        else:
            x = self.T(rm)
        r = self.u.from_rm(x)
        require(isinstance(r, self.F.BitVector[3]), 'bits are', repr(r))
        return ev(r, env) if self.name == 'SMT' else int(r)

    def to_mode(self, code):
        env = {}
        if self.symbolic:
            x = hw.SMTBitVector[3]()
            env[term(x)] = code
        else:
            x = self.F.BitVector[3](code)
        r = self.u.to_rm(x)
        require(isinstance(r, self.T), 'mode is', repr(r))
        if self.name == 'Py':
            return r._name_
        got = ev(r, env) if self.name == 'SMT' else int(r._to_bitvector_())
        for m, c in CODES.items():
            if c == got:
                return m
        require(False, f'code {code} decodes to the invalid mode {got}')

    def to_lib(self, mode):
        return self.u.RM_to_RM_hwtypes(getattr(RM, mode))

    def from_lib(self, lib):
        return self.u.RM_hwtypes_to_RM(lib)._name_


def run(case, ctx):
    start, steps = case
    bits = None
    mode = None
    if isinstance(start, int):
        bits = start
    else:
        mode = start
    for name, sym, kind in steps:
        c = Conv(name, sym)
        if mode is None or kind == 'decode' and bits is not None:
            want = {v: k for k, v in CODES.items()}.get(bits, 'RMM')
            mode = c.to_mode(bits)
            require(mode == want, f'{name}: {bits} decodes to {mode}, not {want}')
            bits = None
        elif kind == 'lib':
            l = c.to_lib(mode)
            require(l == LIB[mode] and isinstance(l, HR), f'{name}: {mode} is {l} in the library, not {LIB[mode]}')
            back = Conv(name, sym).from_lib(l)
            require(back == mode, f'{name}: {l} is {back}, not {mode}')
        else:
            bits = c.to_bits(mode)
            require(bits == CODES[mode], f'{name}: {mode} encodes as {bits}, not {CODES[mode]}')
        ctx.count()
    ctx.nontrivial = len(steps) >= 2


steps = st.lists(st.tuples(st.sampled_from(sorted(FAMS)), st.booleans(), st.sampled_from(['encode', 'decode', 'decode', 'lib'])),
                 min_size=1, max_size=10)


def every(tier):
    out = []
    for f in FAMS:
        for sym in ((False, True) if f == 'SMT' else (False,)):
            out += [[code, [[f, sym, 'decode'], [f, sym, 'encode'], [f, sym, 'decode']]] for code in range(8)]
            out += [[m, [[f, sym, 'encode'], [f, sym, 'decode'], [f, sym, 'lib'], [f, sym, 'encode']]] for m in CODES]
    return out


SUBS = [Sub('conversions', lambda: st.tuples(st.one_of(st.integers(0, 7), st.sampled_from(sorted(CODES))), steps), run,
            'every code and mode in every family, then chains of up to 10 conversions hopping between families (symbolic or '
            'constant in SMT); non-trivial: a round trip', quick=1500, quick_s=6, exhaustive=every)]
