"""The float library against exact arithmetic and against the number library it wraps."""
from fractions import Fraction

from ..core import Sub, require, Violation
from ..hyp import st
from ..fpref import Fmt

import hwtypes as hw
from hwtypes import RoundingMode as HR
from hwtypes.adt import Product
from peak import family as fam
from peak.float import float_lib_gen, RoundingMode as RM
from peak.black_box import BlackBox

PID = 'L01'
ASSUMPTIONS = ['hwtypes.FPVector computes each operation as its mode says (it is itself compared with exact rationals here, '
               'except in mode RMM, which it takes as away from zero, and for results too small for formats without '
               'subnormals)']

HM = {'RNE': HR.RNE, 'RTZ': HR.RTZ, 'RDN': HR.RTN, 'RUP': HR.RTP, 'RMM': HR.RNA}
UNARY = ['abs', 'neg', 'sqrt', 'round_to_integral']
PRED = ['is_normal', 'is_subnormal', 'is_zero', 'is_infinite', 'is_NaN', 'is_negative', 'is_positive']
BINARY = ['add', 'sub', 'mul', 'div', 'rem', 'min', 'max']
CMP = ['leq', 'lt', 'geq', 'gt', 'eq']
ARITY = {**{o: 1 for o in UNARY + PRED}, **{o: 2 for o in BINARY + CMP}, 'fma': 3}


def closure(lib, op):
    return getattr(lib, op.capitalize() + '_fc')


def canon(F, r):
    """bits of a float, NaNs being equal, or a truth value"""
    if isinstance(r, (hw.Bit, bool)):
        return bool(r)
    require(isinstance(r, hw.BitVector), 'result', repr(r))
    return 'nan' if F.decode(int(r))[0] == 'nan' else int(r)


def attempt(f):
    try:
        return f()
    except Exception as e:
        return f'{type(e).__name__}'


def same(F, ieee, a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = canon(F, a), canon(F, b)
    if a == b:
        return True
    # formats without NaN have infinities of any sign in its place
    return not ieee and all(not isinstance(x, (bool, str)) and F.decode(x)[1] == 'inf' for x in (a, b))


def exact(F, op, mode, vals, ieee):
    """what the exact result rounds to, where that is known"""
    dec = [F.decode(v) for v in vals]
    v, kinds = [d[0] for d in dec], [d[1] for d in dec]
    if not ieee and 'nan' in kinds:
        return None    # such formats have no NaN
    if op == 'is_NaN':
        return v[0] == 'nan'
    if op == 'is_infinite':
        return kinds[0] == 'inf'
    if not ieee and 'subnormal' in kinds:
        return None
    if op in ('is_normal', 'is_subnormal', 'is_zero'):
        return None if kinds[0] == 'nan' else kinds[0] == op[3:]
    if op in ('is_negative', 'is_positive'):
        if kinds[0] == 'nan':
            return False
        if kinds[0] == 'inf':
            return (v[0] == '-inf') == (op == 'is_negative')
        return v[0] < 0 if op == 'is_negative' else v[0] > 0
    if op in CMP:
        if 'nan' in kinds:
            return False
        big = F.max * 4
        a, b = [{'inf': big, '-inf': -big}.get(x, x) if isinstance(x, str) else x for x in v]
        return {'leq': a <= b, 'lt': a < b, 'geq': a >= b, 'gt': a > b, 'eq': a == b}[op]
    if not all(isinstance(x, Fraction) for x in v):
        return None
    if op == 'neg':
        return -v[0]
    if op == 'abs':
        return abs(v[0])
    if op in ('min', 'max'):
        return {'min': min, 'max': max}[op](v)
    if mode == 'RMM' or op in ('rem', 'round_to_integral'):
        return None
    if op == 'div':
        if v[1] == 0:
            return None
        q = v[0] / v[1]
    elif op == 'sqrt':
        if v[0] < 0:
            return None
        q = F.sqrt(v[0])
    else:
        q = {'add': lambda: v[0] + v[1], 'sub': lambda: v[0] - v[1], 'mul': lambda: v[0] * v[1],
             'fma': lambda: v[0] * v[1] + v[2]}[op]()
    r, kind = F.round(q, mode)
    return None if kind == 'tiny' and not ieee else r


def run(case, ctx):
    (e, f), ieee, op, mode, rows, rewritten = case
    F = Fmt(e, f)
    w = 1 + e + f
    lib = float_lib_gen(e, f, ieee) if ieee else float_lib_gen(e, f)
    rm = getattr(RM, mode)
    var, con = closure(lib, op), closure(lib.const_rm(rm), op)
    T = hw.FPVector[e, f, HM[mode], bool(ieee)]
    D = hw.BitVector[w]
    Out = hw.Bit if op in PRED + CMP else D
    for C, k in ((var.Py, 1), (con.Py, 0)):
        ts = list(C.input_t.field_dict.values())
        require(ts == [RM] * k + [D] * ARITY[op], f'{op}: inputs are {ts}')
        require(list(C.output_t.field_dict.values()) == [Out], f'{op}: outputs are {C.output_t}')
    require(issubclass(var.Py, BlackBox), f'{op} is no black box')
    comps = [('with a mode input', var.Py(), rm), ('with a built in mode', con.Py(), None)]
    if rewritten:
        X = fam.PyXFamily()
        comps += [('with a mode input, rewritten', var.PyX(), X.get_adt_t(RM)(rm)),
                  ('with a built in mode, rewritten', con.PyX(), None)]
    for row in rows:
        vals = [x & ((1 << w) - 1) for x in row[:ARITY[op]]]
        if not ieee:
            # such formats have no NaN
            vals = [x >> f << f if F.decode(x)[0] == 'nan' else x for x in vals]
        args = [D(v) for v in vals]
        fs = [T.reinterpret_from_bv(a) for a in args]

        def library():
            r = getattr(fs[0], 'fp_' + op)(*fs[1:])
            return r if Out is hw.Bit else r.reinterpret_as_bv()
        want = attempt(library)
        ex = exact(F, op, mode, vals, ieee)
        for what, c, m in comps:
            got = attempt(lambda: c(*(() if m is None else (m,)), *args))
            require(same(F, ieee, got, want), f'{op} {what} {mode} of {vals} ({e},{f},{ieee}) is {got}, not {want}')
            if ex is not None:
                val = got if isinstance(got, str) else bool(got) if Out is hw.Bit else F.decode(int(got))[0]
                require(val == ex, f'{op} {what} {mode} of {vals} ({e},{f},{ieee}) is {val}, exactly {ex}')
                ctx.count()
            ctx.count()
        if ex is not None:
            ctx.nontrivial = True
    ctx.label(mode)
    ctx.label('rewritten' if rewritten else 'plain')


SMALL = [[3, 2], [3, 4], [4, 3]]


@st.composite
def gen(draw, rewritten):
    fmt = draw(st.sampled_from(SMALL[:2]) if rewritten else
               st.one_of(st.sampled_from(SMALL + [[5, 10], [8, 7], [8, 23], [2, 1]]),
                         st.tuples(st.integers(2, 6), st.integers(1, 12))))
    e, f = fmt
    w = 1 + e + f
    s = st.integers(0, 1).map(lambda b: b << (w - 1))
    # exponents near each other, extremes, and near ties
    x = st.one_of(st.integers(0, (1 << e) - 1), st.integers(max(0, (1 << (e - 1)) - 3), (1 << (e - 1)) + 1),
                  st.sampled_from([0, 1, (1 << e) - 2, (1 << e) - 1]))
    m = st.one_of(st.integers(0, (1 << f) - 1), st.sampled_from([0, 1 % (1 << f), (1 << f) - 1, 1 << (f - 1)]))
    val = st.one_of(st.integers(0, (1 << w) - 1), st.tuples(s, x, m).map(lambda t: t[0] | t[1] << f | t[2]))
    op = draw(st.sampled_from(sorted(ARITY) + ['add', 'mul', 'fma', 'div', 'sub', 'sqrt'] * 2))
    mode = draw(st.sampled_from(sorted(HM)))
    rows = draw(st.lists(st.lists(val, min_size=3, max_size=3), min_size=1, max_size=6))
    return [list(fmt), draw(st.booleans()) if not rewritten else fmt == [3, 4], op, mode, rows, rewritten]


REG = [[[3, 4], True, op, mode, [[0x13, 0x31, 0x25], [0x93, 0x31, 0], [0x31, 0xb3, 0x11]], True]
       for op in ('fma', 'is_zero', 'is_negative', 'add') for mode in sorted(HM)]

SUBS = [
    Sub('executed', lambda: gen(False), run, 'every operation x rounding mode x random formats x values around extremes and '
        'ties; non-trivial: some result is compared with exact arithmetic', quick=12000, quick_s=18),
    Sub('rewritten', lambda: gen(True), run, 'the same, also through the rewritten family, on two small formats', quick=1200,
        quick_s=12, regressions=REG),
]
