"""Symbolic assembled values agree with concrete ones."""
from ..core import Sub, require
from ..hyp import st
from .. import gens as g
from ..smt import ev, term

from hwtypes import Bit, BitVector, SMTBitVector, SMTBit
from peak.assembler import Assembler as Asm1
from peak.assembler.assembled_adt import AssembledADT as AADT1
from peak.assembler2.assembler import Assembler as Asm2
from peak.assembler2.assembled_adt import AssembledADT as AADT2

PID = 'A07'
ASSUMPTIONS = ['types with parts of no bits are not covered (the SMT bit vectors of hwtypes have at least one)']
VERS = {'v1': (AADT1, Asm1), 'v2': (AADT2, Asm2)}


def uint(x):
    return int(x) if isinstance(x, Bit) else x.as_uint()


def reads(ver, types, spec, x, out, path=()):
    """everything that can be read off an assembled value: [(what, value)]"""
    k = spec[0]
    if k in g.LEAVES:
        out.append((path + ('leaf',), x))
        return
    A, Asm = VERS[ver]
    out.append((path + ('valid',), Asm(types(spec)).is_valid(x._to_bitvector_())))
    out.append((path + ('bits',), x._to_bitvector_()))
    for key, s in g.fields(spec):
        f = getattr(x, key) if k in ('prod', 'tu') else x[types.key(spec, key)]
        if k in ('sum', 'tu'):
            out.append((path + (key, 'match'), f.match))
            f = f.value
        reads(ver, types, s, f, out, path + (key,))


def chain(v, ops):
    """a term that takes every value"""
    for op, k in ops:
        v = v ^ k if op == 'xor' else v + k if op == 'add' else ~v
    return v


def back(a, ops, mask):
    for op, k in reversed(ops):
        a = a ^ k if op == 'xor' else a - k if op == 'add' else ~a
        a &= mask
    return a


def run(case, ctx):
    spec, pairs, vals, xops, yops = case
    types = g.Types()
    T = types(spec)
    w = g.width(spec)
    for ver, (A, Asm) in VERS.items():
        ST, CT = A[T, Asm, SMTBitVector], A[T, Asm, BitVector]
        if spec[0] in g.LEAVES:
            return
        sx, sy = SMTBitVector[w](), SMTBitVector[w]()
        ox, oy = chain(sx, xops), chain(sy, yops)
        mask = (1 << w) - 1
        X, Y = ST(ox), ST(oy)
        sym = []
        reads(ver, types, spec, X, sym)
        symy = []
        reads(ver, types, spec, Y, symy)
        cvals = [types.value(spec, v) for v in vals]
        eqs = [('==', X == Y), ('!=', X != Y), ('== opcode', X == oy), ('!= opcode', X != oy)]
        eqs += [(f'== {v}', X == v) for v in cvals] + [(f'!= {v}', X != v) for v in cvals]
        consts = [ST(v) for v in cvals]
        for v, c in zip(cvals, consts):
            require(ev(c._to_bitvector_(), {}) == int(Asm(T).assemble(v)), ver, 'symbolic constant of', v)
        eqs += [('== const', X == c) for c in consts]
        for a, b in pairs:
            env = {term(sx): back(a, xops, mask), term(sy): back(b, yops, mask)}
            x, y = CT(BitVector[w](a)), CT(BitVector[w](b))
            con = []
            reads(ver, types, spec, x, con)
            require([p for p, _ in con] == [p for p, _ in sym], ver, 'different reads')
            for (p, s), (_, c) in zip(sym, con):
                require(ev(s, env) == uint(c), ver, T, 'at', p, 'of', a, ':', ev(s, env), 'vs', c)
            cony = []
            reads(ver, types, spec, y, cony)
            for (p, s), (_, c) in zip(symy, cony):
                require(ev(s, env) == uint(c), ver, T, 'at', p, 'of', b, ':', ev(s, env), 'vs', c)
            ceqs = [x == y, x != y, x == y._to_bitvector_(), x != y._to_bitvector_()]
            ceqs += [x == v for v in cvals] + [x != v for v in cvals] + [x == CT(v) for v in cvals]
            for (n, s), c in zip(eqs, ceqs):
                require(ev(s, env) == int(bool(c)), ver, T, a, n, b, ':', ev(s, env), 'vs', c)
            ctx.count(len(con) + len(ceqs))
        built(ver, A, Asm, types, spec, vals, ctx)
    ctx.nontrivial = g.depth(spec) >= 1 and len(pairs) >= 2


def built(ver, A, Asm, types, spec, vals, ctx):
    """values built from symbolic fields"""
    k = spec[0]
    if k not in g.COMPOSITE:
        return
    T = types(spec)
    ST, CT = A[T, Asm, SMTBitVector], A[T, Asm, BitVector]
    for v in vals:
        parts = zip(g.fields(spec), v) if k in ('prod', 'tup') else [(g.fields(spec)[v[0]], v[1])]
        env, sargs, cargs = {}, [], []
        for (key, s), x in parts:
            sub = SMTBitVector[g.width(s)]()
            op = int(Asm(types(s)).assemble(types.value(s, x)))
            env[term(sub)] = op
            if s[0] == 'bit':
                sub, c = sub[0], BitVector[1](op)[0]
            else:
                FT = A[types(s), Asm, SMTBitVector]
                sub, c = FT(sub), A[types(s), Asm, BitVector](BitVector[g.width(s)](op))
            sargs.append((key, sub))
            cargs.append((key, c))
        if k == 'sum':
            key = types.key(spec, sargs[0][0])
            S, C = ST.from_fields(key, sargs[0][1]), CT.from_fields(key, cargs[0][1])
        elif k == 'tup':
            S, C = ST.from_fields(*[x for _, x in sargs]), CT.from_fields(*[x for _, x in cargs])
        else:
            S, C = ST.from_fields(**dict(sargs)), CT.from_fields(**dict(cargs))
        out_s, out_c = [], []
        reads(ver, types, spec, S, out_s)
        reads(ver, types, spec, C, out_c)
        for (p, a), (_, b) in zip(out_s, out_c):
            b = uint(b)
            require(ev(a, env) == b, ver, T, 'built from fields', v, 'at', p, ':', ev(a, env), 'vs', b)
        for u in vals:
            x = types.value(spec, u)
            c = int(g.canon(u) == g.canon(v))
            require(ev(S == x, env) == c and ev(S == ST(x), env) == c and ev(S != x, env) == 1 - c, ver, T,
                    'built from fields of', v, 'compared with', u)
        ctx.count(len(out_s) + len(vals))


@st.composite
def gen(draw, large=False):
    spec = draw(g.big_specs(zero=False) if large else
                g.specs(max_depth=3, max_width=14, zero=False, top=g.COMPOSITE + ('enum',), max_fields=4))
    w = g.width(spec)
    if g.has_zero(spec):
        spec = ['tup', [['bv', 2], ['enum', 'E', [['a', 1], ['b', 2]]]]]
        w = 4
    types = g.Types()
    vals = draw(st.lists(g.values(spec), min_size=1, max_size=3))
    asm = Asm1(types(spec))
    ops = [int(asm.assemble(types.value(spec, v))) for v in vals]
    op = st.one_of(st.integers(0, (1 << w) - 1), st.sampled_from(ops),
                   st.builds(lambda o, b: o ^ (1 << b), st.sampled_from(ops), st.integers(0, w - 1)))
    pairs = draw(st.lists(st.tuples(op, op), min_size=1, max_size=5))
    pairs.append((ops[0], ops[0]))
    step = st.tuples(st.sampled_from(['xor', 'add', 'not']), st.integers(0, (1 << w) - 1))
    chains = st.one_of(st.just([]), st.lists(step, min_size=1, max_size=10))
    return [spec, pairs, vals, draw(chains), draw(chains)]


SUBS = [
    Sub('agree', gen, run, 'random ADT of depth<=3, <=14 bits; validity, every field and match, ==, != of symbolic '
        'opcodes (variables and compound terms), and values built from symbolic fields, at 2..6 pairs of random, valid and near valid opcodes; non-trivial: '
        'composite', quick=1280, quick_s=24),
    Sub('large', lambda: gen(large=True), run, 'types of up to 180 bits, 5 deep, with leaves of up to 65 bits, up to 40 fields, options or members, as above', quick=80),
]
