"""Assembled ADT values mirror ADT values."""
from ..core import Sub, require, raises
from ..hyp import st
from .. import gens as g

from hwtypes import BitVector, Bit, AbstractBitVector
from peak.assembler import Assembler as Asm1
from peak.assembler.assembled_adt import AssembledADT as AADT1
from peak.assembler import _TAG
from peak.assembler2.assembler import Assembler as Asm2
from peak.assembler2.assembled_adt import AssembledADT as AADT2

PID = 'A06'
ASSUMPTIONS = ['types of no bits at all are not covered']
VERS = {'v1': (AADT1, Asm1), 'v2': (AADT2, Asm2)}


def truth(b, *msg):
    require(isinstance(b, (Bit, bool)), 'a comparison gave', type(b), *msg)
    return bool(b)


class Side:
    def __init__(self, ver, types):
        self.ver, self.types = ver, types
        self.A, self.Asm = VERS[ver]

    def t(self, spec):
        return self.A[self.types(spec), self.Asm, BitVector]

    def get(self, spec, x, k):
        """field k of the assembled value x"""
        if spec[0] in ('prod', 'tu'):
            return getattr(x, k)
        return x[self.types.key(spec, k)]

    def construct(self, spec, v, depth=0):
        """assembled value built from its fields all the way down"""
        AT = self.t(spec)
        k = spec[0]
        if k in g.LEAVES:
            return AT(v)
        if k == 'enum':
            e = self.types.value(spec, v)
            return AT(e) if self.ver == 'v2' else AT.from_fields(e)
        if g.width(spec) == 0:
            return AT(self.types.value(spec, v))
        if k in ('prod', 'tup'):
            parts = [self.construct(s, x) for (_, s), x in zip(g.fields(spec), v)]
            if k == 'prod' and depth == 0:
                names = [n for n, _ in g.fields(spec)]
                r = AT.from_fields(**dict(zip(names, parts)))
                r2 = AT.from_fields(*parts)
                require(truth(r == r2), self.ver, 'positional and keyword construction differ', r, r2)
                return r
            return AT.from_fields(*parts)
        i, x = v
        key, s = g.fields(spec)[i]
        part = self.construct(s, x)
        return AT.from_fields(**{key: part}) if k == 'tu' else AT.from_fields(self.types.key(spec, key), part)


def check_value(side, spec, v, ctx):
    """all the ways to make the assembled value of v; and what reading it gives"""
    types = side.types
    AT, T = side.t(spec), types(spec)
    val = types.value(spec, v)
    asm = side.Asm(T)
    op = asm.assemble(val)
    if spec[0] in g.LEAVES:
        x = AT(val)
        require(isinstance(x, AT), type(x))
        require(int(x) == int(val), side.ver, 'leaf', x, val)
        return x
    a, b, c = AT(val), AT(op), side.construct(spec, v)
    d = AT(a)
    for x in (a, b, c, d):
        require(type(x) is AT, side.ver, 'type', type(x))
        for y in (a, b, c, d, val, op):
            require(truth(x == y), side.ver, T, v, ':', x, '==', y, 'is false')
            require(not truth(x != y), side.ver, T, v, ':', x, '!=', y, 'is true')
        require(hash(x) == hash(a), side.ver, 'hash of equal assembled values')
        require(x._to_bitvector_() == op, side.ver, 'opcode of', x)
    ctx.count(9)
    k = spec[0]
    if side.ver == 'v1' and k != 'enum' and g.width(spec):
        check_default(side, spec, v, op)
        ctx.count()
    for key, s in g.fields(spec):
        # the type of a field is the assembled type of the field
        F = getattr(AT, key) if k in ('prod', 'tu') else AT[types.key(spec, key)]
        require(F is side.t(s), side.ver, 'type of field', key, 'is', F)
    # values of no such type
    if k == 'enum' or side.ver == 'v2':
        raises(TypeError, AT, BitVector[g.width(spec) + 1](0))
        raises(TypeError, AT, object())
    if k in ('prod', 'tup'):
        for (key, s), x in zip(g.fields(spec), v):
            same(side, s, side.get(spec, a, key), x, f'field {key}')
            if k == 'prod' and side.ver == 'v1':
                same(side, s, a[key], x, f'field [{key}]')
            check_value(side, s, x, ctx)
            ctx.count()
    elif k in ('sum', 'tu'):
        n_on = 0
        for i, (key, s) in enumerate(g.fields(spec)):
            m = side.get(spec, a, key)
            on = truth(m.match)
            require(on == (i == v[0]), side.ver, T, v, 'match of', key, 'is', on)
            if on:
                same(side, s, m.value, v[1], f'option {key}')
                check_value(side, s, v[1], ctx)
            ctx.count()
        if k == 'sum' and side.ver == 'v1' and g.width(spec):
            r = AT.from_fields(types.key(spec, v[0]), types.value(g.fields(spec)[v[0]][1], v[1]))
            require(truth(r == a), 'construction from an unassembled member gives', r)
        if k == 'tu' and side.ver == 'v1' and g.width(spec):
            key, s = g.fields(spec)[v[0]]
            r = AT(**{key: types.value(s, v[1])})
            require(truth(r == a), 'construction from an unassembled member gives', r)
    return a


def check_default(side, spec, v, op):
    """bits that belong to no field are the given ones; explicit tags"""
    types, AT, fs = side.types, side.t(spec), g.fields(spec)
    asm = side.Asm(types(spec))
    vals = [types.value(s, x) for (_, s), x in zip(fs, v)] if spec[0] in ('prod', 'tup') else types.value(fs[v[0]][1], v[1])
    if spec[0] in ('prod', 'tup'):
        used = [asm.layout[k] for k, _ in fs]
        make = lambda **kw: AT.from_fields(*vals, **kw)
    else:
        key = types.key(spec, fs[v[0]][0])
        used = [asm.layout[key], asm.tag_layout]
        if spec[0] == 'tu':
            make = lambda **kw: AT.from_fields(**{key: vals}, **kw)
        else:
            make = lambda **kw: AT.from_fields(key, vals, **kw)
        tag = asm.assemble_tag(key, BitVector)
        a = AT(op)
        require(truth(a[_TAG] == tag) if spec[0] == 'sum' else truth(a._value_[slice(*asm.tag_layout)] == tag), 'tag of', a)
        if g.width(spec) > asm.tag_width > 0:
            require(truth(make(tag_bv=tag) == op), 'given the tag', make(tag_bv=tag), 'not', op)
    mask = 0
    for lo, hi in used:
        mask |= (1 << hi) - (1 << lo)
    n = g.width(spec)
    for d in (0, 1):
        w = int(make(default_bv=d)._to_bitvector_())
        want = int(op) & mask | ((1 << n) - 1 & ~mask if d else 0)
        require(w == want, f'{spec} of {v} with default {d} is {w:b}, not {want:b}')


def same(side, spec, x, v, what):
    AT = side.t(spec)
    val = side.types.value(spec, v)
    if spec[0] in g.LEAVES:
        require(isinstance(x, AT), side.ver, what, 'is a', type(x), 'not', AT)
        require(int(x) == int(val), side.ver, what, 'is', x, 'not', val)
    else:
        require(type(x) is AT, side.ver, what, 'is a', type(x), 'not', AT)
        require(truth(x == val), side.ver, what, 'is', x, 'not', val)
        require(x._to_bitvector_() == side.Asm(side.types(spec)).assemble(val), side.ver, what, 'is', x, 'not', val)


def run(case, ctx):
    spec, vals = case
    types = g.Types()
    for ver in VERS:
        side = Side(ver, types)
        AT = side.t(spec)
        objs = [check_value(side, spec, v, ctx) for v in vals]
        if spec[0] in g.LEAVES:
            continue
        for v1, x in zip(vals, objs):
            for v2, y in zip(vals, objs):
                eq = v1 == v2
                val = types.value(spec, v2)
                op = y._to_bitvector_()
                for z in (y, val, op):
                    require(truth(x == z) == eq, ver, x, '==', z, 'should be', eq, v1, v2)
                    require(truth(x != z) == (not eq), ver, x, '!=', z, 'should be', not eq, v1, v2)
                ctx.count(6)
    # wrong arity and unknown fields
    if spec[0] == 'prod':
        for ver in VERS:
            AT = Side(ver, types).t(spec)
            raises(Exception, AT.from_fields)
            x = AT(types.value(spec, vals[0]))
            raises(Exception, lambda: x.no_such_field)
    ctx.nontrivial = g.depth(spec) >= 1 and len({g.canon(v) for v in vals}) >= 2
    ctx.label('/'.join(sorted({s for s in g.COMPOSITE + ('enum',) if g.contains(spec, s)})))


@st.composite
def gen(draw, large=False):
    spec = draw(g.big_specs() if large else g.specs(max_depth=3, max_width=20))
    vals = draw(st.lists(g.values(spec), min_size=1, max_size=1 if large else 4))
    # a near copy of the first value
    vals.append(draw(mutate(spec, vals[0])))
    return [spec, vals]


@st.composite
def mutate(draw, spec, v):
    k = spec[0]
    if k in ('prod', 'tup'):
        i = draw(st.integers(0, len(v) - 1))
        return [draw(mutate(s, x)) if i == j else x for j, ((_, s), x) in enumerate(zip(g.fields(spec), v))]
    if k in ('sum', 'tu'):
        same_t = [i for i, (_, s) in enumerate(g.fields(spec)) if s == g.fields(spec)[v[0]][1] and i != v[0]]
        if same_t and draw(st.booleans()):
            return [draw(st.sampled_from(same_t)), v[1]]
        if draw(st.booleans()):
            return [v[0], draw(mutate(g.fields(spec)[v[0]][1], v[1]))]
    return draw(g.values(spec))


SUBS = [
    Sub('mirror', gen, run, 'random ADT of depth<=3, <=20 bits with 2..5 values, one a near copy of another, built in every '
        'way, read on every path and compared pairwise, by both implementations; non-trivial: composite, >=2 distinct '
        'values', quick=2000),
    Sub('large', lambda: gen(large=True), run, 'types of up to 180 bits, 5 deep, with leaves of up to 65 bits, up to 40 fields, options or members with 2 '
        'values, as above', quick=160),
]
