"""The deprecated generator of assemblers: round trip, width, injectivity and layout."""
import warnings

from ..core import Sub, require
from ..hyp import st
from .. import gens as g

from hwtypes import Bit, BitVector

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    from peak.auto_assembler import generate_assembler, get_width

PID = 'E02'


def bits(op, w):
    require(isinstance(op, (Bit, BitVector)), f'opcode {op!r}')
    require((1 if isinstance(op, Bit) else op.size) == w, f'opcode {op!r} is not {w} wide')
    return int(op) if isinstance(op, Bit) else op.as_uint()


def slices(types, spec, v, layout, w, base):
    """(type spec, value, where its bits are according to the layouts) of everything in v"""
    k = spec[0]
    if k == 'prod':
        require(list(layout) == [n for n, _ in spec[2]], f'layout {layout} of {spec}')
        at = 0
        for (n, s), x in zip(spec[2], v):
            lo, hi, l = layout[n]
            require(lo == at and hi <= w, f'{n} of {spec} is at {lo}:{hi}')
            at = hi
            yield s, x, base + lo, base + hi
            yield from slices(types, s, x, l, hi - lo, base + lo)
        require(at == w, f'fields of {spec} end at {at}, not {w}')
    elif k == 'sum':
        i, x = v
        s = spec[1][i]
        require(set(layout) == {types(o) for o in spec[1]}, f'layout {layout} of {spec}')
        lo, hi, l = layout[types(s)]
        require(0 < lo <= hi <= w, f'option {s} of {spec} is at {lo}:{hi}')
        yield s, x, base + lo, base + hi
        yield from slices(types, s, x, l, hi - lo, base + lo)


def run(case, ctx):
    spec, vals = case
    types = g.Types()
    T = types(spec)
    asm, dis, w, layout = generate_assembler(T)
    require(get_width(T) == w, f'width {w} of {T}')
    sub = {}
    seen = {}
    for v in vals:
        inst = types.value(spec, v)
        op = asm(inst)
        o = bits(op, w)
        back = dis(op)
        require(isinstance(back, T) and back == inst, f'{inst} of {spec} assembles to {op}, which is {back}')
        p = seen.setdefault(o, v)
        require(p == v, f'{p} and {v} share {op}')
        ctx.count(3)
        for s, x, lo, hi in slices(types, spec, v, layout, w, 0):
            c = g.canon(s)
            if c not in sub:
                sub[c] = generate_assembler(types(s))
            a, d, sw, _ = sub[c]
            require(sw == hi - lo, f'{s} is {sw} wide, but at {lo}:{hi}')
            want = bits(a(types.value(s, x)), sw)
            got = o >> lo & (1 << sw) - 1
            require(got == want, f'{s} at {lo}:{hi} of {op} is {got}, not {want}')
            ctx.count()
    if spec[0] == 'enum':
        for m, c in spec[2]:
            if c is not None:
                require(bits(asm(getattr(T, m)), w) == c, f'{m} is not {c}')
    ctx.nontrivial = bool(g.fields(spec)) and len(vals) > 1
    for k in ('sum', 'prod', 'enum', 's', 'bit'):
        if g.contains(spec, k):
            ctx.label(k)


@st.composite
def gen(draw, large=False):
    kinds = ('prod', 'sum')
    spec = draw((g.big_specs(kinds=kinds, top=kinds) if large else
                 g.specs(max_depth=3, max_width=20, kinds=kinds)).filter(lambda s: s[0] != 'tup'))
    if g.count(spec) <= 64 and draw(st.booleans()):
        vals = list(g.all_values(spec))
    else:
        vals = draw(st.lists(g.values(spec), min_size=1, max_size=10))
    return [spec, vals]


REG = [[['sum', [['bit'], ['bv', 2]]], [[0, 0], [0, 1], [1, 0], [1, 3]]],
       [['prod', 'P', [['a', ['s', 3]], ['b', ['u', 2]]]], [[7, 0], [4, 2]]]]
SUBS = [Sub('round_trip', gen, run, 'products, sums, enums, bits and vectors up to 3 deep x values (all of them for small types); '
            'non-trivial: composite type, two values or more', quick=6000, quick_s=15, regressions=REG),
        Sub('large', lambda: gen(large=True), run, 'types of up to 180 bits, 5 deep, with leaves of up to 65 bits, up to 40 fields, options or members, as above', quick=400)]
