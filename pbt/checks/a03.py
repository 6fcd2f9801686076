"""Encodings are the same whatever happened before and whatever the hash seed."""
from ..core import Sub, require
from ..hyp import st
from .. import gens as g
from ..smt import ev
from ..zygote import ask

from hwtypes import BitVector
from peak.assembler import Assembler as Asm1
from peak.assembler2.assembler import Assembler as Asm2

PID = 'A03'
ASSUMPTIONS = ['member types of a sum have distinct names (the encoding of equally named ones is not defined)']


def fingerprint(types, spec, limit=9):
    T = types(spec)
    fp = []
    for Asm in (Asm1, Asm2):
        asm = Asm(T)
        w = asm.width
        ops = range(1 << w) if w <= limit else [(i * 2654435761) & ((1 << w) - 1) for i in range(1 << limit)]
        vals = [v for v, _ in zip(g.all_values(spec), range(40))]
        fp.append([w, [int(asm.assemble(types.value(spec, v))) for v in vals],
                   ''.join(str(int(bool(asm.is_valid(BitVector[w](op))))) for op in ops)])
    fp.append(layouts(types, spec))
    return fp


def layouts(types, spec, bv=BitVector, code=int):
    fs = g.fields(spec)
    if not fs:
        return None
    asm = Asm1(types(spec))
    out = [list(asm.layout[types.key(spec, k)]) for k, _ in fs]
    if spec[0] in ('sum', 'tu'):
        out.append([list(asm.tag_layout)] + [code(asm.assemble_tag(types.key(spec, k), bv)) for k, _ in fs])
    return [out, [layouts(types, s, bv, code) for _, s in fs]]


def history(arg):
    """fingerprints of the types with the given indices, in that order"""
    specs, order = arg
    out = {}
    ts = [g.Types() for _ in specs]
    for i in order:
        f = fingerprint(ts[i], specs[i])
        if str(i) in out and out[str(i)] != f:
            raise AssertionError(f'type {i} changed its encoding')
        out[str(i)] = f
    return out


SEEDS = (1, 20201, 777)


def run(case, ctx):
    specs, orders, seeds = case
    want = [None] * len(specs)
    runs = [('process of the check', history([specs, list(range(len(specs)))]))]
    for order, seed in zip(orders, seeds):
        r = ask(SEEDS[seed], 'pbt.checks.a03', 'history', [specs, order])
        require(r[0] == 'ok', f'history {order} with hash seed {SEEDS[seed]}:', r[1])
        runs.append((f'history {order}, hash seed {SEEDS[seed]}', r[1]))
    for who, out in runs:
        for i, f in out.items():
            i = int(i)
            if want[i] is None:
                want[i] = (who, f)
            else:
                require(want[i][1] == f, f'encoding of type {i} differs between {want[i][0]} and {who}:',
                        want[i][1], f)
                ctx.count()
    ctx.nontrivial = len(specs) >= 2 and any(g.fields(s) for s in specs)


def variant(draw, spec):
    """a type that looks much like spec"""
    k = spec[0]
    if k == 'enum':
        vals = [v for _, v in spec[2]]
        how = draw(st.integers(0, 2))
        if how == 0:
            vals = draw(st.permutations(vals))
        elif how == 1:
            c = list(g.enum_codes(spec).values())
            vals = sorted(set(c[:-1] + [max(c) + draw(st.integers(1, 4))])) or [1]
        else:
            vals = vals[:-1] or [3]
        ms = [m for m, _ in spec[2]] + ['zz']
        e = ['enum', spec[1], [[m, v] for m, v in zip(ms, vals)]]
        return e
    if k in ('prod', 'tu'):
        fs = [list(f) for f in spec[2]]
        i = draw(st.integers(0, len(fs) - 1))
        how = draw(st.integers(0, 2))
        if how == 0:
            fs[i][1] = variant(draw, fs[i][1])
        elif how == 1:
            fs = [list(f) for f in draw(st.permutations(fs))]
        elif len(fs) > 1:
            del fs[i]
        return [k, spec[1], fs]
    if k == 'tup':
        return ['tup', list(draw(st.permutations(spec[1])))]
    if k == 'sum':
        subs = list(spec[1])
        if len(subs) > 1 and draw(st.booleans()):
            del subs[draw(st.integers(0, len(subs) - 1))]
        return ['sum', list(draw(st.permutations(subs)))]
    if k == 'bit':
        return ['bv', 1]
    return [k, spec[1] % 4 + 1]


def ok(spec):
    """no two types of the same name, or which can't be told apart, in one type"""
    names = {}

    def walk(s):
        if s[0] in ('enum', 'prod', 'tu'):
            if names.setdefault(s[1], g.canon(s)) != g.canon(s):
                return False
        if s[0] == 'sum' and len({g.shadow(x) for _, x in g.fields(s)}) != len(s[1]):
            return False
        return all(walk(x) for _, x in g.fields(s))
    return walk(spec) and g.width(spec) > 0


@st.composite
def gen(draw):
    specs = draw(st.lists(g.specs(max_depth=2, max_width=12, bits=3, max_fields=4), min_size=1, max_size=3))
    if draw(st.integers(0, 4)) == 0:
        s = draw(g.big_specs(max_depth=3, kinds=('prod', 'sum', 'sum', 'tu', 'tup')))
        specs += [s] if ok(s) else []
    for s in list(specs):
        if draw(st.booleans()):
            v = variant(draw, s)
            if ok(v):
                specs.append(v)
    n = draw(st.integers(1, 2))
    orders = []
    for _ in range(n):
        o = draw(st.permutations(range(len(specs))))
        orders.append(list(o[:draw(st.integers(1, len(o)))]))
    return [specs, orders, [draw(st.integers(0, len(SEEDS) - 1)) for _ in orders]]


def run_families(case, ctx):
    from peak import family as fam
    spec, vals = case
    types = g.Types()
    want = layouts(types, spec)
    Asm = Asm2(types(spec))
    for F, code in ((fam.SMTFamily(), lambda x: ev(x, {})), (fam.MagmaFamily(), lambda x: int(m_uint(x)))):
        T = g.Types(F, types)
        got = layouts(T, spec, F.BitVector, code)
        require(got == want, f'the layout of {types(spec)} is {want}, but {got} when declared in terms of {F}')
        require(Asm1(T(spec)).width == Asm2(T(spec)).width == Asm.width, 'width in', F)
        ctx.count(3)
    F = fam.SMTFamily()
    T = g.Types(F, types)
    asm = Asm2(T(spec))
    for v in vals:
        op = Asm.assemble(types.value(spec, v))
        same(types, spec, T, op, F.BitVector[Asm.width](int(op)), ctx)
    ctx.nontrivial = any(s[0] == 'sum' and len(s[1]) > 1 for s in subs(spec))


def subs(spec):
    out = [spec]
    for _, s in g.fields(spec):
        out += subs(s)
    return out


def same(types, spec, T, op, sym, ctx):
    """the second implementation reads the same fields from a constant of the other family"""
    fs = g.fields(spec)
    if not fs:
        return
    a, b = Asm2(types(spec)), Asm2(T(spec))
    for k, s in fs:
        ka, kb = types.key(spec, k), T.key(spec, k)
        if spec[0] in ('sum', 'tu') and g.width(spec) > g.width(s):
            require(int(bool(a.match(op, ka))) == ev(b.match(sym, kb), {}), f'match of {k} in {op} of {spec}')
        if g.width(s):
            x, y = a.extract(op, ka), b.extract(sym, kb)
            require(int(x) == ev(y, {}), f'{k} of {op} of {spec} is {x} but {y} in the SMT family')
            same(types, s, T, x, y, ctx)
        ctx.count()


def m_uint(x):
    import magma as m
    return m.uint(x)


@st.composite
def gen_families(draw):
    spec = draw(g.specs(max_depth=3, max_width=16, zero=False, kinds=('prod', 'sum', 'sum', 'tu', 'tup')))
    return [spec, draw(st.lists(g.values(spec), min_size=1, max_size=4))]


def _e(vals, name='E'):
    return ['enum', name, [[f'm{i}', v] for i, v in enumerate(vals)]]


SUBS = [
    Sub('histories', gen, run, '1..6 types (some near copies under the same name) encoded in different orders in '
        'fresh processes with different hash seeds; non-trivial: several types, one composite', quick=480,
        regressions=[
            # equal opcode sets of different widths
            [[['tu', 'U', [['a', ['bit']], ['b', ['bit']], ['c', ['bit']]]], _e([0, 1, 2])],
             [[0, 1], [1, 0], [0], [1]], [0, 1, 2, 0]],
            [[_e([0, 1, 2, 3]), ['tu', 'U', [[f'f{i}', ['bit']] for i in range(4)]], _e([0, 1, 2, 3, 7], 'F')],
             [[2, 1, 0], [0, 2, 1]], [0, 1]],
        ]),
    Sub('families', gen_families, run_families, 'types declared in terms of the SMT and the Magma family against those of the '
        'Python family: layouts, tags, matches and fields of constants; non-trivial: a sum of several options', quick=1600,
        regressions=[[['sum', [['enum', 'K1', [['a', 7]]], ['bv', 3], ['bv', 2]]], [[0, 'a'], [1, 3]]]]),
]
