"""Bindings of two flat interfaces against brute force."""
import itertools as it

from ..core import Sub, require
from ..hyp import st, assume
from .. import gens as g

from peak import Const
from peak.mapper.utils import create_bindings, Unbound

PID = 'M06'
POOL = [['bit'], ['bv', 2], ['bv', 3], ['s', 2], ['enum', 'E', [['a', 0], ['b', 2]]], ['enum', 'F', [['a', 0], ['b', 2]]]]
KEYS = ['a', 'b', 'x', 'in0', 0, 1, 2]


def run(case, ctx):
    arch, ir = case
    types = g.Types()

    def flat(leaves):
        out = {}
        for path, t, const in leaves:
            T = types(POOL[t])
            out[tuple(path)] = Const(T) if const else T
        return out
    A, I = flat(arch), flat(ir)
    before = dict(A), dict(I)
    got = create_bindings(A, I)
    require((dict(A), dict(I)) == before, 'the interfaces were changed')
    # independently: by equality of (type, const)
    ka = {tuple(p): (t, c) for p, t, c in arch}
    ki = {tuple(p): (t, c) for p, t, c in ir}
    want = set()
    ap = list(ka)
    for m in it.product(*[[i for i in ki if ki[i] == ka[a]] + [None] for a in ap]):
        if all(m.count(i) == 1 for i in ki):
            want.add(frozenset((i, a) for i, a in zip(m, ap)))
    seen = set()
    for b in got:
        pairs = [(None if i is Unbound else i, a) for i, a in b]
        require(len(pairs) == len(ap) and {a for _, a in pairs} == set(ap), f'{b} does not have each path once')
        f = frozenset(pairs)
        require(f not in seen, f'{b} is listed twice')
        require(f in want, f'{b} is no binding')
        seen.add(f)
        ctx.count()
    missing = want - seen
    require(not missing, 'missing', sorted(map(str, missing))[:3], f'of {len(want)}')
    ctx.nontrivial = len(ki) > 0 and len(ap) > 1
    ctx.label('none' if not want else 'one' if len(want) == 1 else 'many')


@st.composite
def gen(draw):
    path = st.lists(st.sampled_from(KEYS), min_size=1, max_size=2)
    ts = draw(st.lists(st.integers(0, len(POOL) - 1), min_size=1, max_size=3, unique=True))
    kinds = draw(st.lists(st.tuples(st.sampled_from(ts), st.booleans()), min_size=1, max_size=3))

    def leaves(lo, hi):
        ps = draw(st.lists(path, min_size=lo, max_size=hi, unique_by=tuple))
        return [[p, *draw(st.sampled_from(kinds))] for p in ps]
    arch = leaves(0, 6)
    # mostly leaves for which there is a partner
    if arch and draw(st.integers(0, 3)):
        sub = draw(st.lists(st.sampled_from(arch), max_size=4, unique_by=lambda x: tuple(x[0])))
        ps = draw(st.lists(path, min_size=len(sub), max_size=len(sub), unique_by=tuple))
        ir = [[p, *s[1:]] for p, s in zip(ps, sub)]
        if not draw(st.integers(0, 4)):
            ir += [x for x in leaves(0, 2) if x[0] not in ps]
    else:
        ir = leaves(0, 4)
    return [arch, ir]


@st.composite
def wide(draw):
    n = draw(st.integers(8, 14))
    k = draw(st.integers(0, 6))
    kinds = [(t, c) for t in range(len(POOL)) for c in (False, True)]
    ps = draw(st.lists(st.lists(st.one_of(st.integers(0, 12), st.sampled_from(KEYS)), min_size=1, max_size=3), min_size=n, max_size=n,
                       unique_by=tuple))
    start, step = draw(st.integers(0, 11)), draw(st.sampled_from([1, 5, 7, 11]))
    # each kind once or twice
    arch = [[p, *kinds[(start + step * i) % 12]] for i, p in enumerate(ps)]
    sub = draw(st.lists(st.sampled_from(arch), min_size=k, max_size=k, unique_by=lambda x: tuple(x[0])))
    qs = draw(st.permutations(ps))
    return [draw(st.permutations(arch)), [[q, *x[1:]] for q, x in zip(qs, sub)]]


SUBS = [Sub('bindings', gen, run, 'two flat interfaces of up to 6 and 5 leaves of bits, vectors, enums and Consts of these; '
            'non-trivial: two architecture leaves or more, one IR leaf or more', quick=12000, quick_s=12),
        Sub('wide', wide, run, 'two flat interfaces of 8..14 and up to 6 leaves, in nested tuples and products of up to 13 elements; '
            'non-trivial as above', quick=800, quick_s=10)]
