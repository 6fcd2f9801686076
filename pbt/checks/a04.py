"""Published layouts and sub assembler paths."""
from ..core import Sub, require
from ..hyp import st
from .. import gens as g

from hwtypes import BitVector
from peak.assembler import Assembler

PID = 'A04'


def static(types, spec, ctx):
    T = types(spec)
    asm = Assembler(T)
    w = asm.width
    lay = asm.layout
    k = spec[0]
    fs = g.fields(spec)
    for key, s in fs:
        lo, hi = lay[types.key(spec, key)]
        require(hi - lo == Assembler(types(s)).width, T, 'field', key, 'has', hi - lo, 'bits')
        require(0 <= lo <= hi <= w, T, 'field', key, 'at', (lo, hi), 'outside the word')
    if k in ('prod', 'tup'):
        require(set(lay) == {key for key, _ in fs}, T, 'layout has entries', list(lay))
        used = [0] * w
        for key, _ in fs:
            for b in range(*lay[key]):
                used[b] += 1
        require(all(u == 1 for u in used), T, 'fields do not tile the word', dict(lay))
    elif k in ('sum', 'tu'):
        tlo, thi = asm.tag_layout
        require(0 <= tlo <= thi <= w and thi - tlo == asm.tag_width, T, 'tag at', (tlo, thi))
        for key, _ in fs:
            lo, hi = lay[types.key(spec, key)]
            require(hi <= tlo or lo >= thi or lo == hi or tlo == thi, T, 'tag and payload', key, 'overlap')
    ctx.count(1 + len(fs))
    for _, s in fs:
        static(types, s, ctx)


def walk(types, spec, v):
    """(path, spec, value, active option key or None) of everything on the active path"""
    yield (), spec, v
    k = spec[0]
    if k in ('prod', 'tup'):
        for (key, s), x in zip(g.fields(spec), v):
            for p, a, b in walk(types, s, x):
                yield (key,) + p, a, b
    elif k in ('sum', 'tu'):
        key, s = g.fields(spec)[v[0]]
        for p, a, b in walk(types, s, v[1]):
            yield (types.key(spec, key),) + p, a, b


# what a sub assembler calls its own parts: such fields are only reached by item
OWN = {'asm', 'idx', 'tag_idx'}


def run(case, ctx):
    spec, vals = case
    types = g.Types()
    T = types(spec)
    asm = Assembler(T)
    static(types, spec, ctx)
    deepest = 0
    for v in vals:
        op = asm.assemble(types.value(spec, v))
        for path, s, x in walk(types, spec, v):
            deepest = max(deepest, len(path))
            sub = asm.sub[path]
            require(sub.asm.isa is types(s), 'the sub assembler at', path, 'is for', sub.asm.isa)
            a = Assembler(types(s))
            idx = sub.idx
            require(idx.stop - idx.start == a.width, 'width of', path)
            got = op[idx]
            want = a.assemble(types.value(s, x))
            require(got == want, 'bits', idx, 'of', op, 'at', path, 'are', got, 'not', want)
            # one step at a time, by item or by attribute
            cur, cur2 = asm.sub, asm.sub
            for p in path:
                cur = cur[p]
                cur2 = getattr(cur2, p) if isinstance(p, str) and p not in OWN else cur2[p]
            require(cur.idx == idx and cur2.idx == idx, 'stepwise access of', path)
            if s[0] in ('sum', 'tu'):
                key = types.key(s, g.fields(s)[x[0]][0])
                tag = op[sub.tag_idx]
                require(tag == a.assemble_tag(key, BitVector), 'tag at', path, 'is', tag)
            ctx.count(4)
    # paths that lead nowhere
    for path, s, x in walk(types, spec, vals[0]):
        sub = asm.sub[path]
        require(set(sub) == {types.key(s, k) for k, _ in g.fields(s)} if s[0] in g.COMPOSITE else True,
                'fields at', path)
        if s[0] in g.COMPOSITE:
            n = len(g.fields(s))
            require(len(list(sub)) == n and len(sub) == n and len(list(sub.items())) == n,
                    'sub assembler at', path, 'of', n, 'fields has length', len(sub), list(sub))
            for k, _ in g.fields(s):
                require(types.key(s, k) in sub, 'field', k, 'not in the sub assembler at', path)
            ctx.count(2)
        if s[0] in ('prod', 'tu'):
            for f in (lambda: sub['no_such_field'], lambda: asm.sub[path + ('no_such_field',)]):
                try:
                    r = f()
                except KeyError:
                    continue
                require(False, 'bad path accepted at', path, r)
            require(not hasattr(sub, 'no_such_field'), 'bad attribute accepted at', path)
        ctx.count()
    ctx.nontrivial = deepest >= 2
    ctx.label(f'deepest path {min(deepest, 4)}')


@st.composite
def gen(draw):
    spec = draw(g.specs(max_depth=4, max_width=28, top=g.COMPOSITE))
    return [spec, draw(st.lists(g.values(spec), min_size=1, max_size=6))]


@st.composite
def gen_large(draw):
    spec = draw(g.big_specs())
    return [spec, draw(st.lists(g.values(spec), min_size=1, max_size=3))]


SUBS = [
    Sub('layouts', gen, run, 'random ADT of depth<=4, <=28 bits, its layouts at every level, and every active path of '
        'up to 6 instructions; non-trivial: a path of >=2 steps', quick=3000),
    Sub('large', gen_large, run, 'types of up to 180 bits, 5 deep, with leaves of up to 65 bits, up to 40 fields, options or members x up to 3 '
        'instructions; non-trivial: a path of >=2 steps', quick=320),
]
