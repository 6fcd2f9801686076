"""The refinement loop against brute force over all assignments."""
import itertools as it

from ..core import Sub, require
from ..hyp import st, assume
from ..smt import const

import pysmt.shortcuts as sc
from pysmt.logics import BV
from pysmt import typing as ty
from peak.mapper.mapper import external_loop_solve, LoopException

PID = 'M11'
_names = it.count()

# formula ::= ["v", i] | ["c", k] | ["not", f] | ["and"|"or"|"xor"|"imp"|"iff", f, g]
#           | ["eq"|"ult"|"ule"|"slt", t, u];  term ::= ["v", i] | ["k", n, w] | [op, t, u] | ["bvnot", t] | ["ite", f, t, u]


def build(f, vs):
    k = f[0]
    b = lambda i: build(f[i], vs)
    if k == 'v':
        return vs[f[1]]
    if k == 'c':
        return sc.Bool(bool(f[1]))
    if k == 'k':
        return sc.BV(f[1], f[2])
    if k == 'not':
        return sc.Not(b(1))
    if k == 'bvnot':
        return sc.BVNot(b(1))
    if k == 'ite':
        return sc.Ite(b(1), b(2), b(3))
    op = dict(imp=sc.Implies, iff=sc.Iff, xor=sc.Xor, eq=sc.Equals, ult=sc.BVULT, ule=sc.BVULE, slt=sc.BVSLT,
              add=sc.BVAdd, sub=sc.BVSub, mul=sc.BVMul, bvand=sc.BVAnd, bvor=sc.BVOr, bvxor=sc.BVXor)
    op['and'], op['or'] = sc.And, sc.Or
    return op[k](b(1), b(2))


def val(f, env, ws):
    """(value, width) with width 0 for truth values"""
    k = f[0]
    if k == 'v':
        return env[f[1]], ws[f[1]]
    if k == 'c':
        return f[1], 0
    if k == 'k':
        return f[1], f[2]
    a, w = val(f[1], env, ws)
    if k == 'not':
        return 1 - a, 0
    if k == 'bvnot':
        return (1 << w) - 1 - a, w
    b, wb = val(f[2], env, ws)
    if k == 'ite':
        return (b, wb) if a else val(f[3], env, ws)
    if k in ('and', 'or', 'xor', 'imp', 'iff'):
        return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'imp': (1 - a) | b, 'iff': 1 - (a ^ b)}[k], 0
    if k in ('eq', 'ult', 'ule'):
        return int({'eq': a == b, 'ult': a < b, 'ule': a <= b}[k]), 0
    if k == 'slt':
        s = lambda x: x - (1 << w) if x >> (w - 1) else x
        return int(s(a) < s(b)), 0
    r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'bvand': a & b, 'bvor': a | b, 'bvxor': a ^ b}[k]
    return r % (1 << w), w


def run(case, ctx):
    ws, split, f, ninit, limit, solver, listed = case
    n = next(_names)
    vs = [sc.Symbol(f'm11_{n}_{i}', ty.BVType(w) if w else ty.BOOL) for i, w in enumerate(ws)]
    ys = [i for i in range(len(ws)) if split[i]]
    phi = build(f, vs)
    free = phi.get_free_variables()
    xs = [i for i in range(len(ws)) if not split[i] and vs[i] in free]
    dom = lambda i: range(2 if ws[i] == 0 else 1 << ws[i])
    good = set()
    n_x = 0
    for x in it.product(*[dom(i) for i in xs]):
        n_x += 1
        env = dict(zip(xs, x))
        if all(val(f, {**env, **dict(zip(ys, y))}, ws)[0] for y in it.product(*[dom(i) for i in ys])):
            good.add(x)
    calls = []

    def done(s, extra):
        calls.append(extra)
        out = []
        for i in xs:
            c = s.get_value(vs[i])
            require(c.is_constant(), 'solver has no value for', vs[i])
            out.append(int(c.constant_value()))
        return ('solved', tuple(out))
    token = object()
    y_arg = [vs[i] for i in ys]
    y_arg = y_arg if listed else set(y_arg)
    lim = None if limit == 'none' else n_x + 1 if limit == 'enough' else limit
    try:
        r = external_loop_solve(y_arg, phi, logic=BV, maxloops=lim, solver_name='z3', irmapper=token, num_initial_vectors=ninit,
                                rr_from_solver=done)
    except LoopException:
        require(lim is not None and lim <= n_x, f'gave up after {lim} iterations with {n_x} candidates')
        ctx.label('gave up')
        return
    ctx.count()
    if r is None:
        require(not good, f'no solution found, but {sorted(good)[:3]} of {xs} work')
        require(not calls, 'asked for a solution and returned none')
    else:
        require(r[0] == 'solved' and calls == [token], f'returned {r}, {calls}')
        require(r[1] in good, f'{r[1]} of {xs} does not work for all of {ys}; these do: {sorted(good)[:4]}')
    ctx.nontrivial = bool(xs) and bool(ys) and 0 < len(good) < n_x or not good and n_x > 1
    ctx.label('none' if not good else 'some' if len(good) < n_x else 'all')


@st.composite
def gen(draw):
    ws = draw(st.lists(st.sampled_from([0, 0, 1, 2, 2, 3]), min_size=1, max_size=5).filter(
        lambda ws: sum(w or 1 for w in ws) <= 9))
    split = [draw(st.booleans()) for _ in ws]
    by = {}
    for i, w in enumerate(ws):
        by.setdefault(w, []).append(i)
    widths = [w for w in by if w]

    def term(w, d):
        c = by.get(w, [])
        k = draw(st.integers(0, 9)) if d > 0 else draw(st.integers(0, 2))
        if k <= 2:
            return ['k', draw(st.integers(0, (1 << w) - 1)), w] if not c or k == 0 and draw(st.booleans()) \
                else ['v', draw(st.sampled_from(c))]
        if k <= 7:
            return [draw(st.sampled_from(['add', 'sub', 'mul', 'bvand', 'bvor', 'bvxor'])), term(w, d - 1), term(w, d - 1)]
        if k == 8:
            return ['bvnot', term(w, d - 1)]
        return ['ite', form(d - 1), term(w, d - 1), term(w, d - 1)]

    def form(d):
        c = by.get(0, [])
        k = draw(st.integers(0, 9)) if d > 0 else 0
        if widths and (k <= 3 and d >= 0):
            w = draw(st.sampled_from(widths))
            return [draw(st.sampled_from(['eq', 'eq', 'ult', 'ule', 'slt'])), term(w, max(d, 1)), term(w, max(d, 1))]
        if k <= 3:
            return ['v', draw(st.sampled_from(c))] if c else ['c', draw(st.integers(0, 1))]
        if k == 4:
            return ['not', form(d - 1)]
        if k == 5 and c:
            return ['v', draw(st.sampled_from(c))]
        return [draw(st.sampled_from(['and', 'or', 'xor', 'imp', 'iff', 'or', 'imp'])), form(d - 1), form(d - 1)]
    f = form(draw(st.integers(1, 4)))
    if draw(st.integers(0, 2)) == 0:
        # every choice but a few works for most, but not all, universal values: many refinements
        w = draw(st.sampled_from([2, 3, 3, 4, 4]))
        ws, split = ws[:max(0, 9 - 2 * w)], split[:max(0, 9 - 2 * w)]
        while sum(x or 1 for x in ws) > 9 - 2 * w:
            ws.pop(), split.pop()
        ws, split = ws + [w, w], split + [False, True]
        x, y = ['v', len(ws) - 2], ['v', len(ws) - 1]
        k = lambda: ['k', draw(st.integers(0, (1 << w) - 1)), w]
        miss = lambda: ['not', ['eq', y, [draw(st.sampled_from(['add', 'bvxor'])),
                                          ['mul', x, ['k', draw(st.sampled_from([1, 3, (1 << w) - 1])), w]], k()]]]
        hard = miss()
        for _ in range(draw(st.integers(0, 2))):
            hard = ['and', hard, miss()]
        for _ in range(draw(st.integers(0, 2))):
            hard = ['or', hard, ['eq', x, k()]]
        by.clear()
        for i, v in enumerate(ws):
            by.setdefault(v, []).append(i)
        widths = [v for v in by if v]
        how = draw(st.integers(0, 3))
        f = hard if how < 2 else ['or' if how == 2 else 'and', hard, form(1)]
    return [ws, split, f, draw(st.sampled_from([-1, 0, 0, 1, 3])),
            draw(st.sampled_from(['none', 'enough', 'enough', 'enough', 20, 0, 1, 2, 3, 4, 6])), 'z3', draw(st.booleans())]


SUBS = [Sub('loop', gen, run, 'random formulas over up to 5 Boolean and vector variables (9 bits in all) x splits x initial '
            'vectors x iteration limits; non-trivial: some but not all choices work, or none of several', quick=12000, quick_s=25)]
