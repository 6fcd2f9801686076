"""The sum of products form of a type against a decomposition of its description."""
import itertools as it

from ..core import Sub, require
from ..hyp import st
from .. import gens as g
from ..model import V1, bits
from ..smt import ev, term

import hwtypes as hw
from hwtypes import SMTBitVector, SMTBit
from peak.assembler import Assembler, AssembledADT, _TAG
from peak.mapper.utils import SMTForms, Match

PID = 'M08'
ASSUMPTIONS = ['types with parts of no bits are not covered (the SMT bit vectors of hwtypes have at least one)']


def combos(types, spec, path):
    """[({sum path: option index}, {leaf path: leaf spec})]"""
    fs = g.fields(spec)
    if not fs:
        return [({}, {path: spec})]
    if spec[0] in ('prod', 'tup'):
        out = []
        for parts in it.product(*[combos(types, s, path + (k,)) for k, s in fs]):
            ch, lv = {}, {}
            for c, l in parts:
                ch.update(c)
                lv.update(l)
            out.append((ch, lv))
        return out
    out = []
    for i, (k, s) in enumerate(fs):
        for c, l in combos(types, s, path + (types.key(spec, k),)):
            out.append(({path: i, **c}, l))
    return out


def sums(types, spec, path):
    """every sum in the type: [(path, spec)]"""
    out = [(path, spec)] if spec[0] in ('sum', 'tu') else []
    for k, s in g.fields(spec):
        out += sums(types, s, path + (types.key(spec, k),))
    return out


def leaves(types, spec, path):
    if not g.fields(spec):
        return {path: spec}
    out = {}
    for k, s in g.fields(spec):
        out.update(leaves(types, s, path + (types.key(spec, k),)))
    return out


def code(types, spec, v):
    return int(Assembler(types(spec)).assemble(types.value(spec, v))) if spec[0] == 'enum' else v


def active_codes(types, spec, v, path=()):
    fs = g.fields(spec)
    if not fs:
        return {}, {path: code(types, spec, v)}
    if spec[0] in ('prod', 'tup'):
        ch, lv = {}, {}
        for (k, s), x in zip(fs, v):
            c, l = active_codes(types, s, x, path + (k,))
            ch.update(c)
            lv.update(l)
        return ch, lv
    i, x = v
    k, s = fs[i]
    c, l = active_codes(types, s, x, path + (types.key(spec, k),))
    return {path: i, **c}, l


def where(model, types, spec, path, lo, hi, out):
    """bits of every leaf, and of the tag of every sum"""
    out[path] = (lo, hi)
    info = model.info(spec)
    if spec[0] in ('prod', 'tup'):
        for (a, b), (k, s) in zip(info, g.fields(spec)):
            where(model, types, s, path + (k,), lo + a, lo + b, out)
    elif spec[0] in ('sum', 'tu'):
        (a, b), _, lay = info
        out[path + (_TAG,)] = (lo + a, lo + b)
        for (a, b), (k, s) in zip(lay, g.fields(spec)):
            where(model, types, s, path + (types.key(spec, k),), lo + a, lo + b, out)


def varterm(x):
    t = term(x)
    require(t.is_symbol(), f'{t} is no variable')
    return t


def opcode(v, env):
    return ev(v if isinstance(v, (SMTBit, SMTBitVector)) else v._value_, env)


def run(case, ctx):
    spec, vals, ops, noise = case
    types = g.Types()
    T = types(spec)
    A = AssembledADT[T, Assembler, SMTBitVector]
    model = V1(Assembler, types)
    want = combos(types, spec, ())
    all_leaves, all_sums = leaves(types, spec, ()), sums(types, spec, ())
    tagcodes = {p: {i: c for c, i in model.info(s)[1].items()} for p, s in all_sums}
    keys = {p: [types.key(s, k) for k, _ in g.fields(s)] for p, s in all_sums}
    w = g.width(spec)
    loc = {}
    where(model, types, spec, (), 0, w, loc)

    x = SMTBitVector[w]()
    given = A(x)
    for how, value in (('free', None), ('given', given)):
        forms, varmap, whole = SMTForms()(A) if value is None else SMTForms()(A, value=value)
        # structure
        wk = [({p: keys[p][i] for p, i in ch.items()}, set(lv)) for ch, lv in want]
        gk = [(f.path_dict, set(f.varmap)) for f in forms]
        require(len(gk) == len(wk), f'{how}: {len(gk)} forms of {spec}, not {len(wk)}')
        for f in wk:
            require(gk.count(f) == 1, f'{how}: form {f} is there {gk.count(f)} times')
        expect = set(all_leaves) | {p + (_TAG,) for p, _ in all_sums} | {p + (Match,) for p, _ in all_sums}
        require(set(varmap) == expect, f'{how}: paths {set(varmap) ^ expect}')
        for p, _ in all_sums:
            require(set(varmap[p + (Match,)]) == set(keys[p]), f'{how}: matches of {p}')
        for f in forms:
            for p, l in f.varmap.items():
                require(term(l) is term(varmap[p]), f'{how}: {p} differs between form and type')
                s = all_leaves[p]
                require(l.size == g.width(s) if s[0] != 'bit' else isinstance(l, SMTBit), f'{how}: type of {p}')
        ctx.count(len(forms))
        if value is None:
            vs = [varterm(varmap[p]) for p in all_leaves] + [varterm(varmap[p + (_TAG,)]) for p, _ in all_sums]
            require(len(set(vs)) == len(vs), 'variables are shared')
            for n, v in enumerate(vals):
                ch, lv = active_codes(types, spec, v)
                env, tag_at = {}, {}
                junk = noise * (n + 1) + 12345
                for p, s in all_leaves.items():
                    junk = junk * 1103515245 + 12345 & (1 << 62) - 1
                    env[term(varmap[p])] = lv.get(p, (junk >> 13) % (1 << g.width(s)))
                for p, s in all_sums:
                    junk = junk * 1103515245 + 12345 & (1 << 62) - 1
                    tag_at[p] = tagcodes[p][ch[p]] if p in ch else (junk >> 13) % (1 << g.tag_width(s))
                    env[term(varmap[p + (_TAG,)])] = tag_at[p]
                form, = [f for f in forms if f.path_dict == {p: keys[p][i] for p, i in ch.items()}]
                for what, val in (('form', form.value), ('whole value', whole)):
                    op = opcode(val, env)
                    d = model.decode(spec, op)
                    require(d is not None and d[0] == v, f'{what} of {spec} under {v} is {op:b}, that is {d}')
                matches(varmap, all_sums, keys, tagcodes, tag_at, env)
                ctx.count(3)
        else:
            for o in ops:
                env = {term(x): o}
                for p, s in all_leaves.items():
                    got = ev(varmap[p], env)
                    require(got == bits(o, *loc[p]), f'{p} of {o:b} is {got}, not bits {loc[p]}')
                tag_at = {p: bits(o, *loc[p + (_TAG,)]) for p, _ in all_sums}
                for p, t in tag_at.items():
                    require(ev(varmap[p + (_TAG,)], env) == t, f'tag of {p} of {o:b}')
                matches(varmap, all_sums, keys, tagcodes, tag_at, env)
                d = model.decode(spec, o)
                if d is not None:
                    for f in forms:
                        # (every form of a given value carries the value)
                        op = opcode(f.value, env)
                        require(model.decode(spec, op) == d, f'form of {o:b} has value {op:b}')
                ctx.count(3)
    ctx.nontrivial = len(want) > 1 and bool(vals)
    ctx.label(f'{min(len(want), 5)} forms')


def matches(varmap, all_sums, keys, tagcodes, tag_at, env):
    for p, s in all_sums:
        for i, k in enumerate(keys[p]):
            got = ev(varmap[p + (Match,)][k], env)
            require(bool(got) == (tag_at[p] == tagcodes[p][i]), f'match of {k} at {p} with tag {tag_at[p]} is {got}')


def nforms(spec):
    r = 1
    fs = g.fields(spec)
    if not fs:
        return 1
    if spec[0] in ('prod', 'tup'):
        for _, s in fs:
            r *= nforms(s)
        return r
    return sum(nforms(s) for _, s in fs)


@st.composite
def gen(draw, big=False):
    spec = draw((g.big_specs(zero=False) if big else g.specs(max_depth=3, max_width=20, zero=False)).filter(lambda s: s[0] not in g.LEAVES and not g.has_zero(s) and nforms(s) <= 24))
    vals = draw(st.lists(g.values(spec), min_size=1, max_size=5))
    w = g.width(spec)
    ops = draw(st.lists(st.integers(0, (1 << w) - 1), min_size=1, max_size=5))
    return [spec, vals, ops, draw(st.integers(0, 1 << 30))]


REG = [[['tu', 'K1', [['x', ['bit']], ['y', ['prod', 'A1', [['a', ['bv', 2]], ['b', ['bit']]]]], ['z', ['bit']]]],
        [[0, 1], [1, [2, 1]], [2, 0]], [0, 5, 7, 11, 30], 7],
       [['prod', 'P1', [['a', ['sum', [['bit'], ['bv', 3], ['tu', 'K2', [['x', ['bv', 2]], ['y', ['bv', 2]]]]]]],
                        ['b', ['sum', [['bit'], ['bv', 2]]]]]], [[[2, [1, 3]], [0, 1]]], [1, 2, 3, 77], 3]]
SUBS = [Sub('forms', gen, run, 'types up to 3 deep (24 forms or fewer) x values x opcodes; non-trivial: two forms or more',
            quick=1500, quick_s=15, regressions=REG),
        Sub('large', lambda: gen(big=True), run, 'the same with types of up to 180 bits, 5 deep, 40 fields or members; non-trivial: two forms or more',
            quick=120, quick_s=15)]
