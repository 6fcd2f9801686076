"""Generated mapping problems (an architecture and IR instructions), and an oracle that only executes them.

problem ::= {"types": [spec...], "src": text, "arch": comp, "irs": [comp...]}
comp    ::= {"fc": name, "ins": [[name, spec, const?]...], "outs": [[name or null, spec]...]}
"""
import contextlib
import itertools as it
import re

import hwtypes as hw
import z3
from pysmt.exceptions import SolverReturnedUnknownResultError

from . import gens as g, progs
from .core import require, HarnessError
from .hyp import st

from peak import Peak, Const
from peak.mapper.utils import Unbound

MAX_BITS = 9


# ---- shapes ----

def combos(types, spec, path):
    """the forms of a type: [({sum path: option index}, {leaf path: leaf spec})]"""
    fs = g.fields(spec)
    if not fs:
        return [({}, {path: spec})]
    if spec[0] in ('prod', 'tup'):
        out = [({}, {})]
        for k, s in fs:
            out = [({**c0, **c1}, {**l0, **l1}) for c0, l0 in out for c1, l1 in combos(types, s, path + (k,))]
        return out
    out = []
    for i, (k, s) in enumerate(fs):
        for c, l in combos(types, s, path + (types.key(spec, k),)):
            out.append(({path: i, **c}, l))
    return out


def dom(spec):
    """codes of a leaf"""
    return [v for _, v in spec[2]] if spec[0] == 'enum' else range(1 << g.width(spec))


def build(types, spec, path, choice, codes):
    """value (as data) of a type under choices and leaf codes"""
    fs = g.fields(spec)
    if not fs:
        c = codes[path]
        if spec[0] == 'enum':
            m = [m for m, v in spec[2] if v == c]
            if not m:
                raise HarnessError(f'no member of {spec} for {c}')
            return m[0]
        return c
    if spec[0] in ('prod', 'tup'):
        return [build(types, s, path + (k,), choice, codes) for k, s in fs]
    i = choice[path]
    k, s = fs[i]
    return [i, build(types, s, path + (types.key(spec, k),), choice, codes)]


def codes_of(spec, x, path, out):
    """leaf codes of an executed output (without sums)"""
    k = spec[0]
    if k == 'bit':
        out[path] = int(bool(x))
    elif k in g.LEAVES:
        require(isinstance(x, hw.BitVector) and x.size == spec[1], f'output {x!r} for {spec}')
        out[path] = x.as_uint()
    elif k == 'enum':
        out[path] = dict(spec[2])[x.name]
    else:
        for n, s in g.fields(spec):
            codes_of(s, getattr(x, n) if k == 'prod' else x[n], path + (n,), out)


class Comp:
    """A component of a problem: its forms, its leaves, and what it computes"""

    def __init__(self, prob, comp):
        self.c = comp
        self.prob = prob
        self.types = prob.types
        self.fc = getattr(prob.mod, comp['fc'])
        self.out_leaves = {}
        for j, (n, s) in enumerate(comp['outs']):
            (_, l), = combos(self.types, s, (n if n is not None else j,))
            self.out_leaves.update(l)
        self.forms = [({}, {})]
        self.const = {}
        for n, s, c in comp['ins']:
            sub = combos(self.types, s, (n,))
            for _, l in sub:
                for p in l:
                    self.const[p] = bool(c)
            self.forms = [({**c0, **c1}, {**l0, **l1}) for c0, l0 in self.forms for c1, l1 in sub]
        self.obj = None
        self.memo = {}
        self.context = 0      # what else the result depends on (interpretation of black boxes)

    def key(self, path, leaf):
        """leaves of equal keys can be bound"""
        return g.canon(leaf), self.const[path]

    def run(self, form, codes):
        """{output leaf: code} for all leaves of the form"""
        choice, leaves = self.forms[form]
        k = (self.context, form) + tuple(codes[p] for p in leaves)
        if k not in self.memo:
            args = {n: self.types.value(s, build(self.types, s, (n,), choice, codes)) for n, s, _ in self.c['ins']}
            if self.obj is None:
                self.obj = self.fc.Py()
            self.prob.context = self.context
            r = self.obj(**args)
            if len(self.c['outs']) == 1:
                # (one element tuples are not used)
                r = (r,)
            out = {}
            for j, ((n, s), x) in enumerate(zip(self.c['outs'], r)):
                codes_of(s, x, (n if n is not None else j,), out)
            self.memo[k] = out
        return self.memo[k]


class Problem:
    def __init__(self, p, names=None):
        self.p = p
        self.types = g.Types()
        ns = {f'T{i}': self.types(s) for i, s in enumerate(p['types'])}
        ns.update(HBit=hw.Bit, HBV=hw.BitVector, HSI=hw.SIntVector, HUI=hw.UIntVector)
        ns.update(names or {})
        self.bbs = p.get('bbs', [])
        self.context = 0
        ns.update(LOOK=self.look)
        src = p['src']
        if p.get('local'):
            src, isa = progs.localise(src, self.types, p['types'])
            ns.update(isa)
        self.mod = progs.load(src, ns)
        try:
            self.arch = Comp(self, p['arch'])
            self.irs = [Comp(self, c) for c in p['irs']]
        except BaseException:
            self.close()
            raise

    def contexts(self):
        """number of interpretations of the black boxes"""
        n = 1
        for b in self.bbs:
            n *= bb_count(b)
        return n

    def look(self, k, *args):
        """what black box k computes under the present interpretation"""
        c = self.context
        for b in self.bbs[:k]:
            c //= bb_count(b)
        _, ins, outs = self.bbs[k]
        c %= bb_count(self.bbs[k])
        i = 0
        for s, x in zip(ins, args):
            i = i << g.width(s) | int(x)
        ow = sum(map(g.width, outs))
        c = c >> i * ow & (1 << ow) - 1
        r = []
        for s in outs:
            r.append(self.types(s)(c & (1 << g.width(s)) - 1))
            c >>= g.width(s)
        return r[0] if len(r) == 1 else tuple(r)

    def close(self):
        progs.unload(self.mod)


def bb_count(b):
    _, ins, outs = b
    return 1 << (sum(map(g.width, outs)) << sum(map(g.width, ins)))


# ---- rules ----
# rule ::= (form, {arch leaf: ir leaf | int (a constant) | None (free)}, {ir output: arch output})

def assignments(leaves):
    ps = list(leaves)
    for vs in it.product(*[dom(leaves[p]) for p in ps]):
        yield dict(zip(ps, vs))


def free_leaves(arch, rule):
    form, b, _ = rule
    return {p: arch.forms[form][1][p] for p, x in b.items() if x is None}


def disagree(arch, ir, rule, free_dom=None, contexts=(0,)):
    """an assignment (ir codes, free codes) on which a bound output differs, or None"""
    form, b, ob = rule
    free = free_leaves(arch, rule)
    fps = list(free)
    fdoms = [(free_dom or {}).get(p, dom(free[p])) for p in fps]
    for ctxt in contexts:
        arch.context = ir.context = ctxt
        for icodes in assignments(ir.forms[0][1]):
            want = ir.run(0, icodes)
            for fv in it.product(*fdoms):
                fc = dict(zip(fps, fv))
                codes = {p: fc[p] if x is None else icodes[x] if isinstance(x, tuple) else x for p, x in b.items()}
                got = arch.run(form, codes)
                for o, a in ob.items():
                    if want[o] != got[a]:
                        return icodes, fc
    return None


def bindings(arch, ir, form, banned=()):
    """all maps of the form's leaves to IR leaves of the same key or None that use every IR leaf exactly once"""
    leaves = arch.forms[form][1]
    il = ir.forms[0][1]
    poss = {i: [p for p in leaves if arch.key(p, leaves[p]) == ir.key(i, il[i]) and p not in banned] for i in il}
    for pick in it.product(*[poss[i] for i in il]):
        if len(set(pick)) == len(pick):
            b = {p: None for p in leaves}
            b.update({p: i for i, p in zip(il, pick)})
            yield b


def obindings(arch, ir):
    outs = list(ir.out_leaves)
    poss = [[a for a in arch.out_leaves if g.canon(arch.out_leaves[a]) == g.canon(ir.out_leaves[o])] for o in outs]
    for pick in it.product(*poss):
        if len(set(pick)) == len(pick):
            yield dict(zip(outs, pick))


def rules(arch, ir, constraints=None):
    """every rule there could be, constrained paths taking their allowed values (free ones: None)"""
    constraints = constraints or {}
    obs = list(obindings(arch, ir))
    for form in range(len(arch.forms)):
        leaves = arch.forms[form][1]
        for b in bindings(arch, ir, form, constraints):
            cs = [p for p in leaves if b[p] is None and arch.const[p]]
            for vals in it.product(*[[v for v in dom(leaves[p]) if p not in constraints or v in constraints[p]] for p in cs]):
                bb = {**b, **dict(zip(cs, vals))}
                for ob in obs:
                    yield form, bb, ob


def exists(arch, ir, constraints=None, contexts=(0,)):
    """some correct rule, or None; also whether there is any binding at all"""
    some = False
    for r in rules(arch, ir, constraints):
        some = True
        if disagree(arch, ir, r, constraints, contexts) is None:
            return r, True
    return None, some


def read_rule(prob, arch, ir, rr):
    """what a RewriteRule says, checked for being well formed"""
    b = {}
    for i, a in rr.ibinding:
        require(a not in b, f'{a} is bound twice: {rr.ibinding}')
        if i is Unbound:
            b[a] = None
        elif isinstance(i, tuple):
            b[a] = i
        else:
            require(isinstance(i, (hw.Bit, hw.BitVector)), f'constant {i!r} for {a}')
            b[a] = int(bool(i)) if isinstance(i, hw.Bit) else i.as_uint()
    forms = [f for f, (_, l) in enumerate(arch.forms) if set(l) == set(b)]
    require(forms, f'{rr.ibinding} are not the inputs of any form')
    used = [i for i in b.values() if isinstance(i, tuple)]
    il = ir.forms[0][1]
    require(sorted(map(str, used)) == sorted(map(str, il)), f'{rr.ibinding} does not use every IR input once')
    for form in forms:
        leaves = arch.forms[form][1]
        for p, x in b.items():
            if isinstance(x, tuple):
                require(arch.key(p, leaves[p]) == ir.key(x, il[x]), f'{x} and {p} have different types')
            elif x is None:
                require(not arch.const[p], f'constant {p} has no value')
            else:
                require(x in dom(leaves[p]), f'{x} is no value of {p}')
    ob = {}
    for o, a in rr.obinding:
        if o is Unbound:
            continue
        require(o not in ob, f'{o} is bound twice')
        ob[o] = a
    require(set(ob) == set(ir.out_leaves), f'outputs {rr.obinding}')
    require(len(set(ob.values())) == len(ob) and set(ob.values()) <= set(arch.out_leaves), f'outputs {rr.obinding}')
    # forms with the same leaves (that can only differ in choices) are told apart by their paths
    require(len(forms) == 1, f'ambiguous {rr.ibinding}')
    return forms[0], b, ob


def make_rule(prob, arch, ir, rule, wrap=True):
    """a RewriteRule"""
    from peak.mapper import RewriteRule
    form, b, ob = rule
    leaves = arch.forms[form][1]
    ib = []
    for p, x in b.items():
        if x is None:
            ib.append((Unbound, p))
        elif isinstance(x, tuple):
            ib.append((x, p))
        else:
            ib.append((leaf_value(prob.types, leaves[p], x), p))
    obound = [(o, a) for o, a in ob.items()] + [(Unbound, a) for a in arch.out_leaves if a not in ob.values()]
    return RewriteRule(ib, obound, ir.fc, arch.fc)


def leaf_value(types, spec, code, member=True):
    if spec[0] == 'bit':
        return hw.Bit(code)
    if spec[0] == 'enum':
        m, = [m for m, v in spec[2] if v == code]
        return getattr(types(spec), m)
    return types(spec)(code)


def mutate(P, arch, ir, rule, m):
    """a well typed rule close to a rule"""
    kind, a, b = m
    form, bi, ob = rule
    bi, ob = dict(bi), dict(ob)
    leaves = arch.forms[form][1]
    ps = list(leaves)
    if kind == 'const':
        cs = [p for p in ps if bi[p] is not None and not isinstance(bi[p], tuple)]
        if cs:
            p = cs[a % len(cs)]
            d = list(dom(leaves[p]))
            bi[p] = d[b % len(d)]
    elif kind == 'bind':
        # a leaf becomes a constant, free, or (another use of) an IR input
        p = ps[a % len(ps)]
        d = list(dom(leaves[p]))
        alts = [d[b % len(d)]] + ([] if arch.const[p] else [None])
        alts += [i for i, s in ir.forms[0][1].items() if g.canon(s) == g.canon(leaves[p])]
        old = bi[p]
        bi[p] = alts[b % len(alts)]
        if isinstance(old, tuple) and old not in bi.values():
            # every IR input stays somewhere
            bi[p] = old
    elif kind == 'swap':
        irs = [p for p in ps if isinstance(bi[p], tuple)]
        pairs = [(p, q) for p, q in it.combinations(irs, 2) if g.canon(leaves[p]) == g.canon(leaves[q])]
        if pairs:
            p, q = pairs[a % len(pairs)]
            bi[p], bi[q] = bi[q], bi[p]
    elif kind == 'out':
        o = list(ob)[a % len(ob)]
        alts = [x for x, s in arch.out_leaves.items() if g.canon(s) == g.canon(ir.out_leaves[o])]
        ob[o] = alts[b % len(alts)]
    elif kind == 'less':
        if len(ob) > 1:
            del ob[list(ob)[a % len(ob)]]
    return form, bi, ob


def nth(xs, n, most=400):
    xs = list(it.islice(xs, most))
    return xs[n % len(xs)] if xs else None


# ---- generation ----

class MapGen:
    def __init__(self, draw, sums=True, nested=True, max_bits=MAX_BITS, enums=True, two_outs=True, bb=False, many_sums=False):
        self.draw = draw
        # two sums, whose options the dispatch depends on
        self.many_sums = many_sums
        self.matches = []
        self.types = []
        self.sums, self.nested, self.enums, self.two_outs = sums, nested, enums, two_outs
        self.left = max_bits
        self.n = 0
        self.bb = bb
        self.bbs, self.insts = [], []
        self.g = progs.Gen(draw, self.types, 'X', allow_subs=0, sums=False)

    def int(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def chance(self, n):
        return self.int(0, n) == 0

    def name(self, p):
        self.n += 1
        return f'{p}{self.n}'

    def enum(self, full, codes=None):
        if full:
            n = 1 << self.int(1, 2)
            vals = list(range(n)) if self.chance(1) else self.draw(st.permutations(range(n)))
        else:
            vals = self.draw(st.lists(st.integers(0, 7), min_size=1, max_size=4, unique=True).filter(lambda v: max(v) > 0))
        return ['enum', self.name('E'), [[m, v] for m, v in zip('klmnop', vals)]]

    # tokens stand for leaves in texts: @k@
    def arch(self):
        W = self.W = self.pick([1, 1, 1, 2] if self.many_sums else [1, 2, 2, 2, 3])
        D = ['bv', W]
        self.leafspecs = [D, D, D, ['bit']]
        if self.enums and self.chance(4):
            self.leafspecs.append(self.enum(True))
        self.tok = []        # (source, spec, const)
        self.pre = []        # lines before the dispatch
        ins = []
        # the operation
        how = 0 if self.many_sums else self.int(0, 3)
        if how == 0:
            op = ['bit']
        elif how == 1:
            op = ['bv', self.int(1, 2)]
        else:
            op = self.enum(False) if self.enums else ['bv', 2]
        consts = [['op', op]]
        self.left -= g.width(op)
        if self.chance(1) and self.left > W + 2:
            s = self.pick([D, D, ['bit']])
            consts.append(['imm', s])
            self.left -= g.width(s)
        if self.sums and self.chance(3) and self.left > W + 3:
            consts.append(['mode', self.sum(D)])
        if self.chance(2):
            consts = self.draw(st.permutations(consts))
        if self.nested and self.chance(1):
            # one word with everything
            inst, k = self.name('inst'), 0
            if self.chance(1):
                # part of it in a word of its own
                k = self.int(1, len(consts))
            spec = ['prod', self.name('P'), [[n, s] for n, s in consts[k:]]]
            if k:
                sub = [[n, s] for n, s in consts[:k]]
                spec[2].insert(self.int(0, len(spec[2])),
                               ['part', ['tup', [s for _, s in sub]] if self.chance(2) else ['prod', self.name('P'), sub]])
            ins.append([inst, spec, True])
            srcs = {n: f'{inst}.{n}' for n, _ in consts[k:]}
            if k:
                part = dict(spec[2])['part']
                srcs.update({n: f'{inst}.part[{j}]' if part[0] == 'tup' else f'{inst}.part.{n}' for j, (n, _) in enumerate(sub)})
        else:
            srcs = {}
            for n, s in consts:
                ins.append([self.name(n), s, True])
                srcs[n] = ins[-1][0]
        for n, s in consts:
            if n == 'op':
                opsrc = srcs[n]
                # (operations can also be used as data)
            elif n == 'mode':
                self.open_sum(srcs[n], s, True)
            else:
                self.tok.append((srcs[n], s, True))
        # data
        k = 0
        if self.many_sums:
            for _ in range(2):
                spec = self.sum(D)
                ins.append([self.name('s'), spec, self.chance(4)])
                self.open_sum(ins[-1][0], spec, ins[-1][2])
        while k < 3 and (k < 1 or self.int(0, 3)) and self.left >= 1:
            k += 1
            fit = [s for s in self.leafspecs if g.width(s) <= self.left]
            if not fit:
                break
            how = self.int(0, 9)
            s = self.pick(fit)
            if how == 0 and self.sums and self.left > W + 2:
                spec = self.sum(D)
                ins.append([self.name('s'), spec, self.chance(3)])
                self.open_sum(ins[-1][0], spec, ins[-1][2])
                continue
            const = self.chance(5)
            if how <= 3 and self.nested:
                subs = [s]
                self.left -= g.width(s)
                for _ in range(self.int(0, 2)):
                    fit = [x for x in self.leafspecs if g.width(x) <= self.left]
                    if fit:
                        subs.append(self.pick(fit))
                        self.left -= g.width(subs[-1])
                n = self.name('d')
                if self.chance(1):
                    ins.append([n, ['tup', subs], const])
                    self.tok += [(f'{n}[{j}]', x, const) for j, x in enumerate(subs)]
                else:
                    ins.append([n, ['prod', self.name('P'), [[f'f{j}', x] for j, x in enumerate(subs)]], const])
                    self.tok += [(f'{n}.f{j}', x, const) for j, x in enumerate(subs)]
                continue
            self.left -= g.width(s)
            ins.append([self.name('d'), s, const])
            self.tok.append((ins[-1][0], s, const))
        if not [t for t in self.tok if t[1] != op]:
            # something to compute with
            ins.append([self.name('d'), D, False])
            self.tok.append((ins[-1][0], D, False))
        ins = list(self.draw(st.permutations(ins)))
        self.tokens = [(f'@{i}@', s) for i, (_, s, _) in enumerate(self.tok)]
        conds = self.conds(opsrc, op)
        if self.many_sums:
            conds = [self.match_cond(c) for c in conds]
            if len(conds) < 4:
                conds[:0] = [self.match_cond('')]
        blines = self.boxes(D, conds) if self.bb else []
        # outputs
        ts = [s for _, s in self.tokens]
        outs = [self.pick(ts)]
        if self.two_outs and self.chance(2):
            outs.append(self.pick(ts))
        self.outs = outs
        # branches
        if self.bb and self.chance(1):
            outs[0] = self.tok[-1][1]
        self.branches = []
        for _ in range(len(conds)):
            self.branches.append([self.box_expr(s) if self.bb and self.int(0, 2) else self.expr(s) for s in outs])
        lines = list(self.pre) + blines
        rs = [f'r{j}' for j in range(len(outs))]
        lines += self.dispatch(conds, rs, self.branches)
        self.arch_names = [n for n, _, _ in ins]
        return self.finish('Arch', ins, outs, lines, rs, [(v, c) for v, c, _, _ in self.insts])

    def dispatch(self, conds, rs, branches):
        lines = []
        for j, (c, es) in enumerate(zip(conds, branches)):
            head = f'if {c}:' if j == 0 else f'elif {c}:' if c and j < len(conds) - 1 else 'else:'
            if len(conds) == 1:
                for r, e in zip(rs, es):
                    lines.append(f'{r} = {self.fill(e)}')
                break
            lines.append(head)
            for r, e in zip(rs, es):
                lines.append(f'    {r} = {self.fill(e)}')
        return lines

    def boxes(self, D, conds):
        """black boxes, and what they are given in each branch"""
        most = 0
        for k in range(self.int(1, 2)):
            small = [s for s in self.leafspecs if s[0] != 'enum' and g.width(s) <= 2] or [['bit']]
            ins, outs = [self.pick(small)], [self.pick(small)]
            if self.chance(2):
                ins.append(self.pick(small))
            if self.chance(3):
                outs.append(self.pick(small))
            if k and self.int(0, 1):
                # a different black box that looks the same
                ins, outs = map(list, self.bbs[0][1:])
            b = [f'B{k}', ins, outs]
            while bb_count(b) << most > 256:
                if len(outs) > 1:
                    outs.pop()
                elif len(ins) > 1:
                    ins.pop()
                elif ins[0] != ['bit']:
                    ins[0] = ['bit']
                else:
                    outs[0] = ['bit']
                if ins == [['bit']] and outs == [['bit']]:
                    break
            self.bbs.append(b)
            most += bb_count(b).bit_length() - 1
            if most > 4:
                break
        lines = []
        for v in range(self.int(1, 3)):
            k = self.int(0, len(self.bbs) - 1)
            _, ins, outs = self.bbs[k]
            same = [self.g.expr(s, self.tokens, self.pick([0, 0, 1])) for s in ins]
            args = [same if self.chance(2) else [self.g.expr(s, self.tokens, self.pick([0, 0, 1])) for s in ins] for _ in conds]
            ts = [f'a{v}_{j}' for j in range(len(ins))]
            rs = [f'b{v}_{j}' for j in range(len(outs))]
            lines += self.dispatch(conds, ts, args)
            lines.append(f'{", ".join(rs)} = self.b{v}({", ".join(ts)})')
            self.insts.append((v, f'{"W" if self.chance(3) else "B"}{k}', args, list(range(len(self.tok), len(self.tok) + len(outs)))))
            for r, s in zip(rs, outs):
                self.tok.append((r, s, False))
            self.tokens = [(f'@{i}@', s) for i, (_, s, _) in enumerate(self.tok)]
        return lines

    def box_expr(self, spec):
        toks = [f'@{t}@' for _, _, _, ts in self.insts for t in ts if self.tok[t][1] == spec]
        e = self.pick(toks) if toks else self.expr(spec)
        how = self.int(0, 3)
        if how == 0 and spec[0] in ('bit', 'bv'):
            e = f'({e} ^ {self.expr(spec, d=0)})'
        return e

    def box_source(self):
        out = ['from peak.black_box import BlackBox'] if self.bbs else []
        one = len(self.bbs) > 1 and self.int(0, 1)
        for k, (n, ins, outs) in enumerate(self.bbs):
            ps = ', '.join(f'p{j}: {self.g.ann(s)}' for j, s in enumerate(ins))
            ot = ', '.join(self.g.ann(s) for s in outs)
            ot = f'({ot})' if len(outs) > 1 else ot
            vs = ', '.join(f'p{j}' for j in range(len(ins)))
            heads = ['    Bit = family.Bit', '    BV = family.BitVector', '    SI = family.Signed', '    UI = family.Unsigned']
            out += ['@family_closure', f'def {n}_fc(family):'] + heads + [
                '    @family.assemble(locals(), globals())', f'    class {"B" if one else n}(Peak, BlackBox):',
                f'        def __call__(self, {ps}) -> {ot}:', f'            return LOOK({k}, {vs})', f'    return {"B" if one else n}', '',
                '@family_closure', f'def W{k}_fc(family):', f'    {n} = {n}_fc(family)'] + heads + [
                '    @family.assemble(locals(), globals())', f'    class W{k}(Peak):',
                '        def __init__(self):', f'            self.inner: {n} = {n}()',
                f'        def __call__(self, {ps}) -> {ot}:', f'            return self.inner({vs})', f'    return W{k}', '']
        return '\n'.join(out) + '\n'

    def conds(self, src, op):
        if op[0] == 'bit':
            return [src, None] if not self.chance(5) else [None]
        if op[0] == 'bv':
            vals = self.draw(st.lists(st.integers(0, (1 << op[1]) - 1), min_size=1, max_size=3, unique=True))
            return [f'{src} == {v}' for v in vals] + [None]
        i = self.g.tid(op)
        ms = [m for m, _ in op[2]]
        return [f'{src} == T{i}.{m}' for m in ms[:3]] + [None]

    def match_cond(self, c):
        """c, and which options are there"""
        if c is None:
            return None
        ms = [self.pick(ms) for ms in self.matches]
        ms = [ms, ms, ms[:1], ms[1:2], []][self.int(0, 4)] if c else ms
        return ' & '.join(([f'({c})'] if c else []) + ms)

    def sum(self, D):
        """a sum of two or three leaves or small products"""
        opts = [D, ['bit']] if self.chance(1) else [D, ['prod', self.name('P'), [['u', ['bit']], ['v', ['bit']]]]]
        if self.chance(2):
            opts.append(['tup', [['bit']]])
        elif self.many_sums and self.chance(1):
            inner = [D, ['bit']]
            opts = [['sum', inner] if self.chance(1) else ['tu', self.name('U'), [['i', inner[0]], ['j', inner[1]]]],
                    self.pick([['bit'], ['tup', [['bit']]], ['prod', self.name('P'), [['u', ['bit']]]]])]
        opts = list(self.draw(st.permutations(opts)))
        # (only bits of one option at a time are there, but every form counts)
        self.left -= max(map(g.width, opts)) + g.tag_width(['sum', opts])
        if self.chance(1):
            return ['sum', opts]
        return ['tu', self.name('U'), [[f'o{j}', s] for j, s in enumerate(opts)]]

    def open_sum(self, src, spec, const):
        """variables for what is in a sum"""
        self.matches.append([])
        self.open_in(src, spec, const, [])

    def open_in(self, src, spec, const, conds):
        for k, s in g.fields(spec):
            o = f'{src}.{k}' if spec[0] == 'tu' else f'{src}[{self.g.pyname(spec[1][k])}]'
            inside = conds + [f'{o}.match']
            if len(inside) == 1:
                self.matches[-1].append(f'{o}.match')
            if s[0] in ('sum', 'tu'):
                self.open_in(f'{o}.value', s, const, inside)
                continue
            for sub, ls in ([(f'{o}.value', s)] if s[0] in g.LEAVES else
                            [(f'{o}.value.{n}' if s[0] == 'prod' else f'{o}.value[{n}]', x) for n, x in g.fields(s)]):
                v = self.name('v')
                self.pre.append(f'{v} = {self.g.const(ls)}')
                for d, c in enumerate(inside):
                    self.pre.append('    ' * d + f'if {c}:')
                self.pre.append('    ' * len(inside) + f'{v} = {sub}')
                self.tok.append((v, ls, const))

    def expr(self, spec, env=None, d=None):
        env = self.tokens if env is None else env
        d = self.pick([1, 1, 2]) if d is None else d
        return self.g.expr(spec, env, d)

    def fill(self, e):
        for i, (src, _, _) in enumerate(self.tok):
            e = e.replace(f'@{i}@', src)
        return e

    def ir(self, j):
        """an instruction, usually one the architecture computes in some configuration"""
        how = self.int(0, 9)
        br = self.int(0, len(self.branches) - 1)
        with_box = [i for i, b in enumerate(self.branches)
                    if any(f'@{t}@' in e for e in b for _, _, _, ts in self.insts for t in ts)]
        if with_box and self.int(0, 3):
            br = self.pick(with_box)
        if how == 0:
            es = [self.expr(s) for s in self.outs]
        else:
            es = list(self.branches[br])
        specs = list(self.outs)
        if self.bbs and self.chance(9):
            # a black box by itself
            n, bi, bo = self.pick(self.bbs)
            return dict(fc=f'{n}_fc', ins=[[f'p{i}', s, False] for i, s in enumerate(bi)], outs=[[None, s] for s in bo]), ''
        if len(es) == 2 and self.chance(1):
            k = self.int(0, 1)
            es, specs = es[k:k + 1], specs[k:k + 1]
        if len(es) == 2 and self.chance(2):
            es, specs = es[::-1], specs[::-1]
        if how in (1, 2):
            k = self.int(0, len(es) - 1)
            es[k] = self.tweak(es[k], specs[k])
        ins, lines, sub = [], [], {}
        args, boxes = [], []
        for v, cls, bargs, toks in reversed(self.insts):
            if any(f'@{t}@' in e for t in toks for e in es + args):
                here = list(bargs[br])
                if self.chance(9):
                    q = self.int(0, len(here) - 1)
                    here[q] = self.g.expr(self.bbs[int(cls[1:])][1][q], self.tokens[:toks[0]], 0)
                twin = [b for j, b in enumerate(self.bbs) if j != int(cls[1:]) and b[1:] == self.bbs[int(cls[1:])][1:]]
                if twin and self.chance(2):
                    # another black box in its place
                    cls = cls[0] + twin[0][0][1:]
                boxes.insert(0, (v, cls, [f'z{t}' for t in toks], len(args), len(here)))
                args += here
                # (results stay variables)
                es = [self.names(e, toks) for e in es]
                args = [self.names(e, toks) for e in args]
        es, nes = es + args, len(es)
        used = [i for i in range(len(self.tok)) if any(f'@{i}@' in e for e in es)]
        used = list(self.draw(st.permutations(used)))
        group = []
        for i in used:
            src, s, const = self.tok[i]
            if const and self.int(0, 3) > 0 or (self.chance(12) and s[0] in g.LEAVES):
                sub[i] = self.g.const(s)
                continue
            if self.chance(15):
                const = not const
            group.append((i, s, const))
        # two leaves become one input now and then
        if len(group) > 1 and self.chance(6):
            (i, s, _), (k, t, _) = group[:2]
            if s == t:
                sub[k] = f'@{i}@'
                group.pop(1)
        if self.chance(11):
            group.append((None, self.pick(self.leafspecs), False))
        bits = 0
        plain = []
        for i, s, const in group:
            if bits + g.width(s) > 7:
                sub[i] = self.g.const(s)
                continue
            bits += g.width(s)
            plain.append((i, s, const))
        while plain:
            n = self.name('x')
            if self.nested and self.chance(3):
                const = plain[0][2]
                here = [p for p in plain if p[2] == const][:self.int(1, 3)]
                if self.chance(1):
                    ins.append([n, ['tup', [s for _, s, _ in here]], const])
                    srcs = [f'{n}[{q}]' for q in range(len(here))]
                else:
                    ins.append([n, ['prod', self.name('P'), [[f'g{q}', s] for q, (_, s, _) in enumerate(here)]], const])
                    srcs = [f'{n}.g{q}' for q in range(len(here))]
            else:
                here, srcs = plain[:1], [n]
                ins.append([n, here[0][1], here[0][2]])
            for (i, _, _), src in zip(here, srcs):
                if i is not None:
                    sub[i] = src
            plain = [p for p in plain if p not in here]
        if not ins:
            s = self.pick(self.leafspecs)
            ins.append([self.name('x'), s, False])
        for _ in range(2):
            for i, t in sub.items():
                es = [e.replace(f'@{i}@', t) for e in es]
        es, args = es[:nes], es[nes:]
        for v, cls, zs, a, n in boxes:
            lines.append(f'{", ".join(zs)} = self.b{v}({", ".join(args[a:a + n])})')
        rs = [f'r{q}' for q in range(len(es))]
        for r, e in zip(rs, es):
            lines.append(f'{r} = {e}')
        # names of instruction inputs may be names of architecture inputs
        for x in ins:
            n = self.pick(self.arch_names)
            if self.chance(3) and n not in [q for q, _, _ in ins]:
                lines = [re.sub(rf'\b{x[0]}\b', n, l) for l in lines]
                x[0] = n
        return self.finish(f'Ir{j}', ins, specs, lines, rs, [(v, cls) for v, cls, *_ in boxes])

    def names(self, e, toks):
        for t in toks:
            e = e.replace(f'@{t}@', f'z{t}')
        return e

    def tweak(self, e, spec):
        """something close to the expression"""
        if spec == ['bit']:
            return self.pick([f'(~{e})', f'({e} & {self.g.bit(self.tokens, 1)})'])
        if spec[0] in g.LEAVES:
            return self.pick([f'({e} + 1)', f'(~{e})', f'({e} ^ {self.expr(spec, d=1)})'])
        return self.expr(spec)

    def finish(self, name, ins, outs, lines, rs, boxes=()):
        """outputs: plain leaves, possibly named, possibly packed"""
        how = self.int(0, 3)
        gen = self.g
        heads = ['    Bit = family.Bit', '    BV = family.BitVector', '    SI = family.Signed', '    UI = family.Unsigned']
        ann = []
        for n, s, c in ins:
            t = gen.pyname(s) if s[0] not in ('bit', 'bv') or self.chance(2) else gen.ann(s)
            ann.append(f'{n}: Const({t})' if c else f'{n}: {t}')
        outs_ = [[None, s] for s in outs]
        if how == 0 and self.nested:
            spec = ['prod', self.name('O'), [[f'q{j}', s] for j, s in enumerate(outs)]]
            i = gen.tid(spec)
            lines = lines + [f'w = C{i}({", ".join(rs)})']
            rs, outs_ = ['w'], [[None, spec]]
        deco = None
        ot = [gen.pyname(s) if s[0] not in ('bit', 'bv') else gen.ann(s) for _, s in outs_]
        if how in (1, 2):
            # names of outputs may be names of inputs
            pool = [n for n, _, _ in ins] + self.arch_names
            outs_ = [[self.name('o'), s] for _, s in outs_]
            for o in outs_:
                n = self.pick(pool)
                if self.chance(1) and n not in [q for q, _ in outs_]:
                    o[0] = n
            deco = '        @name_outputs(' + ', '.join(f'{n}={t}' for (n, _), t in zip(outs_, ot)) + ')'
            ret = ''
        else:
            ret = f' -> ({", ".join(ot)})' if len(ot) > 1 else f' -> {ot[0]}'
        L = ['@family_closure', f'def {name}_fc(family):'] + heads
        for i, s in enumerate(self.types):
            L.append(f'    A{i} = family.get_adt_t(T{i})')
            L.append(f'    C{i} = family.get_constructor(T{i})')
        for c in sorted(set(c for _, c in boxes)):
            L.append(f'    {c} = {c}_fc(family)')
        L.append('    @family.assemble(locals(), globals())')
        L.append(f'    class {name}(Peak):')
        if boxes:
            L.append('        def __init__(self):')
            L += [f'            self.b{v}: {c} = {c}()' for v, c in boxes]
        if deco:
            L.append(deco)
        L.append(f'        def __call__(self, {", ".join(ann)}){ret}:')
        L += ['            ' + l for l in lines]
        L.append('            return ' + ', '.join(rs))
        L.append(f'    return {name}')
        return dict(fc=f'{name}_fc', ins=ins, outs=outs_), '\n'.join(L) + '\n'


@st.composite
def problems(draw, n_irs=2, **kw):
    m = MapGen(draw, **kw)
    arch, asrc = m.arch()
    irs = [m.ir(j) for j in range(n_irs)]
    # all components see all types
    p = dict(types=m.types, src=progs.PRELUDE + m.box_source() + '\n'.join([asrc] + [s for _, s in irs]), arch=arch,
             irs=[c for c, _ in irs])
    if m.bbs:
        p['bbs'] = m.bbs
    if any(g.fields(s) for s in m.types) and not any(g.contains(s, 'sum') for s in m.types):
        # adts declared in the closures
        p['local'] = draw(st.booleans())
    return p


# ---- running the mapper ----

CONFIGS = [[sf, el, iv] for sf in (0, 1) for el in (0, 1) for iv in ('OneHot', 'Binary')]


def describe(prob, arch, ir):
    return prob.p['src']


class Mappers:
    """architecture mappers of one problem"""

    def __init__(self, prob, constraints=None):
        self.prob, self.am = prob, {}
        self.constraints = constraints

    def solve(self, ir, config, **kw):
        from peak.mapper import ArchMapper
        from peak.mapper.index_var import OneHot, Binary
        sf, el, iv = config
        if iv not in self.am:
            extra = {} if self.constraints is None else dict(path_constraints=self.constraints)
            self.am[iv] = ArchMapper(self.prob.arch.fc, IVar=dict(OneHot=OneHot, Binary=Binary)[iv], **extra)
        im = self.am[iv].process_ir_instruction(ir.fc, simple_formula=bool(sf))
        with limited():
            return im.solve('z3', external_loop=bool(el), itr_limit=5000, **kw)


class NoAnswer(Exception):
    """the solver ran out of time"""


@contextlib.contextmanager
def limited(ms=1500):
    z3.set_param('timeout', ms)
    try:
        yield
    except SolverReturnedUnknownResultError:
        raise NoAnswer()
    finally:
        z3.set_param('timeout', 4294967295)


@st.composite
def many_inputs(draw, n_irs=3, most=7):
    """architectures with several inputs of the same types, and instructions that use them in other places"""
    from . import mapreg
    D = draw(st.sampled_from([['bit'], ['bit'], ['bv', 1], ['bv', 2]]))
    E = draw(st.sampled_from([['bit'], ['bv', 1]]))
    op = draw(st.sampled_from([['bit'], ['bit'], ['bv', 2]]))
    left, names = most - g.width(op), []
    most_inputs = draw(st.sampled_from([3, 3, 3, 4, 5]))
    while left >= g.width(D) and len(names) < most_inputs:
        s = D if len(names) < 3 else draw(st.sampled_from([D, D, E]))
        if g.width(s) > left:
            break
        left -= g.width(s)
        names.append((f'd{len(names)}', s))
    imm = left >= g.width(D) and len(names) < 4 and draw(st.booleans())
    ins = [['op', op, True]] + ([['imm', D, True]] if imm else []) + [[n, s, False] for n, s in names]
    ins = list(draw(st.permutations(ins)))
    outs = [D] + ([D] if draw(st.integers(0, 3)) == 0 else [])

    def conv(x, s, t):
        if s == t:
            return x
        if s == ['bit']:
            return f'{x}.ite(BV[{t[1]}](1), BV[{t[1]}](0))'
        return f'({x} == 1)' if t == ['bit'] else f'{x}.zext({t[1] - s[1]})' if t[1] > s[1] else f'{x}[:{t[1]}]'

    def term():
        """[(negate, name, operator)...] that use most inputs once"""
        k = draw(st.integers(1, len(names)))
        use = list(draw(st.permutations([n for n, _ in names])))[:max(k, len(names) - k)]
        if imm and draw(st.integers(0, 2)) == 0:
            use.insert(draw(st.integers(0, len(use))), 'imm')
        ops = '&|^' if D == ['bit'] else '&|^+-'
        return [[draw(st.integers(0, 3)) == 0, n, draw(st.sampled_from(ops))] for n in use], draw(st.booleans())

    types = dict(names, imm=D)

    def text(t, rename):
        xs, left_first = t
        es = [('~' if neg else '') + rename(n) for neg, n, _ in xs]
        e = es[0]
        for (_, _, o), x in zip(xs[1:], es[1:]):
            e = f'({e} {o} {x})' if left_first else f'({x} {o} {e})'
        return e

    n_br = draw(st.integers(1, 2)) if op == ['bit'] else draw(st.integers(2, 3))
    branches = [[term() for _ in outs] for _ in range(n_br)]
    body = []
    for n, s in names:
        if s != D:
            body.append(f'v{n} = {conv(n, s, D)}')
    arch_name = lambda n: n if types[n] == D else f'v{n}'
    for j, b in enumerate(branches):
        if n_br > 1:
            c = 'op' if op == ['bit'] else f'op == {j}'
            body.append(f'if {c}:' if j == 0 else 'else:' if j == n_br - 1 else f'elif {c}:')
        pad = '    ' if n_br > 1 else ''
        body += [f'{pad}r{k} = {text(t, arch_name)}' for k, t in enumerate(b)]
    body.append('return ' + ', '.join(f'r{k}' for k in range(len(outs))))
    irs = []
    for j in range(n_irs):
        ts = [[[list(x) for x in xs], d] for xs, d in branches[draw(st.integers(0, n_br - 1))]]
        if len(ts) == 2 and draw(st.booleans()):
            ts = ts[::-1][:draw(st.integers(1, 2))]
        how = draw(st.integers(0, 7))
        xs = ts[0][0]
        if how == 0:
            x = xs[draw(st.integers(0, len(xs) - 1))]
            x[2] = draw(st.sampled_from('&|^'))
        elif how == 1:
            x = xs[draw(st.integers(0, len(xs) - 1))]
            x[0] = not x[0]
        elif how == 2 and len(xs) > 1:
            xs.pop()
        elif how == 3:
            i, k = draw(st.integers(0, len(xs) - 1)), draw(st.integers(0, len(xs) - 1))
            xs[i][1], xs[k][1] = xs[k][1], xs[i][1]
        used = [n for n, _ in names if any(n == x[1] for t, _ in ts for x in t)]
        used = list(draw(st.permutations(used)))
        const = draw(st.integers(0, (1 << g.width(D)) - 1))
        ib = [f'v{n} = {conv(f"x{i}", types[n], D)}' for i, n in enumerate(used) if types[n] != D]

        def rename(n):
            if n == 'imm':
                return f'{"Bit" if D == ["bit"] else "BV[%d]" % D[1]}({const})'
            return f'x{used.index(n)}' if types[n] == D else f'v{n}'
        lines = ib + ['return ' + ', '.join(text(t, rename) for t in ts)]
        if not used:
            continue
        irs.append(([[f'x{i}', types[n], False] for i, n in enumerate(used)], [D] * len(ts), lines))
    if not irs:
        irs = [([['x0', D, False]], [D], ['return ~x0'])]
    return mapreg.problem([], (ins, outs, body), *irs)
