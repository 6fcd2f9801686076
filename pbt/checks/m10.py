"""Programs of one or two instructions, against a search through all of them."""
import contextlib, io
import itertools as it

import hwtypes as hw

from ..core import Sub, require, raises
from ..hyp import st
from .. import gens as g, maps, progs

PID = 'M10'
ASSUMPTIONS = ['data inputs and outputs are bits and vectors; the architecture has exactly one Const input (as the code demands)']

# ---- generation ----


class Gen:
    def __init__(self, draw):
        self.draw = draw
        self.types = []
        self.g = progs.Gen(draw, self.types, 'X', allow_subs=0, sums=False)

    def int(self, a, b):
        return self.draw(st.integers(a, b))

    def make(self, N, gates=False):
        W = self.pick([1, 2, 2]) if N < 3 else 1
        D, B = ['bv', W], ['bit']
        how = self.int(0, 3) if not gates else 1
        imm = None
        if how == 0:
            op, src = ['bv', self.int(1, 2)], 'op'
            const = op
        elif how == 1:
            op, src = B, 'op'
            const = op
        elif how == 2:
            vals = self.draw(st.lists(st.integers(0, 4), min_size=2, max_size=3, unique=True).filter(lambda v: max(v) > 0))
            const = op = ['enum', 'Op', [[m, v] for m, v in zip('klm', vals)]]
            src = 'op'
        else:
            op = ['bv', 1] if self.int(0, 1) else B
            imm = self.pick([D, B])
            const = ['prod', 'Inst', [['op', op], ['imm', imm]]]
            src = 'inst.op'
        cname = src.split('.')[0]
        data = [['i0', D]]
        for k in range(self.int(0, 2) if N < 3 else 1):
            data.append([f'i{k + 1}', self.pick([D, D, D, B]) if not gates else D])
        env = [(f'@{n}@', s) for n, s in data]
        if imm:
            env.append(('@imm@', imm))
        outs = [D]
        if not gates and self.int(0, 3) == 0:
            outs.append(self.pick([D, B]))
        if op[0] == 'enum':
            i = self.g.tid(op)
            conds = [f'{src} == T{i}.{m}' for m, _ in op[2][:-1]] + [None]
        elif op[0] == 'bit':
            conds = [src, None]
        else:
            n = self.int(1, (1 << op[1]) - 1)
            conds = [f'{src} == {v}' for v in range(n)] + [None]
        branches = [[self.g.expr(s, env, self.pick([1, 1, 2])) for s in outs] for _ in conds]
        if gates:
            # (no constants: what one instruction does, two rarely do)
            ops = ['(~@i0@)', '(~@i1@)', '(@i0@ & @i1@)', '(@i0@ | @i1@)', '(@i0@ ^ @i1@)', '(@i0@ & (~@i1@))', '((~@i0@) | @i1@)',
                   '(~(@i0@ & @i1@))', '(~(@i0@ | @i1@))']
            branches = [[self.pick(ops[:2] if j == 0 and self.int(0, 1) else ops[2:])] for j, _ in enumerate(conds)]
        lines = []
        rs = [f'r{j}' for j in range(len(outs))]
        for j, (c, es) in enumerate(zip(conds, branches)):
            lines.append(f'if {c}:' if j == 0 else f'elif {c}:' if c else 'else:')
            for r, e in zip(rs, es):
                for n, _ in data:
                    e = e.replace(f'@{n}@', n)
                lines.append(f'    {r} = {e.replace("@imm@", f"{cname}.imm")}')
        ins = [[n, s, False] for n, s in data]
        ins.insert(self.int(0, len(ins)), [cname, const, True])
        arch, asrc = self.comp('Arch', ins, outs, lines, rs)
        irs, srcs = [], [asrc]
        for k in range(2):
            c, s = self.ir(k, N, D, data, outs, branches, imm)
            irs.append(c)
            srcs.append(s)
        return dict(types=self.types, src=progs.PRELUDE + '\n'.join(srcs), arch=arch, irs=irs)

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def ir(self, k, N, D, data, outs, branches, imm):
        """what some program computes, or something close to it"""
        inputs = []

        def fresh(s):
            if inputs and (len(inputs) >= 3 or self.int(0, 7) == 0):
                fit = [n for n, t in inputs if t == s]
                if fit:
                    return self.pick(fit)
                if len(inputs) >= 3:
                    return self.g.const(s)
            n = f'x{len(inputs)}'
            inputs.append((n, s))
            return n

        earlier = []
        for i in range(N):
            es = self.pick(branches)
            sub = {}
            first = self.int(0, 2) if i == 2 else 0
            for j, (n, s) in enumerate(data):
                fit = [e for e, t in earlier if t == s]
                # the last result is used by the next instruction, usually
                if first and j < 2 and s == earlier[0][1] and s == earlier[-1][1]:
                    # both results of the instructions before
                    sub[n] = earlier[0][0] if (j == 0) == (first == 1) else earlier[-1][0]
                elif fit and (j == 0 or self.int(0, 2) == 0):
                    sub[n] = self.pick(fit[-2:])
                elif not any(f'@{n}@' in e for e in es):
                    sub[n] = ''
                else:
                    sub[n] = fresh(s)
            c = self.g.const(imm) if imm else ''
            here = []
            for e, s in zip(es, outs):
                for n, t in sub.items():
                    e = e.replace(f'@{n}@', f'({t})')
                here.append((e.replace('@imm@', c), s))
            earlier += here
        how = self.int(0, 5)
        res = list(earlier[-len(outs):])
        if how == 0:
            res = [(self.tweak(e, s), s) for e, s in res]
        if len(res) > 1:
            res = self.pick([res, res[:1], res[1:], res[::-1]])
        if not inputs or self.int(0, 9) == 0:
            inputs.append((f'x{len(inputs)}', self.pick([D, ['bit']])))
        # (the expressions may not use all of them)
        ins = [[n, s, False] for n, s in inputs]
        rs = [f'r{j}' for j in range(len(res))]
        return self.comp(f'Ir{k}', ins, [s for _, s in res], [f'{r} = {e}' for r, (e, _) in zip(rs, res)], rs)

    def tweak(self, e, s):
        return self.pick([f'({e} ^ 1)', f'(~{e})', f'({e} + 1)'] if s[0] != 'bit' else [f'(~{e})'])

    def comp(self, name, ins, outs, lines, rs):
        def t(s):
            return self.g.pyname(s) if s[0] not in ('bit', 'bv') else self.g.ann(s)
        args = [f'{n}: Const({t(s)})' if c else f'{n}: {t(s)}' for n, s, c in ins]
        L = ['@family_closure', f'def {name}_fc(family):', '    Bit = family.Bit', '    BV = family.BitVector',
             '    SI = family.Signed', '    UI = family.Unsigned', '    @family.assemble(locals(), globals())',
             f'    class {name}(Peak):']
        named = self.int(0, 1)
        names = [None] * len(outs)
        if named:
            names = [f'o{j}' for j in range(len(outs))]
            L.append('        @name_outputs(' + ', '.join(f'{n}={t(s)}' for n, s in zip(names, outs)) + ')')
            ret = ''
        else:
            ret = ' -> ' + (t(outs[0]) if len(outs) == 1 else f'({", ".join(map(t, outs))})')
        L.append(f'        def __call__(self, {", ".join(args)}){ret}:')
        L += ['            ' + l for l in lines] + ['            return ' + ', '.join(rs), f'    return {name}', '']
        return dict(fc=f'{name}_fc', ins=ins, outs=[[n, s] for n, s in zip(names, outs)]), '\n'.join(L)


LIMIT = 15000     # programs tried
MOST = {1: 250, 2: 250, 3: 700}     # wirings (more take too long to solve)


# ---- programs ----
# wiring ::= per instruction {data input: ("ir", name) | ("arch", j, output) | None}

def top(s):
    return g.canon(s)


def wirings(arch, ir, N):
    data = [(n, s) for n, s, c in arch.c['ins'] if not c]
    irs = [(n, s) for n, s, _ in ir.c['ins']]
    outs = [(n if n is not None else j, s) for j, (n, s) in enumerate(arch.c['outs'])]
    slots, poss = [], []
    for i in range(N):
        for n, s in data:
            slots.append((i, n))
            poss.append([None] + [('ir', m) for m, t in irs if top(t) == top(s)]
                        + [('arch', j, o) for j in range(i) for o, t in outs if top(t) == top(s)])
    for pick in it.product(*poss):
        used = [x[1] for x in pick if x and x[0] == 'ir']
        if sorted(used) == sorted(n for n, _ in irs):
            yield dict(zip(slots, pick))


def outputs(arch, ir):
    outs = [(n if n is not None else j, s) for j, (n, s) in enumerate(arch.c['outs'])]
    want = [(n if n is not None else j, s) for j, (n, s) in enumerate(ir.c['outs'])]
    for pick in it.product(*[[o for o, t in outs if top(t) == top(s)] for _, s in want]):
        yield {o: a for (o, _), a in zip(want, pick)}


class Table:
    """the architecture: instruction number -> data -> outputs"""

    def __init__(self, prob):
        self.prob, self.arch = prob, prob.arch
        (cname, cspec), = [(n, s) for n, s, c in self.arch.c['ins'] if c]
        (_, self.cleaves), = maps.combos(prob.types, cspec, (cname,))
        self.cname, self.cspec = cname, cspec
        self.instrs = list(maps.assignments(self.cleaves))

    def __call__(self, k, data):
        r = self.arch.run(0, {**self.instrs[k], **{(n,): v for n, v in data.items()}})
        return {p[0]: v for p, v in r.items()}


def compute(T, wiring, ks, icodes, fcodes):
    """outputs of the last instruction"""
    data = [n for n, _, c in T.arch.c['ins'] if not c]
    done = []
    for i, k in enumerate(ks):
        d = {}
        for n in data:
            x = wiring[i, n]
            d[n] = fcodes[i, n] if x is None else icodes[x[1],] if x[0] == 'ir' else done[x[1]][x[2]]
        done.append(T(k, d))
    return done[-1]


def wrong(T, ir, wiring, ks, ob, order=None):
    """inputs for which a program is wrong, or None"""
    dom = {n: maps.dom(s) for n, s, _ in T.arch.c['ins']}
    free = [p for p, x in wiring.items() if x is None]
    for icodes in maps.assignments(ir.forms[0][1]):
        want = ir.run(0, icodes)
        for fv in it.product(*[dom[p[1]] for p in free]):
            got = compute(T, wiring, ks, icodes, dict(zip(free, fv)))
            if any(want[o,] != got[a] for o, a in ob.items()):
                return icodes, dict(zip(free, fv))
    return None


def search(T, ir, N):
    """some program (or None, or 'unknown'), whether there is any wiring"""
    some, left = False, LIMIT
    obs = list(outputs(T.arch, ir))
    for w in wirings(T.arch, ir, N):
        some = True
        for ks in it.product(range(len(T.instrs)), repeat=N):
            for ob in obs:
                left -= 1
                if left < 0:
                    return 'unknown', True
                if wrong(T, ir, w, ks, ob) is None:
                    return (w, ks, ob), True
    return None, some


def instruction(T, types, value):
    """number of the instruction a word stands for"""
    if T.cspec[0] in ('bit', 'bv', 'enum'):
        code = int(value)
        ks = [k for k, d in enumerate(T.instrs) if d[T.cname,] == code]
    else:
        from peak.assembler import Assembler, AssembledADT
        x = AssembledADT[types(T.cspec), Assembler, hw.BitVector](value)
        d = {}
        for n, s in g.fields(T.cspec):
            v = getattr(x, n)
            d[T.cname, n] = int(bool(v)) if s[0] == 'bit' else int(getattr(v, '_value_', v)) if s[0] == 'enum' else v.as_uint()
        ks = [k for k, e in enumerate(T.instrs) if e == d]
    require(len(ks) == 1, f'{value!r} is no instruction')
    return ks[0]


def run(case, ctx):
    prob, N, configs = case
    P = maps.Problem(prob)
    try:
        from peak.mapper.multi import Multi, Binary, OneHot
        from peak.mapper.utils import Unbound
        from peak.mapper.mapper import LoopException
        T = Table(P)
        for n, ir in enumerate(P.irs):
            if not list(outputs(P.arch, ir)):
                raises(ValueError, Multi, P.arch.fc, ir.fc, N)
                ctx.label('no output fits')
                continue
            if len(list(it.islice(wirings(P.arch, ir, N), MOST[N]))) == MOST[N]:
                ctx.label('too many wirings')
                continue
            sol, some = search(T, ir, N)
            ctx.label('too many programs' if sol == 'unknown' else 'program' if sol else 'wiring but no program' if some else 'no wiring')
            for real, iv in configs:
                kw = dict(IVar=dict(Binary=Binary, OneHot=OneHot)[iv], use_real=bool(real))
                if not some:
                    raises(ValueError, Multi, P.arch.fc, ir.fc, N, **kw)
                    ctx.count()
                    continue
                try:
                    with maps.limited():
                        r = Multi(P.arch.fc, ir.fc, N, **kw)(maxloops=150)
                except (maps.NoAnswer, LoopException):
                    ctx.label('solver gave up')
                    continue
                ctx.count()
                if sol == 'unknown' and r is None:
                    continue
                if sol is None:
                    require(r is None, f'there is no program of {N} for instruction {n}, found with {real, iv}')
                    continue
                require(r is not None, f'no program of {N} for instruction {n} found with {real, iv}, but there is {sol}')
                with contextlib.redirect_stdout(io.StringIO()):
                    info = r()
                w, ks = {}, []
                for i, b in enumerate(info.bindings):
                    for x, p in b:
                        require(p[0] == 'Arch_in' and p[1] == i and (i, p[2]) not in w, f'wiring {info.bindings}')
                        w[i, p[2]] = None if x is Unbound else ('ir', x[1]) if x[0] == 'IR_in' else ('arch', x[1], x[2])
                    (c, word), = info.instructions[i].items()
                    require(c == T.cname, f'instruction {info.instructions[i]}')
                    ks.append(instruction(T, P.types, word))
                require(len(ks) == N and w in wirings(P.arch, ir, N), f'wiring {w}')
                ob = {}
                for x, o in info.output_binding:
                    require(x[:2] == ('Arch_out', N - 1) and o[0] == 'IR_out', f'outputs {info.output_binding}')
                    ob[o[1]] = x[2]
                require(ob in outputs(P.arch, ir), f'outputs {ob}')
                bad = wrong(T, ir, w, ks, ob)
                require(bad is None, f'program {w} {ks} {ob} for instruction {n} found with {real, iv} is wrong for {bad}')
            if some:
                ctx.nontrivial = True
    finally:
        P.close()


@st.composite
def gen(draw):
    N = draw(st.sampled_from([1, 2, 2, 2, 2, 3]))
    return [Gen(draw).make(N), N, draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(['Binary', 'OneHot'])),
                                               min_size=1, max_size=3, unique=True))]


@st.composite
def three(draw):
    return [Gen(draw).make(3, draw(st.integers(0, 3)) > 0), 3, [[draw(st.integers(0, 1)), draw(st.sampled_from(['Binary', 'Binary', 'OneHot']))]]]


SUBS = [Sub('programs', gen, run, 'random architectures (dispatch on a Const operation, possibly with data, up to three data inputs) '
            'x two IR instructions, mostly compositions of its operations x one to three instructions x index encoding x real or '
            'fresh intermediate values; (at most 250 wirings); non-trivial: there is a wiring', quick=800, quick_s=28),
        Sub('three', three, run, 'the same for three instructions on single bit vectors (at most 700 wirings), mostly ones whose last '
            'instruction uses the results of both others; non-trivial: there is a wiring', quick=300, quick_s=28)]
