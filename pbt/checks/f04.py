"""Registers and memories against the obvious models."""
import warnings

from ..core import Sub, require, raises, Violation
from ..hyp import st
from .. import gens as g
from ..smt import ev, term
from .f01 import bits_of

import hwtypes as hw
from peak import Peak, family as fam
from peak.memory import RAM, ROM
from peak.register import gen_register, gen_register2

PID = 'F04'
ASSUMPTIONS = ['pysmt substitutes and simplifies correctly']

FAMS = {'Py': fam.PyFamily, 'PyX': fam.PyXFamily, 'SMT': fam.SMTFamily}


class World:
    """Values of one family, from JSON data, and back to bits"""
    def __init__(self, name, types):
        self.name, self.types = name, types
        self.F = FAMS[name]()
        self.env = {}

    def T(self, spec):
        F = self.F
        if spec[0] == 'bit':
            return F.Bit
        if spec[0] in g.LEAVES:
            return {'bv': F.BitVector, 's': F.Signed, 'u': F.Unsigned}[spec[0]][spec[1]]
        return F.get_adt_t(self.types(spec))

    def plain(self, spec, v):
        return self.types.value(spec, v)

    def value(self, spec, v, symbolic=True):
        T = self.T(spec)
        p = self.plain(spec, v)
        if self.name != 'SMT' or not symbolic:
            if spec[0] in g.LEAVES:
                return T(v)
            return p if self.name == 'Py' else T(p)
        if spec[0] in g.LEAVES:
            x = T()
            self.env[term(x)] = v
            return x
        bv = hw.SMTBitVector[g.width(spec)]()
        self.env[term(bv)] = bits_of(self.types, spec, p)
        return T(bv)

    def bit(self, v):
        return self.value(['bit'], v)

    def bits(self, spec, x):
        require(isinstance(x, self.T(spec)), self.name, 'expected', self.T(spec), 'got', type(x))
        if self.name == 'SMT':
            return ev(x, self.env)
        return bits_of(self.types, spec, x)


def registers(case, ctx):
    regs, ops = case['regs'], case['ops']
    for famname in case['fams']:
        types = g.Types()
        W = World(famname, types)
        insts, model = [], []
        for spec, init, en, how in regs:
            if how == 'int' and spec[0] in g.LEAVES:
                i = init
            elif how == 'plain':
                i = W.plain(spec, init)
                if spec[0] in g.LEAVES and famname == 'SMT':
                    i = init
            else:
                i = W.value(spec, init, symbolic=False)
            if famname == 'SMT' and spec[0] in g.LEAVES:
                i = init    # (SMT constants are no dictionary keys)
            elif famname == 'SMT':
                i = W.plain(spec, init)
            R = W.F.gen_register(W.T(spec), i) if en and how != 'kw' else W.F.gen_register(W.T(spec), i, has_enable=en)
            require(R is (W.F.gen_register(W.T(spec), i, has_enable=en)), 'the same register is another class')
            insts.append(R())
            model.append(bits_of(types, spec, W.plain(spec, init)))
        writes = 0
        for op in ops:
            k = op[1] % len(regs)
            spec, init, en, how = regs[k]
            if op[0] == 'prev':
                got = W.bits(spec, insts[k].prev())
                require(got == model[k], f'{famname}: register {k} holds {got}, not {model[k]}')
                ctx.count()
                continue
            if op[0] == 'new':
                insts[k] = type(insts[k])()
                model[k] = bits_of(types, spec, W.plain(spec, init))
                continue
            v = op[2][k % len(op[2])]
            v = v[g.canon(spec)] if isinstance(v, dict) else v
            x = W.value(spec, v)
            if en:
                e = W.bit(op[3])
                r = insts[k](x, e) if op[4] else insts[k](en=e, value=x)
            else:
                r = insts[k](x)
            got = W.bits(spec, r)
            require(got == model[k], f'{famname}: register {k} returned {got}, not {model[k]}')
            ctx.count()
            if op[3] or not en:
                model[k] = bits_of(types, spec, W.plain(spec, v))
                writes += 1
        for k, (spec, *_) in enumerate(regs):
            got = W.bits(spec, insts[k].prev())
            require(got == model[k], f'{famname}: register {k} ends as {got}, not {model[k]}')
            ctx.count()
        ctx.nontrivial |= writes >= 2 and len(regs) >= 2
        ctx.label(famname)


@st.composite
def some_specs(draw, n):
    out = []
    for _ in range(draw(st.integers(1, n))):
        if draw(st.booleans()):
            out.append(draw(st.sampled_from([['bit'], ['bv', 1], ['bv', 4], ['bv', 8], ['s', 4], ['u', 4], ['bv', 33], ['u', 65], ['s', 64]])))
        else:
            s = draw(g.specs(max_depth=2, max_width=10, zero=False))
            out.append(s)
    return out


@st.composite
def reg_cases(draw):
    regs = []
    for s in draw(some_specs(2)):
        for _ in range(draw(st.integers(1, 3))):
            regs.append([s, draw(g.values(s)), draw(st.booleans()), draw(st.sampled_from(['int', 'plain', 'fam', 'kw']))])
    ops = []
    for _ in range(draw(st.integers(1, 20))):
        k = draw(st.integers(0, len(regs) - 1))
        kind = draw(st.sampled_from(['call', 'call', 'call', 'prev', 'new']))
        if kind == 'call':
            ops.append(['call', k, [{g.canon(regs[k][0]): draw(g.values(regs[k][0]))}], draw(st.integers(0, 1)),
                        draw(st.booleans())])
        else:
            ops.append([kind, k])
    return dict(regs=regs, ops=ops, fams=['Py', 'PyX', 'SMT'])


# -- attribute registers --

def attrs(case, ctx):
    regs, ops = case['regs'], case['ops']
    for famname in ('Py', 'PyX', 'SMT'):
        types = g.Types()
        W = World(famname, types)
        classes = []
        for spec, init in regs:
            i = init if spec[0] in g.LEAVES else W.plain(spec, init)
            classes.append(W.F.gen_attr_register(W.T(spec), i))

        class Comp(Peak, gen_input_t=False, gen_output_t=False):
            def __init__(self):
                for j, c in enumerate(classes):
                    setattr(self, f'r{j}', c())
                self.plain = 3

        comps = [Comp(), Comp()]
        start = [bits_of(types, spec, W.plain(spec, init)) for spec, init in regs]
        model = [list(start), list(start)]
        plain = [3, 3]
        n = 0
        for op in ops:
            c, k = op[1] % 2, op[2] % len(regs)
            spec = regs[k][0]
            if op[0] == 'set':
                v = op[3]
                setattr(comps[c], f'r{k}', W.value(spec, v))
                model[c][k] = bits_of(types, spec, W.plain(spec, v))
                n += 1
            elif op[0] == 'copy':
                # assign what another register reads as
                setattr(comps[c], f'r{k}', getattr(comps[1 - c], f'r{k}'))
                model[c][k] = model[1 - c][k]
            elif op[0] == 'bad':
                T = W.T(spec)
                bad = [0, None, 'x', W.F.BitVector[29](0), object(), [], T]
                if not (spec[0] == 'bit'):
                    bad.append(W.F.Bit(0))
                if spec[0] in ('s', 'u'):
                    bad.append(W.F.BitVector[spec[1]](0))
                if spec[0] not in g.LEAVES:
                    bad.append(W.F.BitVector[g.width(spec)](0))
                    if famname != 'Py':
                        bad.append(W.plain(spec, regs[k][1]))
                b = bad[op[3] % len(bad)]
                raises(TypeError, setattr, comps[c], f'r{k}', b)
            elif op[0] == 'plain':
                comps[c].plain = plain[c] = op[3]
            elif op[0] == 'new':
                comps[c], model[c], plain[c] = Comp(), list(start), 3
            for cc in (0, 1):
                require(comps[cc].plain == plain[cc], 'a plain attribute lost its value')
                for kk, (s, _) in enumerate(regs):
                    got = W.bits(s, getattr(comps[cc], f'r{kk}'))
                    require(got == model[cc][kk], f'{famname}: after {op}: register {kk} of component {cc} reads {got}, '
                            f'not {model[cc][kk]}')
                    ctx.count()
        ctx.nontrivial |= n >= 2


@st.composite
def attr_cases(draw):
    regs = []
    for s in draw(some_specs(2)):
        for _ in range(draw(st.integers(1, 2))):
            regs.append([s, draw(g.values(s))])
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        kind = draw(st.sampled_from(['set', 'set', 'set', 'copy', 'bad', 'plain', 'new']))
        k = draw(st.integers(0, len(regs) - 1))
        op = [kind, draw(st.integers(0, 1)), k]
        if kind == 'set':
            op.append(draw(g.values(regs[k][0])))
        elif kind in ('bad', 'plain'):
            op.append(draw(st.integers(0, 20)))
        ops.append(op)
    return dict(regs=regs, ops=ops)


# -- memories --

def memory(case, ctx):
    spec, n, init, mem, ops = case['spec'], case['n'], case['init'], case['mem'], case['ops']
    types = g.Types()
    T = types(spec)
    val = lambda v: types.value(spec, v)
    ini = val(init)
    data = [val(v) for v in mem]
    a = lambda i, how: i if how == 0 else hw.BitVector[8](i)
    args = (T, n, list(data)) if case['zero'] else (T, n, list(data), ini)
    if case['zero']:
        ini = 0
    ram, rom = RAM(*args), ROM(*args)
    other = RAM(*args)
    start = [data[i] if i < len(data) else ini for i in range(n)]
    model = list(start)
    bit = hw.Bit
    w = 0
    for op in ops:
        i = op[1] % n
        if op[0] == 'rom':
            require(rom(a(i, op[2])) == start[i], f'ROM cell {i} changed')
        elif op[0] == 'ram':
            v = val(op[3])
            r = ram(a(i, op[2]), v, bit(op[4]))
            require(r == model[i], f'RAM cell {i} reads {r}, not {model[i]}')
            if op[4]:
                model[i] = v
                w += 1
        else:
            for j in range(n):
                r = ram(a(j, op[2]), val(op[3]), bit(0))
                require(r == model[j], f'RAM cell {j} reads {r}, not {model[j]}')
                ctx.count()
        ctx.count()
    for j in range(n):
        require(ram(j, val(init), bit(0)) == model[j], f'RAM cell {j} ends wrong')
        require(rom(j) == start[j], f'ROM cell {j} ends wrong')
        require(other(j, val(init), bit(0)) == start[j], f'another RAM changed')
        ctx.count(3)
    ctx.nontrivial = w >= 2 and n >= 2


@st.composite
def mem_cases(draw):
    spec = draw(some_specs(1))[0]
    n = draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(1, 9), st.integers(10, 70)))
    ops = []
    for _ in range(draw(st.integers(1, 25))):
        kind = draw(st.sampled_from(['ram', 'ram', 'ram', 'rom', 'all']))
        ops.append([kind, draw(st.integers(0, n - 1)), draw(st.integers(0, 1)), draw(g.values(spec)), draw(st.integers(0, 1))])
    return dict(spec=spec, n=n, init=draw(g.values(spec)), mem=[draw(g.values(spec)) for _ in range(draw(st.integers(0, n)))],
                ops=ops, zero=draw(st.integers(0, 3)) == 0)


# -- the older ways to make registers --

def old(case, ctx):
    n, init, ops = case['n'], case['init'], case['ops']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        how = case.get('how', 1)    # the initial value may be left out
        R1 = gen_register(hw.BitVector[n], *[init][:how])
        args = [[], [0], [hw.BitVector[n](init)]][how and 1 + (init > 0)]
        init = init if how else 0
    classes = [('gen_register', f, R1(FAMS[f]())) for f in FAMS] + \
              [('gen_register2', 'Py', gen_register2(hw.BitVector.get_family(), hw.BitVector[n], *args))]
    for what, f, R in classes:
        W = World(f, g.Types())
        a, b = R(), R()
        m = {0: init, 1: init}
        for which, v, en in ops:
            r = (b if which else a)(W.value(['bv', n], v), W.bit(en))
            # gen_register2 keeps the initial value it is given
            got = r if what == 'gen_register2' and type(r) is int else W.bits(['bv', n], r)
            require(got == m[which], f'{what} ({f}) returned {got}, not {m[which]}')
            ctx.count()
            if en:
                m[which] = v
    ctx.nontrivial = sum(o[2] for o in ops) >= 2


@st.composite
def old_cases(draw):
    n = draw(st.one_of(st.integers(1, 9), st.integers(1, 65)))
    v = st.integers(0, (1 << n) - 1)
    return dict(n=n, init=draw(v), how=draw(st.integers(0, 2)) and 1, ops=draw(st.lists(st.tuples(st.integers(0, 1), v, st.integers(0, 1)), min_size=1,
                                                     max_size=15)))


P = ['prod', 'P1', [['x', ['bit']], ['y', ['bv', 3]]]]
U = ['sum', [['bit'], ['bv', 3]]]
TU = ['tu', 'U1', [['x', ['bit']], ['y', ['bv', 3]]]]
REG = [dict(regs=[[s, v, en, 'plain']], ops=[['call', 0, [{g.canon(s): v2}], 1, True], ['prev', 0]], fams=['Py', 'PyX', 'SMT'])
       for s, v, v2 in ((P, [1, 5], [0, 2]), (['tup', [['bit'], ['bv', 3]]], [1, 5], [0, 2]), (U, [1, 5], [0, 1]),
                        (TU, [0, 1], [1, 6])) for en in (True, False)]

SUBS = [
    Sub('registers', reg_cases, registers, 'several registers (types x init x enable) x interleaved histories of calls, '
        'prev and re-creation, in 3 families (symbolic inputs in SMT); non-trivial: >=2 registers and writes', quick=500,
        quick_s=9, regressions=REG),
    Sub('attributes', attr_cases, attrs, 'two instances of a component with attribute registers x histories of writes, '
        'copies, rejected writes; non-trivial: >=2 writes', quick=900, quick_s=6),
    Sub('memories', mem_cases, memory, 'RAM and ROM of up to 70 cells x up to 25 accesses; non-trivial: >=2 writes, >=2 '
        'cells', quick=1200, quick_s=5),
    Sub('older', old_cases, old, 'gen_register and gen_register2 of peak.register; non-trivial: >=2 writes', quick=100,
        quick_s=4),
]
