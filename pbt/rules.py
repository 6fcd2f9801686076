"""Arbitrary (not necessarily correct) rules between arbitrary interfaces."""
import json

import hwtypes as hw
from hypothesis import strategies as st

from . import gens as g, maps, progs
from .core import require

NAMES = ['a', 'b', 'op', 'inst', 'unbound', 'type', 'value', 'width', 'ibinding', 'x0', 'Z', '_t', 'data', 'in0']


@st.composite
def ins(draw, const, max_depth=2, max_width=14, n=3, wide=False, big=False):
    k = 1 if big else draw(st.integers(1, n))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=k, max_size=k, unique=True))
    out = []
    for name in names:
        if big:
            spec = draw(g.big_specs(max_depth=3, max_width=80, zero=False))
        elif wide and draw(st.integers(0, 4)) == 0:
            spec = [draw(st.sampled_from(['bv', 's', 'u'])), draw(st.sampled_from([16, 31, 32, 33, 64]))]
        else:
            spec = draw(g.specs(max_depth=max_depth, max_width=max_width, zero=False))
        out.append([name, spec,
                    const and draw(st.booleans())])
    return out


def rename(x, pre):
    """type names of the two interfaces differ"""
    if x[0] in ('enum',):
        return [x[0], pre + x[1], x[2]]
    if x[0] in ('prod', 'tu'):
        return [x[0], pre + x[1], [[n, rename(s, pre)] for n, s in x[2]]]
    if x[0] in ('tup', 'sum'):
        return [x[0], [rename(s, pre) for s in x[1]]]
    return x


@st.composite
def interfaces(draw, wide=False, big=False):
    """[ir ins, arch ins, numbers that choose forms and bindings]"""
    ir = draw(ins(False, wide=wide, big=big))
    ir = [[n, rename(s, f'I{i}'), False] for i, (n, s, _) in enumerate(ir)]
    arch = draw(ins(True, wide=wide, big=big))
    arch = [[n, rename(s, f'J{i}'), c] for i, (n, s, c) in enumerate(arch)]
    return [ir, arch, draw(st.lists(st.integers(0, 10 ** 19 if wide or big else 9999), min_size=24, max_size=24))]


OUTS = [['bit'], ['bit']]


def source(name, ins, types, inside):
    L = ['@family_closure', f'def {name}_fc(family):', '    Bit = family.Bit', '    BV = family.BitVector']
    args = []
    for n, s, c in ins:
        t = f'T{types.index(s)}'
        if s[0] == 'bv' and inside:
            t = f'BV[{s[1]}]'
        if s[0] == 'bit' and inside:
            t = 'Bit'
        args.append(f'{n}: Const({t})' if c else f'{n}: {t}')
    L += ['    @family.assemble(locals(), globals())', f'    class {name}(Peak):',
          f'        def __call__(self, {", ".join(args)}) -> (Bit, Bit):', '            return Bit(0), Bit(1)',
          f'    return {name}', '']
    return '\n'.join(L)


class Rule:
    """A rule and what it should do: which value goes where"""

    def __init__(self, case):
        ir, arch, picks = case
        self.picks = list(picks)
        self.n = 0
        self.types = T = g.Types()
        # forms
        self.iform, il = self.form(ir)
        aform, al = self.form(arch)
        # every IR leaf finds a partner
        arch = [list(x) for x in arch]
        bind = {}
        ordered = sorted(il, key=lambda p: g.canon([str(q) for q in p]) + str(self.pick(3)))
        for i in ordered:
            fit = [p for p in al if p not in bind and g.canon(al[p]) == g.canon(il[i])]
            if not fit or self.pick(3) == 0:
                name = f'm{len(arch)}'
                arch.insert(self.pick(len(arch) + 1), [name, il[i], self.pick(3) == 0])
                al[(name,)] = il[i]
                fit = [(name,)]
            bind[fit[self.pick(len(fit))]] = i
        const = {n: c for n, _, c in arch}
        self.ir, self.arch = ir, arch
        self.il, self.al = il, {}
        # (in order of declaration)
        for n, s, _ in arch:
            for p in al:
                if p[0] == n:
                    self.al[p] = al[p]
        self.aform = aform
        self.const = {p: const[p[0]] for p in self.al}
        self.bind = {}
        for p, s in self.al.items():
            if p in bind:
                self.bind[p] = bind[p]
                continue
            how = self.pick(4)
            same = [i for i in il if g.canon(il[i]) == g.canon(s)]
            if how == 0 and same:
                self.bind[p] = same[self.pick(len(same))]
            elif how in (1, 2) or self.const[p]:
                self.bind[p] = nth(s, self.pick(1 << 64))
            else:
                self.bind[p] = None
        self.order = sorted(self.al, key=lambda p: self.pick(1000)) if self.pick(2) else list(self.al)
        specs = []
        for _, s, _ in ir + arch:
            if s not in specs:
                specs.append(s)
        self.specs = specs
        ns = {f'T{i}': T(s) for i, s in enumerate(specs)}
        inside = self.pick(2)
        src = progs.PRELUDE + source('Ir', ir, specs, inside) + '\n' + source('Arch', arch, specs, inside)
        self.outs = self.pick(5)
        # (asked last: older cases mean what they did)
        self.local = self.pick(2) and all(map(progs.shared_paths, specs))
        if self.local:
            src, isa = progs.localise(src, T, specs)
            ns.update(isa)
        self.mod = progs.load(src, ns)

    def pick(self, n):
        x = self.picks[self.n % len(self.picks)] // (1 + self.n // len(self.picks))
        self.n += 1
        return x % n

    def form(self, ins):
        choice, leaves = {}, {}
        for n, s, _ in ins:
            self.choose(s, (n,), choice, leaves)
        return choice, leaves

    def choose(self, spec, path, choice, leaves):
        fs = g.fields(spec)
        if not fs:
            leaves[path] = spec
        elif spec[0] in ('prod', 'tup'):
            for k, s in fs:
                self.choose(s, path + (k,), choice, leaves)
        else:
            i = choice[path] = self.pick(len(fs))
            k, s = fs[i]
            self.choose(s, path + (self.types.key(spec, k),), choice, leaves)

    def close(self):
        progs.unload(self.mod)

    def free(self):
        return [p for p, x in self.bind.items() if x is None]

    def values(self, style):
        """the binding as given to RewriteRule: codes in some python form"""
        from peak.mapper.utils import Unbound
        out = []
        for j, p in enumerate(self.order):
            x, s = self.bind[p], self.al[p]
            if isinstance(x, tuple):
                out.append((x, p))
            elif x is None:
                out.append((Unbound, p))
            else:
                out.append((self.leaf(s, x, style + j), p))
        return out

    def leaf(self, s, code, style):
        if s[0] == 'bit':
            return hw.Bit(code) if style % 2 else bool(code)
        if s[0] == 'enum':
            if style % 2:
                return hw.BitVector[g.width(s)](code)
            m, = [m for m, v in g.enum_codes(s).items() if v == code]
            return getattr(self.types(s), m)
        if style % 3 == 0:
            return code
        return (hw.BitVector if style % 3 == 1 else hw.UIntVector)[s[1]](code)

    def obinding(self):
        from peak.mapper.utils import Unbound
        return [[((0,), (0,)), ((1,), (1,))], [((0,), (1,)), ((1,), (0,))], [((0,), (0,)), (Unbound, (1,))],
                [((1,), (0,)), (Unbound, (1,))], [(Unbound, (0,)), ((0,), (1,))]][self.outs]

    def rule(self, style=0):
        from peak.mapper import RewriteRule
        return RewriteRule(self.values(style), self.obinding(), self.mod.Ir_fc, self.mod.Arch_fc)


def codes(spec):
    if spec[0] == 'enum':
        return list(g.enum_codes(spec).values())
    return range(1 << g.width(spec))


def nth(spec, n):
    if spec[0] == 'enum':
        d = codes(spec)
        return d[n % len(d)]
    return n % (1 << g.width(spec))


MATCH = ('match',)   # no member has this name


def read(types, spec, x, path, choice, out, F=None):
    """leaves of an assembled value; F: the family in whose terms the type is declared"""
    from peak.assembler import AssembledADT
    fs = g.fields(spec)
    T = types(spec) if F is None else progs.fam_type(types, spec, F)
    if not fs:
        if spec[0] == 'enum':
            require(isinstance(x, AssembledADT) and type(x).adt_t is T, f'{x!r} at {path}')
            x = x._value_
        out[path] = x
        return
    require(isinstance(x, AssembledADT) and type(x).adt_t is T, f'{x!r} at {path}')
    if spec[0] in ('prod', 'tup'):
        for k, s in fs:
            read(types, s, getattr(x, k) if spec[0] == 'prod' else x[k], path + (k,), choice, out, F)
        return
    k, s = fs[choice[path]]
    m = getattr(x, k) if spec[0] != 'sum' else x[types.key(spec, k) if F is None else progs.fam_type(types, s, F)]
    out[path + (MATCH,)] = m.match
    read(types, s, m.value, path + (types.key(spec, k),), choice, out, F)
