"""Generated Peak programs: source text plus a description of its interface.

prog ::= {"types": [spec...], "src": text, "ins": [spec...], "outs": [spec...],
          "regs": [[name, spec, init value]...] (attribute registers),
          "gregs": [[name, spec, init, enable]...] (register components)}
The text defines Top_fc, given Types T0, T1... (plain ADT types) and the peak names.
"""
import importlib.util, itertools as it, os, sys

from . import gens as g
from .core import HarnessError
from .hyp import st

from hwtypes.adt import Product, Sum, Tuple, TaggedUnion
from peak.family import PyFamily

_n = it.count()

PRELUDE = '''from peak import Peak, family_closure, Const, name_outputs
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
'''


def fam_type(types, spec, F):
    """the type as declared in a family closure: enums are shared, everything else is made of the types of the family"""
    if type(F) is PyFamily:
        return types(spec)
    memo = types.__dict__.setdefault('fam', {})
    if F not in memo:
        memo[F] = g.Types(F, types)
    return memo[F](spec)


def shared_paths(spec):
    """paths through the type can be named by what is declared outside (the mapper's are), whatever the family: options
    of sums are enums, bits and bit vectors"""
    return all((spec[0] != 'sum' or s[0] in ('enum', 'bit', 'bv')) and shared_paths(s) for _, s in g.fields(spec))


def localise(src, types, specs):
    """(source, names) that declare the adts in the closures, in terms of the family, instead of globally"""
    ts = [i for i, s in enumerate(specs) if g.fields(s)]
    here = ['    HBit, HBV, HSI, HUI = family.Bit, family.BitVector, family.Signed, family.Unsigned']
    here += [f'    T{i} = ISA(family, {i})' for i in ts]
    out = []
    for l in src.split('\n'):
        out.append(l)
        if l == '    BV = family.BitVector':
            out += here
    return '\n'.join(out), {'ISA': lambda family, i: fam_type(types, specs[i], family)}


def load(src, names):
    """module with the given source (in a file, for the source rewriting) and the given names"""
    mod_name = f'pbt_prog_{next(_n)}'
    path = os.path.join(os.getcwd(), mod_name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(mod_name, path)
    mod = importlib.util.module_from_spec(spec)
    mod.__dict__.update(names)
    sys.modules[mod_name] = mod
    spec.loader.exec_module(mod)
    return mod


def unload(mod):
    sys.modules.pop(mod.__name__, None)
    try:
        os.unlink(mod.__file__)
    except OSError:
        pass


class Gen:
    """Draws one component"""

    def __init__(self, draw, prog_types, name, magma=False, allow_subs=1, size=3, sums=True, adt_regs=True,
                 inputs=None):
        self.draw, self.types, self.name, self.magma, self.size = draw, prog_types, name, magma, size
        self.allow_subs, self.sums, self.adt_regs = allow_subs, sums, adt_regs
        self.lines, self.nvar = [], 0
        self.used_types = set()

    # -- types --
    def tid(self, spec):
        if spec not in self.types:
            self.types.append(spec)
        i = self.types.index(spec)
        self.used_types.add(i)
        return i

    def ann(self, spec):
        k = spec[0]
        if k == 'bit':
            return 'Bit'
        if k == 'bv':
            return f'BV[{spec[1]}]'
        if k == 's':
            return f'SI[{spec[1]}]'
        if k == 'u':
            return f'UI[{spec[1]}]'
        return f'A{self.tid(spec)}'

    def int(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    # -- expressions --
    def expand(self, src, spec, out, d=3):
        """everything that can be read off src without looking into sums"""
        out.append((src, spec))
        if d == 0:
            return
        if spec[0] == 'prod':
            for k, s in g.fields(spec):
                self.expand(f'{src}.{k}', s, out, d - 1)
        elif spec[0] == 'tup':
            for k, s in g.fields(spec):
                self.expand(f'{src}[{k}]', s, out, d - 1)

    def readable(self, env):
        out = []
        for src, spec in env:
            self.expand(src, spec, out)
        return out

    def option(self, src, spec, k):
        if spec[0] == 'tu':
            return f'{src}.{k}'
        return f'{src}[{self.pyname(spec[1][k])}]'

    def pyname(self, spec):
        """plain type, as used to select a sum's option"""
        k = spec[0]
        if k == 'bit':
            return 'HBit'
        if k in ('bv', 's', 'u'):
            return {'bv': 'HBV', 's': 'HSI', 'u': 'HUI'}[k] + f'[{spec[1]}]'
        return f'T{self.tid(spec)}'

    def constructible(self, spec):
        return not g.contains(spec, 'sum')

    def const(self, spec):
        k = spec[0]
        if k == 'bit':
            return f'Bit({self.int(0, 1)})'
        if k in g.LEAVES:
            return f'{self.ann(spec)}({self.int(0, (1 << spec[1]) - 1)})'
        if k == 'enum':
            i = self.tid(spec)
            return f'A{i}(T{i}.{self.pick([m for m, _ in spec[2]])})'
        return self.make(spec, None, 0)

    def make(self, spec, env, d):
        """build a composite from its fields"""
        i = self.tid(spec)
        sub = (lambda s: self.const(s)) if env is None else (lambda s: self.expr(s, env, d - 1))
        if spec[0] == 'prod':
            parts = [(n, sub(s)) for n, s in g.fields(spec)]
            if self.int(0, 1):
                if self.int(0, 1):
                    parts = parts[::-1]
                return f'C{i}({", ".join(f"{n}={e}" for n, e in parts)})'
            return f'C{i}({", ".join(e for _, e in parts)})'
        if spec[0] == 'tup':
            return f'C{i}({", ".join(sub(s) for _, s in g.fields(spec))})'
        n, s = self.pick(g.fields(spec))
        return f'C{i}({n}={sub(s)})'

    def possible(self, spec, env):
        return self.constructible(spec) or any(s == spec for _, s in self.readable(env))

    def expr(self, spec, env, d=2):
        cands = [src for src, s in self.readable(env) if s == spec]
        k = spec[0]
        if cands and (d <= 0 or self.int(0, 2) > 0):
            return self.pick(cands)
        if k not in g.LEAVES:
            if cands and not self.constructible(spec):
                return self.pick(cands)
            how = self.int(0, 3)
            # (hardware multiplexers forget the adt)
            if how == 0 and d > 0 and not self.magma:
                return f'({self.expr(spec, env, d - 1)} if {self.cond(env, d - 1)} else {self.expr(spec, env, d - 1)})'
            if k == 'enum':
                return self.const(spec)
            return self.make(spec, env, d)
        if d <= 0:
            return self.const(spec)
        if k == 'bit':
            return self.bit(env, d)
        how = self.int(0, 8)
        a = lambda: self.expr(spec, env, d - 1)
        if how <= 3:
            return f'({a()} {self.pick(["+", "-", "&", "|", "^"])} {a()})'
        if how == 4:
            return f'(~{a()})'
        if how == 5:
            return f'({a()} {self.pick(["<<", ">>"])} {a()})'
        if how == 6:
            return f'({a()} if {self.cond(env, d - 1)} else {a()})'
        if how == 7:
            return f'{self.bit(env, d - 1)}.ite({a()}, {a()})'
        if k == 'bv':
            n = spec[1]
            bigger = [(src, s) for src, s in self.readable(env) if s[0] == 'bv' and s[1] > n]
            if bigger and self.int(0, 1):
                src, s = self.pick(bigger)
                lo = self.int(0, s[1] - n)
                return f'{src}[{lo}:{lo + n}]'
            smaller = [(src, s) for src, s in self.readable(env) if s[0] == 'bv' and s[1] < n]
            if smaller:
                src, s = self.pick(smaller)
                return f'{src}.{self.pick(["zext", "sext"][:1 if self.magma else 2])}({n - s[1]})'
        return f'({a()} * {a()})' if not self.magma else f'({a()} + {a()})'

    def bit(self, env, d):
        """an expression of type Bit"""
        if d <= 0:
            c = [src for src, s in self.readable(env) if s == ['bit']]
            return self.pick(c) if c else self.const(['bit'])
        how = self.int(0, 7)
        r = self.readable(env)
        if how <= 2:
            c = [(src, s) for src, s in r if s[0] in ('bv', 's', 'u')]
            if c:
                src, s = self.pick(c)
                op = self.pick(['==', '!=', '<', '<=', '>', '>='])
                if self.magma:
                    # hardware types only have part of the comparisons
                    if s[0] == 'bv' and op[0] in '<>':
                        return f'{src}.{self.pick(["bvult", "bvugt", "bvuge"])}({self.expr(s, env, d - 1)})'
                    op = '>=' if op == '<=' else op
                if self.int(0, 3) == 0 and not self.magma:
                    return f'({src} {op} {self.int(0, (1 << s[1]) - 1) if s[0] != "s" else 0})'
                return f'({src} {op} {self.expr(s, env, d - 1)})'
        if how in (3, 4) and not self.magma:
            t = self.test(env)
            if t:
                return f'Bit({t})'
        if how == 5:
            c = [(src, s) for src, s in r if s[0] == 'bv']
            if c:
                src, s = self.pick(c)
                return f'{src}[{self.int(0, s[1] - 1)}]'
        if how == 6:
            return f'(~{self.bit(env, d - 1)})'
        return f'({self.bit(env, d - 1)} {self.pick(["&", "|", "^", "=="])} {self.bit(env, d - 1)})'

    def test(self, env):
        """a comparison of enums or a match: a Bit or, in the plain family, a bool"""
        r = self.readable(env)
        c = [(src, s) for src, s in r if s[0] == 'enum']
        if self.sums:
            c += [(src, s) for src, s in r if s[0] in ('sum', 'tu')]
        if not c:
            return None
        src, s = self.pick(c)
        if s[0] == 'enum':
            return f'{src} {self.pick(["==", "!="])} T{self.tid(s)}.{self.pick([m for m, _ in s[2]])}'
        return f'{self.option(src, s, self.pick(g.fields(s))[0])}.match'

    def cond(self, env, d):
        """something only used as a condition"""
        if self.int(0, 3) == 0:
            t = self.test(env)
            if t:
                return f'({t})'
        how = self.int(0, 5)
        if how == 0 and d > 0:
            return f'(({self.cond(env, d - 1)}) {self.pick(["and", "or"])} ({self.cond(env, d - 1)}))'
        if how == 1 and d > 0:
            return f'(not ({self.cond(env, d - 1)}))'
        return self.bit(env, max(d, 1))

    # -- statements --
    def emit(self, ind, s):
        self.lines.append('    ' * ind + s)

    def newvar(self):
        self.nvar += 1
        return f'v{self.nvar}'

    def some_type(self, env):
        r = [s for _, s in self.readable(env)]
        return self.pick(r)

    def block(self, ind, env, assignable, depth, n):
        """statements of one block; env is extended in place. True if it ended in a return"""
        did = False
        for j in range(n):
            how = self.int(0, 9)
            if how <= 2 or (how >= 6 and depth <= 0):
                s = self.some_type(env)
                v = self.newvar()
                self.emit(ind, f'{v} = {self.expr(s, env)}')
                env.append((v, s))
                if not self.magma or s[0] in g.LEAVES:
                    assignable.append((v, s))
                did = True
            elif how == 3 and assignable:
                v, s = self.pick(assignable)
                self.emit(ind, f'{v} = {self.expr(s, env)}')
                did = True
            elif how in (4, 5) and self.regs:
                name, s, _ = self.pick(self.regs)
                self.emit(ind, f'self.{name} = {self.expr(s, env)}')
                did = True
            elif how >= 6:
                self.if_(ind, env, assignable, depth)
                did = True
        if not did:
            v = self.newvar()
            s = self.some_type(env)
            self.emit(ind, f'{v} = {self.expr(s, env)}')
            env.append((v, s))
            if not self.magma or s[0] in g.LEAVES:
                assignable.append((v, s))
        return False

    def if_(self, ind, env, assignable, depth):
        guard = None
        sums = [(src, s) for src, s in self.readable([e for e in env if e[0].startswith('i')]) if s[0] in ('sum', 'tu')]
        if sums and self.sums and self.int(0, 1):
            src, s = self.pick(sums)
            key, fs = self.pick(g.fields(s))
            o = self.option(src, s, key)
            guard = (f'{o}.value', fs)
            self.emit(ind, f'if {o}.match:')
        else:
            self.emit(ind, f'if {self.cond(env, 2)}:')
        arms = self.int(0, 2)
        for arm in range(arms + 1):
            if arm:
                if arm == arms and self.int(0, 1):
                    self.emit(ind, 'else:')
                else:
                    self.emit(ind, f'elif {self.cond(env, 1)}:')
            e, a = list(env), list(assignable)
            if arm == 0 and guard:
                e.append(guard)
            self.block(ind + 1, e, a, depth - 1, self.int(1, 2))
            if self.returns and self.int(0, 5) == 0:
                self.ret(ind + 1, e)

    def ret(self, ind, env):
        es = [self.expr(s, env) for s in self.outs]
        if self.magma:
            regs = {f'(self.{n} & self.{n})': f'self.{n}' for n, _, _ in self.regs}
            es = [regs.get(e, e) for e in es]
        self.emit(ind, 'return ' + ', '.join(es))

    def component(self, ins=None):
        self.subs = []
        if ins is None:
            ins = []
            for _ in range(self.int(1, 2)):
                ins.append(self.draw(st.sampled_from([['bit'], ['bv', 1], ['bv', 2], ['bv', 3], ['bv', 4]]
                                                     + ([['s', 3], ['u', 2]] if not self.magma else [['s', 3]])
                                                     + [['bv', 8], ['bv', 17], ['s', 9]]
                                                     + ([] if self.magma else [['bv', 33], ['u', 16]]))))
            for _ in range(self.int(0, 1) if self.allow_subs == 0 else self.int(0, 2)):
                kinds = ('prod', 'tup', 'sum', 'tu') if self.sums else ('prod', 'tup')
                ins.append(self.draw(g.specs(max_depth=2, max_width=9, zero=False, kinds=kinds,
                                             leaves=('bit', 'bv', 'enum') + (('s',) if not self.magma else ()),
                                             top=kinds + ('enum',), max_fields=3, bits=3)))
            ins = [s for s in ins if not g.has_zero(s)]
            ins = list(self.draw(st.permutations(ins)))
        self.ins = ins
        env = [(f'i{j}', s) for j, s in enumerate(ins)]
        self.regs, self.gregs = [], []
        for j in range(self.int(0, 2)):
            opts = [['bit'], ['bv', 2], ['bv', 3]]
            if self.adt_regs:
                opts += [s for _, s in self.readable(env) if s[0] not in g.LEAVES and self.constructible(s)]
            s = self.pick(opts)
            self.regs.append([f'r{j}', s, self.draw(g.values(s))])
        for j in range(self.int(0, 1)):
            s = self.pick([['bit'], ['bv', 2], ['bv', 3]])
            self.gregs.append([f'g{j}', s, self.draw(g.values(s)), self.int(0, 1)])
        if self.allow_subs and self.int(0, 1):
            sub = Gen(self.draw, self.types, self.name + 'Sub', magma=self.magma, allow_subs=self.allow_subs - 1,
                      size=2, sums=self.sums, adt_regs=self.adt_regs)
            text = sub.component()
            self.subs.append((f's0', sub, text))
        # what reads a hardware register has no methods
        env += [(f'(self.{n} & self.{n})' if self.magma else f'self.{n}', s) for n, s, _ in self.regs]
        inenv = list(env)
        # outputs: something that can be computed from the inputs
        self.outs = [self.pick([s for _, s in self.readable(env) if self.possible(s, inenv)])
                     for _ in range(self.int(1, 2))]
        self.returns = True
        assignable = []
        pend = [('g', x) for x in self.gregs] + [('s', x) for x in self.subs]
        n = self.int(1, self.size)
        # components are used exactly once, and unconditionally
        self.returns = False
        if self.magma:
            # hardware registers must be driven
            for name, spec, _ in self.regs:
                self.emit(0, f'self.{name} = ' + (f'self.{name}' if self.int(0, 2) else self.expr(spec, env)))
        for kind, x in pend:
            self.block(0, env, assignable, 2, self.int(0, 1))
            if kind == 'g':
                name, s, _, en = x
                v = self.newvar()
                args = self.expr(s, env) + (f', {self.bit(env, 1)}' if en else '')
                self.emit(0, f'{v} = self.{name}({args})')
                env.append((v, s))
            else:
                name, sub, _ = x
                for s in sub.ins:
                    # arguments must exist
                    if not self.possible(s, env):
                        break
                else:
                    args = ', '.join(self.expr(s, env, 1) for s in sub.ins)
                    vs = [self.newvar() for _ in sub.outs]
                    self.emit(0, f'{", ".join(vs)} = self.{name}({args})')
                    env += list(zip(vs, sub.outs))
                    continue
                self.subs = [y for y in self.subs if y[0] != name]
        self.returns = not self.magma
        self.block(0, env, assignable, 3, n)
        self.ret(0, env)
        return self.render()

    def render(self):
        L = []
        for _, sub, text in self.subs:
            L.append(text)
        N = self.name
        body = []
        # hardware interfaces are declared with the plain adts
        ann_ = self.pyname if self.magma else self.ann
        ann = [f'i{j}: {ann_(s)}' for j, s in enumerate(self.ins)]
        outs = ', '.join(ann_(s) for s in self.outs)
        if len(self.outs) > 1:
            outs = f'({outs})'
        inits = []
        for n, s, v in self.regs:
            body.append(f'    R_{n} = family.gen_attr_register({self.ann(s)}, {self.init(s, v)})')
            inits.append(f'            self.{n} = R_{n}()')
        for n, s, v, en in self.gregs:
            extra = '' if en else ', has_enable=False'
            body.append(f'    R_{n} = family.gen_register({self.ann(s)}, {v}{extra})')
            inits.append(f'            self.{n} = R_{n}()')
        for n, sub, _ in self.subs:
            body.append(f'    S_{n} = {sub.name}_fc(family)')
            inits.append(f'            self.{n} = S_{n}()')
        heads = ['    Bit = family.Bit', '    BV = family.BitVector', '    SI = family.Signed', '    UI = family.Unsigned']
        for i in sorted(self.used_types):
            heads.append(f'    A{i} = family.get_adt_t(T{i})')
            heads.append(f'    C{i} = family.get_constructor(T{i})')
        L.append('@family_closure')
        L.append(f'def {N}_fc(family):')
        L += heads + body
        L.append('    @family.assemble(locals(), globals())')
        L.append(f'    class {N}(Peak):')
        if inits:
            L.append('        def __init__(self):')
            L += inits
        L.append(f'        def __call__(self, {", ".join(ann)}) -> {outs}:')
        L += ['            ' + l for l in self.lines]
        L.append(f'    return {N}')
        return '\n'.join(L) + '\n'

    def init(self, spec, v):
        if spec[0] in g.LEAVES:
            return repr(v)
        return self.pyvalue(spec, v)

    def pyvalue(self, spec, v):
        k = spec[0]
        if k == 'bit':
            return f'HBit({v})'
        if k in g.LEAVES:
            return f'{self.pyname(spec)}({v})'
        i = self.tid(spec)
        if k == 'enum':
            return f'T{i}.{v}'
        if k in ('prod', 'tup'):
            return f'T{i}({", ".join(self.pyvalue(s, x) for (_, s), x in zip(g.fields(spec), v))})'
        n, s = g.fields(spec)[v[0]]
        x = self.pyvalue(s, v[1])
        return f'T{i}({x})' if k == 'sum' else f'T{i}({n}={x})'


@st.composite
def programs(draw, magma=False, subs=1, size=3, hist=4, **kw):
    types = []
    gen = Gen(draw, types, 'Top', magma=magma, allow_subs=subs, size=size, **kw)
    src = PRELUDE + gen.component()
    vals = [[draw(g.values(s)) for s in gen.ins] for _ in range(draw(st.integers(1, hist)))]
    return dict(types=types, src=src, ins=gen.ins, outs=gen.outs,
                regs=gen.regs, gregs=gen.gregs, hist=vals)


class Program:
    def __init__(self, prog):
        import hwtypes as hw
        self.p = prog
        self.types = g.Types()
        names = {f'T{i}': self.types(s) for i, s in enumerate(prog['types'])}
        names.update(HBit=hw.Bit, HBV=hw.BitVector, HSI=hw.SIntVector, HUI=hw.UIntVector)
        src = prog['src']
        self.local = prog.get('local', False)
        if self.local:
            src, isa = localise(src, self.types, prog['types'])
            names.update(isa)
        self.mod = load(src, names)
        self.fc = self.mod.Top_fc

    def close(self):
        unload(self.mod)

    def adt(self, spec, F):
        """type of values of the family"""
        return F.get_adt_t(fam_type(self.types, spec, F) if self.local else self.types(spec))

    def plain(self, spec, v):
        return self.types.value(spec, v)
