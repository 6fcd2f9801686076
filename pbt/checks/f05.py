"""Family closures as memo tables; families as values."""
import types as pytypes

from ..core import Sub, require
from ..hyp import st

import hwtypes as hw
from peak import Peak, family_closure, family as fam
from peak.assembler import Assembler as A1
from peak.assembler2.assembler import Assembler as A2

PID = 'F05'
ASSUMPTIONS = ['arguments are compared by the memo the way dictionaries do, written the same way at every request']


class A3(A1):
    pass


class MyPy(fam.PyFamily):
    pass


class MyPyX(fam.PyXFamily):
    pass


class MySMT(fam.SMTFamily):
    pass


class MySMT2(fam.SMTFamily):
    pass


class MyMySMT(MySMT):
    pass


class MyMagma(fam.MagmaFamily):
    pass


KINDS = {c.__name__: c for c in (fam.PyFamily, fam.PyXFamily, fam.SMTFamily, fam.MagmaFamily, MyPy, MyPyX, MySMT, MySMT2,
                                 MyMySMT, MyMagma)}
ASMS = {'none': None, 'A1': A1, 'A2': A2, 'A3': A3}


def kind_of(spec):
    """what makes a family what it is"""
    kind, asm = spec
    if issubclass(KINDS[kind], fam.PyFamily) and not issubclass(KINDS[kind], fam.PyXFamily):
        return (kind,)
    return (kind, 'A1' if asm == 'none' else asm)


def make(spec):
    kind, asm = spec
    if asm == 'none':
        return KINDS[kind]()
    return KINDS[kind](assembler=ASMS[asm])


famspecs = st.tuples(st.one_of(st.sampled_from(['PyFamily', 'PyXFamily', 'SMTFamily', 'MagmaFamily']), st.sampled_from(sorted(KINDS))),
                     st.sampled_from(['none', 'none', 'A1', 'A2', 'A3']))


def laws(specs, ctx):
    fams = [make(s) for s in specs]
    for s, a in zip(specs, fams):
        for t, b in zip(specs, fams):
            want = kind_of(s) == kind_of(t)
            require(isinstance(a == b, bool) and (a == b) == want, f'{s} == {t} is {a == b}')
            require((a != b) == (not want), f'{s} != {t} is {a != b}')
            require(({a: 1}.get(b) == 1) == want, f'{t} looked up as {s} as a dictionary key')
            if want:
                require(hash(a) == hash(b), f'{s} and {t} are equal but hash differently')
            ctx.count()
        for x in (None, 5, 'x', type(a), object(), hw.Bit):
            require(not (a == x) and not (x == a) and a != x, f'{s} equals {x!r}')
    require(len(set(fams)) == len(set(map(kind_of, specs))), 'a set of families has the wrong size')
    ctx.nontrivial = len(set(map(kind_of, specs))) < len(specs) > 2


ARGS = [(), (1,), (2,), ('a',), (None,), (1, 2), (2, 1), ((1, 2),), (hw.Bit,), (hw.BitVector[4],), (hw.BitVector[5],)]
KW = [(), (('n', 3),), (('n', 4),), (('m', 3),), (('n', 3), ('m', 4))]


def memo(case, ctx):
    runs = []

    def closure(i):
        def fc(family, *args, **kwargs):
            runs.append((i, family, args, tuple(kwargs.items())))
            if fail[0]:
                raise KeyError('not now')

            class C(Peak):
                def __call__(self, x: family.Bit) -> family.Bit:
                    return x
            C.made = (i, family, args, tuple(kwargs.items()))
            return C
        return fc

    def inner(i):
        f0 = family_closure(closure(i))

        def fc(family, *args, **kwargs):
            runs.append((i + 10, family, args, tuple(kwargs.items())))
            sub = f0(family, *args, **kwargs)

            class C(Peak):
                def __call__(self, x: family.Bit) -> family.Bit:
                    return sub()(x)
            C.sub = sub
            C.made = (i + 10, family, args, tuple(kwargs.items()))
            return C
        return f0, family_closure(fc)

    fail = [False]
    mine = pytypes.SimpleNamespace(PyFamily=MyPy, PyXFamily=MyPyX, SMTFamily=MySMT, MagmaFamily=MyMagma)
    f0, f1 = inner(0)
    f2 = family_closure(mine)(closure(2))
    fcs = [f0, f1, f2, family_closure(closure(3))]
    names = ['Py', 'PyX', 'SMT', 'Magma']
    known = {}
    for op in case:
        i = op[1] % len(fcs)
        if op[0] == 'attr':
            name = names[op[2]]
            spec = [(KINDS[name + 'Family'] if i != 2 else getattr(mine, name + 'Family')).__name__, 'none']
            args, kw = (), ()
            get = lambda: getattr(fcs[i], name)
        else:
            spec, args, kw = op[2], ARGS[op[3] % len(ARGS)], KW[op[4] % len(KW)]
            get = lambda: fcs[i](make(spec), *args, **dict(kw))
        key = (i, kind_of(spec), args, kw)
        before = len(runs)
        if op[0] == 'fail' and key not in known:
            fail[0] = True
            try:
                get()
                require(i == 1 and (0,) + key[1:] in known, 'the closure was not run')
                # the outer closure needed nothing new
                known[key] = get()
                before += 1
            except KeyError:
                before = len(runs)
            finally:
                fail[0] = False
            continue
        c = get()
        if key in known:
            require(c is known[key], f'another class for {op}')
            require(len(runs) == before, f'closure run again for {op}')
        else:
            n = 1 + (i == 1 and (0,) + key[1:] not in known)
            require(len(runs) == before + n, f'closure run {len(runs) - before} times for {op}')
            require(all(c is not v for v in known.values()), f'shared class for {op}')
            require(c.made[0] == (i if i != 1 else 10) and c.made[1] == make(spec) and type(c.made[1]) is KINDS[spec[0]]
                    and c.made[2:] == (args, kw), f'closure called with {c.made} for {op}')
            known[key] = c
            if i == 1:
                known.setdefault((0,) + key[1:], c.sub)
        ctx.count()
    ctx.nontrivial = len(known) >= 2 and len(known) < sum(o[0] != 'fail' for o in case)


ops = st.one_of(
    st.tuples(st.just('attr'), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.sampled_from(['call', 'call', 'call', 'fail']), st.integers(0, 3), famspecs,
              st.one_of(st.just(0), st.integers(0, len(ARGS) - 1)), st.one_of(st.just(0), st.integers(0, len(KW) - 1))))

SUBS = [
    Sub('laws', lambda: st.lists(famspecs, min_size=2, max_size=6), laws, '2..6 families of all kinds and assemblers, '
        'also user-defined kinds; non-trivial: equal and different ones', quick=3000, quick_s=5,
        regressions=[[['PyFamily', 'none'], ['PyXFamily', 'none'], ['MyPy', 'none']],
                     [['SMTFamily', 'none'], ['MySMT', 'none'], ['MySMT2', 'none'], ['MyMySMT', 'none']],
                     [['PyXFamily', 'A1'], ['PyXFamily', 'A2'], ['PyXFamily', 'none'], ['MyPyX', 'none']],
                     [['MagmaFamily', 'A2'], ['MagmaFamily', 'none'], ['MyMagma', 'A2']]]),
    Sub('memo', lambda: st.lists(ops, min_size=5, max_size=25), memo, 'up to 25 requests to four closures (one nested, '
        'one with its own family module, some of which fail); non-trivial: repeated and different requests',
        quick=2000, quick_s=8),
]
