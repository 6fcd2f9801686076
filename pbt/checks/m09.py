"""What the inputs built from a rule carry, leaf by leaf."""
import hwtypes as hw

from ..core import Sub, require, raises
from ..hyp import st
from .. import gens as g, rules
from ..smt import ev, term

PID = 'M09'
ASSUMPTIONS = ['types have no parts of no bits', 'nested Const modifiers are not used']


def fams():
    from peak import family
    return [('Py', family.PyFamily()), ('PyX', family.PyXFamily()), ('SMT', family.SMTFamily())]


def code(x, env):
    if isinstance(x, (hw.SMTBit, hw.SMTBitVector)):
        return ev(x, env)
    return int(bool(x)) if isinstance(x, hw.Bit) else x.as_uint()


def run(case, ctx):
    iface, vals, style, bad = case
    R = rules.Rule(iface)
    try:
        from peak.mapper import RewriteRule
        from peak.mapper.utils import Unbound
        rr = R.rule(style)
        # constants become bit vectors
        for (x, p), (y, q) in zip(rr.ibinding, R.values(style)):
            require(p == q, 'order of the binding')
            want = R.bind[p]
            if want is None:
                require(x is Unbound, f'{x!r} for free {p}')
            elif isinstance(want, tuple):
                require(x == want, f'{x!r} for {p}')
            else:
                require(isinstance(x, (hw.Bit, hw.BitVector)) and code(x, {}) == want, f'{x!r} for {p}, not {want}')
        irs, arch = rr.get_input_paths()
        require(set(irs) == set(R.il) and set(arch) == set(R.free()), f'inputs {irs} {arch}')

        names = ['Py', 'PyX', 'SMT', 'free']
        for how, (name, fam) in zip(names, fams() + [('SMT', fams()[-1][1])]):
            env = {}
            n = [0]

            def value(s):
                v = vals[n[0] % len(vals)] + n[0] // len(vals)
                n[0] += 1
                c = rules.nth(s, v)
                w = g.width(s)
                if how == 'free':
                    x = fam.Bit() if s[0] == 'bit' else fam.BitVector[w]()
                    env[term(x)] = c
                    return c, x
                if s[0] == 'bit':
                    return c, fam.Bit(c)
                if s[0] == 'enum' and how == 'Py' and v % 2:
                    m, = [m for m, k in g.enum_codes(s).items() if k == c]
                    return c, getattr(R.types(s), m)
                return c, (fam.Signed if s[0] == 's' else fam.Unsigned if s[0] == 'u' else fam.BitVector)[w](c)

            iv = {p: value(s) for p, s in R.il.items()}
            av = {p: value(R.al[p]) for p in R.free()}
            ii, ai = {p: x for p, (_, x) in iv.items()}, {p: x for p, (_, x) in av.items()}
            got_ir, got_arch = rr.build_inputs(ii, ai, fam)
            for side, ins, choice, got in (('ir', R.ir, R.iform, got_ir), ('arch', R.arch, R.aform, got_arch)):
                require(list(got) == [n for n, _, _ in ins], f'{side} inputs {list(got)}')
                leaves = {}
                for nm, s, _ in ins:
                    rules.read(R.types, s, got[nm], (nm,), choice, leaves, fam if R.local else None)
                for p, x in leaves.items():
                    if p[-1] == rules.MATCH:
                        require(code(x, env) == 1, f'{how}: {side} {p[:-1]} does not match its option')
                        continue
                    if side == 'ir':
                        want = iv[p][0]
                    else:
                        b = R.bind[p]
                        want = av[p][0] if b is None else iv[b][0] if isinstance(b, tuple) else b
                    c = code(x, env)
                    require(c == want, f'{how}: {side} {p} is {c}, not {want}')
                    ctx.count()
            # wrong assignments
            for d, e in wrong(ii, ai, bad):
                raises(ValueError, rr.build_inputs, d, e, fam)
                ctx.count()
        ctx.label('sums' if R.aform or R.iform else 'no sums')
        if len(R.bind) > 1:
            ctx.nontrivial = True

        # rules that make no sense
        base = R.values(style)
        for j, p in enumerate(R.order):
            if R.const[p]:
                worse = base[:j] + [(Unbound, p)] + base[j + 1:]
                raises(ValueError, RewriteRule, worse, R.obinding(), R.mod.Ir_fc, R.mod.Arch_fc)
                ctx.label('unbound const')
            s = R.al[p]
            if s[0] == 'enum':
                # the codes of large enums are too many to list
                w = g.width(s)
                free = {*range(1 << min(w, 8)), *range((1 << w) - 5 if w > 8 else 0, 1 << w)} - set(rules.codes(s))
                if free:
                    x = hw.BitVector[g.width(s)](sorted(free)[bad % len(free)])
                    worse = base[:j] + [(x, p)] + base[j + 1:]
                    raises(ValueError, RewriteRule, worse, R.obinding(), R.mod.Ir_fc, R.mod.Arch_fc)
                    ctx.label('invalid constant')
    finally:
        R.close()


def wrong(ii, ai, n):
    k = list(ii)[n % len(ii)]
    yield {p: x for p, x in ii.items() if p != k}, ai
    yield {**ii, ('nothere',): ii[k]}, ai
    yield ii, {**ai, ('nothere',): ii[k]}
    yield ii, {**ai, k + ('nope',): ii[k]}
    if ai:
        k = list(ai)[n % len(ai)]
        yield ii, {p: x for p, x in ai.items() if p != k}
        yield {**ii, k + ('nope',): ai[k]}, ai


@st.composite
def gen(draw, big=False):
    return [draw(rules.interfaces(big=big)), draw(st.lists(st.integers(0, 9999), min_size=12, max_size=12)),
            draw(st.integers(0, 5)), draw(st.integers(0, 9))]


SUBS = [Sub('inputs', gen, run, 'random interfaces (up to three inputs and those needed to bind every IR leaf; all kinds of types, '
            'nested up to two deep) x form x binding (IR leaves bound once or several times, constants in several styles, '
            'free leaves; any order) x values x Python, PyX and SMT families (constants and variables); wrong assignments '
            'and rules; non-trivial: more than one architecture leaf', quick=4500, quick_s=45),
        Sub('large', lambda: gen(big=True), run, 'the same with interfaces of one large type each (up to 80 bits, 3 deep, 40 fields, options or members)', quick=160, quick_s=15)]
