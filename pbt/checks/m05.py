"""Writing bindings down and reading them back."""
import copy, json

import hwtypes as hw

from ..core import Sub, require
from ..hyp import st
from .. import gens as g, rules
from .m09 import code

PID = 'M05'
ASSUMPTIONS = ['types have no parts of no bits', 'nested Const modifiers are not used']


def plain(binding):
    from peak.mapper.utils import Unbound
    out = []
    for x, p in binding:
        require(type(p) is tuple, f'path {p!r}')
        if x is Unbound:
            x = 'free'
        elif isinstance(x, tuple):
            x = list(x)
        else:
            require(isinstance(x, (hw.Bit, hw.BitVector)), f'value {x!r}')
            x = ['bit', int(bool(x))] if isinstance(x, hw.Bit) else [x.size, x.as_uint()]
        out.append((x, list(p)))
    return out


def run(case, ctx):
    iface, vals, style = case
    R = rules.Rule(iface)
    try:
        from peak.mapper import read_serialized_bindings
        from peak import family
        fam = family.PyFamily()
        rr = R.rule(style)
        want = plain(rr.ibinding), plain(rr.obinding)
        s = rr.serialize_bindings()
        require((plain(rr.ibinding), plain(rr.obinding)) == want, 'serialising changed the rule')
        paths = [p for p, _ in zip(R.al, range(99))] + list(R.il)
        jsonable = all(isinstance(k, (str, int)) for p in paths for k in p)
        forms = [('direct', s), ('twice', None)]
        if jsonable:
            forms += [('json', json.loads(json.dumps(s))), ('json twice', None)]
        last = None
        for how, data in forms:
            if data is None:
                data = last.serialize_bindings()
                if 'json' in how:
                    data = json.loads(json.dumps(data))
            keep = repr(data)
            back = last = read_serialized_bindings(data, R.mod.Ir_fc, R.mod.Arch_fc)
            require(repr(data) == keep, 'reading changed the data')
            require(plain(back.ibinding) == want[0], f'{how}: inputs {back.ibinding}, written from {rr.ibinding}')
            require(plain(back.obinding) == want[1], f'{how}: outputs {back.obinding}, written from {rr.obinding}')
            require(back.ir_fc is R.mod.Ir_fc and back.arch_fc is R.mod.Arch_fc, 'components')
            require(back.get_input_paths() == rr.get_input_paths(), f'{how}: free inputs')
            ctx.count()
            # the same inputs are built
            n = 0
            ii, ai = {}, {}
            for d, ps in ((ii, R.il), (ai, {p: R.al[p] for p in R.free()})):
                for p, sp in ps.items():
                    c = rules.nth(sp, vals[n % len(vals)] + n)
                    d[p] = fam.Bit(c) if sp[0] == 'bit' else fam.BitVector[g.width(sp)](c)
                    n += 1
            a, b = rr.build_inputs(ii, ai, fam), back.build_inputs(ii, ai, fam)
            for x, y in zip(a, b):
                require(list(x) == list(y), f'{how}: inputs {list(y)}')
                for k in x:
                    require(type(x[k]) is type(y[k]) and bool(x[k] == y[k]), f'{how}: {k} is {y[k]!r}, not {x[k]!r}')
        kinds = set()
        for p, x in R.bind.items():
            kinds.add('free' if x is None else 'path' if isinstance(x, tuple) else 'const ' + R.al[p][0])
        for k in kinds:
            ctx.label(k)
        ctx.label('json' if jsonable else 'types in paths')
        if len(kinds) > 1:
            ctx.nontrivial = True
    finally:
        R.close()


@st.composite
def gen(draw, big=False):
    return [draw(rules.interfaces(wide=True, big=big)), draw(st.lists(st.integers(0, 9999), min_size=6, max_size=6)), draw(st.integers(0, 5))]


SUBS = [Sub('roundtrip', gen, run, 'random interfaces (all kinds of types, nested up to two deep, leaves up to 64 bits, names '
            'that also occur in the written form) x form x binding (IR leaves bound once or several times, constants, free '
            'leaves, unused outputs; any order), written and read once and twice, directly and through JSON; '
            'non-trivial: bindings of more than one kind', quick=4500, quick_s=25),
        Sub('large', lambda: gen(big=True), run, 'the same with interfaces of one large type each (up to 80 bits, 3 deep, 40 fields, options or members)', quick=160, quick_s=15)]
