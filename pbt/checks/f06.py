"""Declared interfaces."""
from ..core import Sub, require, raises
from ..hyp import st
from .. import gens as g, progs

import hwtypes as hw
from hwtypes.adt import Product, Tuple
from peak import Peak, Const, name_outputs, family as fam

PID = 'F06'
ASSUMPTIONS = []
NAMES = ['a', 'b', 'c', 'z', 'in0', 'in1', 'data', 'A', 'x9', 'inst', 'clk_en', 'O', 'out', 'res', 'Z'] + [f'p{j}' for j in range(14)]
FAMS = {'plain': None, 'Py': fam.PyFamily, 'PyX': fam.PyXFamily, 'SMT': fam.SMTFamily}


def ann_type(types, spec, F, how):
    """the type an annotation stands for"""
    if F is None or how == 'plain':
        T = types(spec)
    elif spec[0] == 'bit':
        T = F.Bit
    elif spec[0] in g.LEAVES:
        T = {'bv': F.BitVector, 's': F.Signed, 'u': F.Unsigned}[spec[0]][spec[1]]
    else:
        T = F.get_adt_t(types(spec))
    return T


def interface(case, ctx):
    """input_t and output_t"""
    types = g.Types()
    F = FAMS[case['fam']]
    F = F and F()
    ann, names = {}, dict(Peak=Peak, name_outputs=name_outputs, Const=Const, F=F)
    want_in = []
    params = []
    for j, (n, spec, how, const) in enumerate(case['ins']):
        T = ann_type(types, spec, F, how)
        T = Const(T) if const else T
        names[f'I{j}'] = T
        want_in.append((n, T))
        params.append(f'{n}: I{j}')
    want_out = []
    for j, (n, spec, how) in enumerate(case['outs']):
        T = ann_type(types, spec, F, how)
        names[f'O{j}'] = T
        want_out.append((n, T))
    L = ['def make():']
    if F is not None:
        L.append('    @F.assemble(locals(), globals())')
    L.append('    class C(Peak):')
    named, single = case['named'], len(want_out) == 1
    bad = case['bad']
    if named:
        L.append('        @name_outputs(' + ', '.join(f'{n}=O{j}' for j, (n, _) in enumerate(want_out)) + ')')
        ret = case['ret']
        ret = '' if ret == 0 else ' -> None' if ret == 1 else ' -> Peak'
    elif not want_out:
        ret = ' -> None'
    else:
        tup = ', '.join(f'O{j}' for j in range(len(want_out)))
        ret = f' -> ({tup},)' if not single or case['ret'] else f' -> {tup}'
    if bad == 'noann' and params:
        k = case['badi'] % len(params)
        params[k] = params[k].split(':')[0]
    elif bad == 'kwonly':
        params += ['*', 'kk: Peak']
    elif bad == 'kwargs':
        params.append('**kk: Peak')
    elif bad == 'args':
        params.append('*kk: Peak')
    elif bad == 'noret' and not named:
        ret = ''
    else:
        bad = None
    L.append(f'        def __call__({", ".join(["self"] + params)}){ret}:')
    # locals are no inputs
    L.append('            loc = 3')
    L.append('            return loc')
    L.append('    return C')
    L.append('')
    if case['fam'] in ('PyX', 'SMT'):
        mod = progs.load('\n'.join(L), names)
        make, done = mod.make, lambda: progs.unload(mod)
    else:
        exec('\n'.join(L), names)
        make, done = names['make'], lambda: None
    try:
        if bad:
            raises(ValueError, make)
            ctx.label('bad ' + bad)
            ctx.count()
            return
        C = make()
        for cls in (C, type('D', (C,), {}) if case['sub'] else C):
            i, o = cls.input_t, cls.output_t
            if not want_in:
                require(i is None, 'inputs', i)
            else:
                require(issubclass(i, Product), 'input_t is', i)
                require(list(i.field_dict.items()) == want_in, 'input_t is', list(i.field_dict.items()), 'not', want_in)
            if not named and not want_out:
                require(o is None, 'outputs', o)
            elif named:
                require(issubclass(o, Product), 'output_t is', o)
                require(list(o.field_dict.items()) == want_out, 'output_t is', list(o.field_dict.items()), 'not', want_out)
            else:
                require(issubclass(o, Tuple), 'output_t is', o)
                want = list(enumerate(T for _, T in want_out))
                require(list(o.field_dict.items()) == want, 'output_t is', list(o.field_dict.items()), 'not', want)
            ctx.count(len(want_in) + len(want_out))
        ctx.nontrivial = len(want_in) + len(want_out) >= 3
        ctx.label(case['fam'])
    finally:
        done()


types_ = st.one_of(st.sampled_from([['bit'], ['bv', 1], ['bv', 8], ['s', 4], ['u', 4]]),
                   g.specs(max_depth=1, max_width=8, zero=False, top=('prod', 'sum', 'tu', 'tup', 'enum')))


@st.composite
def interfaces(draw, fams):
    names = draw(st.permutations(NAMES))
    f = draw(st.sampled_from(fams))
    n, m = draw(st.one_of(st.tuples(st.integers(0, 5), st.integers(0, 4)), st.tuples(st.integers(0, 14), st.integers(0, 13))))
    how = st.sampled_from(['plain', 'fam'])
    named = draw(st.booleans()) and m > 0
    ins = [[names[j], draw(types_), draw(how), draw(st.integers(0, 3)) == 0] for j in range(n)]
    outs = [[names[n + j], draw(types_), draw(how)] for j in range(m)]
    return dict(fam=f, ins=ins, outs=outs, named=named, ret=draw(st.integers(0, 2)), sub=draw(st.booleans()),
                bad=draw(st.sampled_from([None] * 6 + ['noann', 'kwonly', 'kwargs', 'args', 'noret'])),
                badi=draw(st.integers(0, 4)))


# -- type checking --

def checked(case, ctx):
    types = g.Types()
    outs = [types(s) for s in case['outs']]
    results = [types.value(s, v) for s, v in case['results']]
    shape = case['shape']
    result = tuple(results) if shape == 'tuple' or len(results) != 1 else results[0]
    names = dict(Peak=Peak, name_outputs=name_outputs, result=[result])
    names.update({f'O{j}': T for j, T in enumerate(outs)})
    L = ['class C(Peak, typecheck=True):']
    if case['named']:
        L.append('    @name_outputs(' + ', '.join(f'{NAMES[-1 - j]}=O{j}' for j in range(len(outs))) + ')')
        ret = ''
    else:
        ret = ' -> (' + ', '.join(f'O{j}' for j in range(len(outs))) + ',)'
        if len(outs) == 1 and shape != 'tuple':
            ret = ' -> O0'
    L += [f'    def __call__(self, x: O0){ret}:', '        return result[0]', '']
    exec('\n'.join(L), names)
    c = names['C']()
    require(list(c.input_t.field_dict.values()) == [outs[0]] if hasattr(c, 'input_t') else True, 'input_t')
    ok = len(results) == len(outs) and all(isinstance(r, T) for r, T in zip(results, outs))
    for call in (lambda: c(None), lambda: c(x=None)):
        if ok:
            r = call()
            require(r is result, f'type checking changed the result {result} to {r}')
        else:
            raises(TypeError, call)
        ctx.count()
    ctx.nontrivial = len(outs) >= 2 or not ok
    ctx.label('accepted' if ok else 'rejected')
    require(list(names['C'].output_t.field_dict.values()) == outs, 'output_t')


@st.composite
def checks(draw):
    outs = draw(st.one_of(st.lists(types_, min_size=1, max_size=4), st.lists(types_, min_size=10, max_size=13)))
    res = [[s, draw(g.values(s))] for s in outs]
    how = draw(st.sampled_from(['ok', 'ok', 'type', 'type', 'more', 'less', 'swap']))
    if how == 'type':
        k = draw(st.integers(0, len(outs) - 1))
        other = draw(types_)
        if outs[k][0] in ('bv', 's', 'u') and draw(st.booleans()):
            other = [draw(st.sampled_from(['bv', 's', 'u'])), outs[k][1] + draw(st.integers(0, 1))]
        res[k] = [other, draw(g.values(other))]
    elif how == 'more':
        s = draw(types_)
        res.append([s, draw(g.values(s))])
    elif how == 'less':
        res = res[:-1]
    elif how == 'swap':
        res = res[1:] + res[:1]
    return dict(outs=outs, results=res, named=draw(st.booleans()), shape=draw(st.sampled_from(['tuple', 'single'])))


SUBS = [
    Sub('interfaces', lambda: interfaces(['plain', 'Py']), interface, 'signatures of 0..5 (14) inputs and 0..4 (13) outputs, also '
        'ill-formed ones; non-trivial: >=3 ports', quick=3000, quick_s=7),
    Sub('rewritten', lambda: interfaces(['PyX', 'SMT']), interface, 'the same, for the rewriting families; non-trivial: '
        '>=3 ports', quick=800, quick_s=8),
    Sub('typecheck', checks, checked, 'type-checked calls returning results of the right and of wrong number, types and '
        'order; non-trivial: >=2 outputs or a wrong result', quick=2500, quick_s=6,
        regressions=[dict(outs=[['bit'], ['bit']], results=[[['bit'], 0]], named=n, shape=s)
                     for n in (True, False) for s in ('tuple', 'single')]),
]
