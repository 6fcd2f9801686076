"""Symbolic black boxes as state machines."""
from ..core import Sub, require, raises
from ..hyp import st
from .. import gens as g, progs
from .f06 import types_, NAMES

from peak import Peak, family as fam, name_outputs, family_closure
from peak.black_box import BlackBox

PID = 'B02'
ASSUMPTIONS = ['black boxes have at least one input']


def run(case, ctx):
    types = g.Types()
    ins, outs = case['ins'], case['outs']
    names = dict(Peak=Peak, BlackBox=BlackBox, name_outputs=name_outputs, family_closure=family_closure)
    names.update({f'I{j}': types(s) for j, (_, s) in enumerate(ins)})
    names.update({f'O{j}': types(s) for j, s in enumerate(outs)})
    params = ', '.join(f'{n}: I{j}' for j, (n, _) in enumerate(ins))
    L = ['@family_closure', 'def BB_fc(family):', '    @family.assemble(locals(), globals())',
         f'    class BB({"Peak, BlackBox" if case["order"] else "Peak, BlackBox, typecheck=False"}):']
    onames = NAMES[-len(outs):]
    if case['named']:
        L.append('        @name_outputs(' + ', '.join(f'{n}=O{j}' for j, n in enumerate(onames)) + ')')
        ret = ''
    else:
        ret = f' -> ({", ".join(f"O{j}" for j in range(len(outs)))},)'
    vals = ', '.join(n for n, _ in ins)
    L += [f'        def __call__(self, {params}){ret}:', f'            return {vals}', '    return BB', '']
    mod = progs.load('\n'.join(L), names)
    try:
        BB = mod.BB_fc.SMT
        require(list(BB.input_t.field_dict.items()) == [(n, types(s)) for n, s in ins], 'input_t')
        require(list(BB.output_t.field_dict.values()) == [types(s) for s in outs], 'output_t')
        boxes = [BB() for _ in range(2)]
        model = [dict(out=None, inp=None) for _ in boxes]
        good = 0
        for op in case['ops']:
            b, m = boxes[op[1] % 2], model[op[1] % 2]
            if op[0] == 'new':
                boxes[op[1] % 2], model[op[1] % 2] = BB(), dict(out=None, inp=None)
            elif op[0] == 'out':
                vs = [object() for _ in range(op[2] % 5)] if op[3] else [object() for _ in outs]
                if len(vs) == len(outs):
                    b._set_outputs(*vs)
                    m['out'] = vs
                else:
                    raises(ValueError, b._set_outputs, *vs)
            elif op[0] == 'pos':
                n = op[2] % 6 if op[3] else len(ins)
                vs = [object() for _ in range(n)]
                if m['out'] is None or n != len(ins):
                    raises(ValueError, b, *vs)
                else:
                    check(b(*vs), m, len(outs))
                    m['inp'] = vs
                    good += 1
            elif op[0] == 'kw':
                kw = {ins[j][0]: object() for j in sorted(range(len(ins)), key=lambda j: op[2][j])}
                if op[3] == 'less':
                    kw.popitem()
                elif op[3] == 'more':
                    kw['nope'] = object()
                elif op[3] == 'other':
                    kw.popitem()
                    kw['nope'] = object()
                pos = [object()] if op[3] == 'mixed' else []
                if pos:
                    kw.pop(ins[0][0])
                    if not kw:
                        continue
                if m['out'] is None or op[3]:
                    raises(ValueError, b, *pos, **kw)
                else:
                    check(b(**kw), m, len(outs))
                    m['inp'] = [kw[n] for n, _ in ins]
                    good += 1
            elif op[0] == 'in':
                if m['inp'] is None:
                    raises(ValueError, b._get_inputs)
                else:
                    got = b._get_inputs()
                    require(isinstance(got, tuple) and len(got) == len(ins) and all(x is y for x, y in zip(got, m['inp'])),
                            f'recorded inputs are {got}, not {m["inp"]}')
            ctx.count()
        for b, m in zip(boxes, model):
            if m['inp'] is not None:
                require(all(x is y for x, y in zip(b._get_inputs(), m['inp'])), 'recorded inputs at the end')
        ctx.nontrivial = good >= 2
        # elsewhere a black box is an ordinary component
        for C in (mod.BB_fc.Py, mod.BB_fc.PyX):
            vs = [object() for _ in ins]
            r = C()(**dict(zip([n for n, _ in ins], vs)))
            r = (r,) if len(ins) == 1 else r
            require(len(r) == len(vs) and all(x is y for x, y in zip(r, vs)), 'execution')
    finally:
        progs.unload(mod)


def check(r, m, n):
    want = m['out']
    if n == 1:
        require(r is want[0], f'returned {r}, not {want[0]}')
    else:
        require(isinstance(r, tuple) and len(r) == n and all(x is y for x, y in zip(r, want)), f'returned {r}, not {want}')


@st.composite
def gen(draw):
    names = draw(st.permutations(NAMES))
    most = draw(st.sampled_from([(4, 3)] * 5 + [(14, 13)]))
    ins = [[names[j], draw(types_)] for j in range(draw(st.integers(1, most[0])))]
    outs = [draw(types_) for _ in range(draw(st.integers(1, most[1])))]
    ops = [['out', b, 0, False] for b in draw(st.sampled_from([[], [0], [1], [0, 1], [0, 1]]))]
    for _ in range(draw(st.integers(3, 20))):
        k = draw(st.sampled_from(['out', 'out', 'pos', 'pos', 'pos', 'kw', 'kw', 'kw', 'kw', 'in', 'in', 'in', 'new']))
        op = [k, draw(st.integers(0, 1))]
        wrong = draw(st.integers(0, 3)) == 0
        if k in ('out', 'pos'):
            op += [draw(st.integers(0, 5)), wrong]
        elif k == 'kw':
            op += [draw(st.permutations(range(len(ins)))),
                   draw(st.sampled_from(['less', 'more', 'other', 'mixed'])) if wrong else '']
        ops.append(op)
    return dict(ins=ins, outs=outs, ops=ops, named=draw(st.booleans()), order=draw(st.booleans()))


REG = [dict(ins=[['b', ['bit']], ['a', ['bit']]], outs=[['bit']], named=False, order=True,
            ops=[['in', 0], ['kw', 0, [0, 1], ''], ['out', 0, 0, False], ['in', 0], ['kw', 0, [1, 0], ''], ['in', 0],
                 ['kw', 0, [0, 1], ''], ['in', 0], ['in', 1], ['pos', 1, 0, False]])]

SUBS = [Sub('histories', gen, run, 'interfaces of 1..4 inputs and 1..3 outputs x histories of up to 20 operations on two '
            'instances (set outputs, positional, keyword and ill-formed calls, reads); non-trivial: >=2 accepted calls',
            quick=1200, quick_s=12, regressions=REG)]
