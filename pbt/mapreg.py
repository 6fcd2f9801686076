"""Mapping problems that once went wrong."""
from .progs import PRELUDE

D = ['bv', 2]


def comp(name, ins, outs, body, types=()):
    def a(s):
        return 'Bit' if s[0] == 'bit' else f'BV[{s[1]}]' if s[0] == 'bv' else f'T{list(types).index(s)}'
    args = ', '.join(f'{n}: Const({a(s)})' if c else f'{n}: {a(s)}' for n, s, c in ins)
    ret = ', '.join(a(s) for s in outs)
    L = ['@family_closure', f'def {name}_fc(family):', '    Bit = family.Bit', '    BV = family.BitVector']
    for i in range(len(types)):
        L += [f'    A{i} = family.get_adt_t(T{i})', f'    C{i} = family.get_constructor(T{i})']
    L += ['    @family.assemble(locals(), globals())', f'    class {name}(Peak):',
          f'        def __call__(self, {args}) -> {ret if len(outs) == 1 else "(" + ret + ")"}:']
    L += ['            ' + l for l in body] + [f'    return {name}', '']
    return dict(fc=f'{name}_fc', ins=ins, outs=[[None, s] for s in outs]), '\n'.join(L)


def problem(types, arch, *irs):
    a, src = comp('Arch', *arch, types=types)
    cs = [comp(f'Ir{j}', *ir, types=types) for j, ir in enumerate(irs)]
    return dict(types=list(types), src=PRELUDE + '\n'.join([src] + [s for _, s in cs]), arch=a, irs=[c for c, _ in cs])


OVERLAP = problem([], ([['op', ['bit'], True], ['i0', D, True], ['i1', D, True]], [D],
                       ['if i0 == 2:', '    r = i1', 'else:', '    r = i1 + 1', 'return r']),
                  ([['a', D, True]], [D], ['return a']), ([['a', D, True]], [D], ['return a + 1']))
_P = ['prod', 'P', [['x', D], ['y', ['bit']]]]
NESTED = problem([_P], ([['op', ['bit'], True], ['a', D, False], ['b', D, False]], [_P],
                        ['if op:', '    r = a + b', 'else:', '    r = a ^ b', 'return C0(r, r == a)']),
                 ([['a', D, False], ['b', D, False]], [D], ['return a ^ b']),
                 ([['a', D, False], ['b', D, False]], [_P], ['return C0(b + a, a + b == b)']))
SUM3 = problem([], ([['c', D, True], ['a', D, False], ['b', D, False]], [D], ['return a + b + c']),
               ([['x', D, False]], [D], ['return x + 1']), ([['x', D, False], ['y', D, False]], [D], ['return x + y']))
_E = ['enum', 'E', [['k', 1], ['l', 2], ['m', 4]]]
ENUM = problem([_E], ([['op', _E, True], ['a', D, False], ['b', D, False]], [D],
                      ['if op == T0.k:', '    r = a', 'elif op == T0.l:', '    r = a - b', 'else:', '    r = a & b', 'return r']),
               ([['x', D, False], ['y', D, False]], [D], ['return x - y']), ([['x', D, False]], [D], ['return x']),
               ([['x', D, False], ['y', D, False]], [D], ['return y & x']))
_U = ['prod', 'U', [['u', ['bit']], ['v', ['bit']]]]
_S = ['tu', 'S', [['x', D], ['y', _U]]]
OTHER = problem([_S], ([['op', ['bit'], True], ['imm', D, True], ['s', _S, False]], [D],
                       ['v = BV[2](0)', 'if s.x.match:', '    v = s.x.value', 'if op:', '    r = imm', 'else:', '    r = v', 'return r']),
                ([['a', D, True], ['b', D, False]], [D], ['return ~a']), ([['a', D, True], ['b', D, False]], [D], ['return b']))
ALL = dict(other=OTHER, overlap=OVERLAP, nested=NESTED, sum3=SUM3, enum=ENUM)
