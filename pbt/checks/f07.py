"""Instructions added to an IR."""
from ..core import Sub, require, raises
from ..hyp import st
from .. import gens as g
from .f06 import types_, NAMES

import hwtypes as hw
from hwtypes.adt import Product
from peak import family as fam, family_closure, Peak
from peak.ir import IR

PID = 'F07'
ASSUMPTIONS = ['field and instruction names are identifiers that do not clash with the (underscored or class) names the generated source uses itself']
FAMS = [fam.PyFamily, fam.PyXFamily, fam.SMTFamily]
IN_NAMES = NAMES + ['family', 'fun', 't0', 'args', 'peak_fc']
INSTR = ['add', 'sub', 'mul', 'I0', 'nop', 'Ld', 'ALU', 'x', 'add2', 'cls']


def apply(tree, args):
    k = tree[0]
    if k == 'arg':
        return args[tree[1] % len(args)]
    a, b = apply(tree[1], args), apply(tree[2], args)
    return {'+': lambda: a + b, '-': lambda: a - b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
            '*': lambda: a * b}[k]()


def history(case, ctx):
    types = g.Types()
    irs = [IR(), IR()]
    models = [{}, {}]
    calls = []

    def fun_for(tag, n_out):
        def fun(family, *args):
            r = tuple(object() for _ in range(n_out)) if n_out != 1 else object()
            calls.append((tag, family, args, r))
            return r
        return fun

    for k, op in enumerate(case):
        name = op['name']
        ir, model = irs[op['ir']], models[op['ir']]
        before = list(ir.instructions.items())
        I = Product.from_fields('In', {n: types(s) for n, s in op['ins']})
        O = Product.from_fields('Out', {n: types(s) for n, s in op['outs']})
        if op['kind'] == 'fc':
            @family_closure
            def fc(family):
                class C(Peak):
                    def __call__(self, x: family.Bit) -> family.Bit:
                        return ~x
                return C
            add = lambda: ir.add_instruction(name, fc)
        else:
            kw = dict(cls_name=op['cls']) if op['cls'] else {}
            add = lambda: ir.add_peak_instruction(name, I, O, fun_for(k, len(op['outs'])), **kw)
        if name in model:
            raises(ValueError, add)
            require(list(ir.instructions.items()) == before, 'a rejected instruction changed the IR')
        else:
            require(add() is None, 'result')
            require(list(ir.instructions)[:-1] == [n for n, _ in before] and
                    all(ir.instructions[n] is f for n, f in before) and
                    list(ir.instructions)[-1] == name, 'instructions are', list(ir.instructions), 'after adding', name)
            model[name] = (k, op, I, O) if op['kind'] == 'peak' else (k, op, fc, None)
    for ir, model in zip(irs, models):
        require(list(ir.instructions) == list(model), 'instructions')
    for ir, name, (k, op, I, O) in [(ir, *i) for ir, model in zip(irs, models) for i in model.items()]:
        f = ir.instructions[name]
        if op['kind'] == 'fc':
            require(f is I, 'another closure is stored')
            continue
        for F in FAMS:
            C = f(F())
            require(C is f(F()), 'the closure is not memoised')
            require(issubclass(C.input_t, Product) and list(C.input_t.field_dict.items()) == list(I.field_dict.items()),
                    name, 'inputs', C.input_t.field_dict, 'instead of', I.field_dict)
            require(issubclass(C.output_t, Product) and list(C.output_t.field_dict.items()) == list(O.field_dict.items()),
                    name, 'outputs', C.output_t.field_dict, 'instead of', O.field_dict)
            args = [object() for _ in op['ins']]
            names = [n for n, _ in op['ins']]
            order = sorted(range(len(args)), key=lambda j: op['perm'][j])
            for call in (lambda: C()(*args), lambda: C()(**{names[j]: args[j] for j in order}),
                         lambda: C()(*args[:1], **dict(list(zip(names, args))[1:]))):
                n = len(calls)
                r = call()
                require(len(calls) == n + 1, 'function called', len(calls) - n, 'times')
                tag, family, got, res = calls[-1]
                require(tag == k, f'{name} calls the function of another instruction')
                require(type(family) is F, f'{name} in {F} calls its function for {family}')
                require(len(got) == len(args) and all(x is y for x, y in zip(got, args)), f'{name}: arguments {got}, not {args}')
                require(r is res, f'{name}: returned {r}, not {res}')
                ctx.count()
    model = {**models[0], **models[1]}
    ctx.nontrivial = len(model) >= 2 and any(len(o['ins']) >= 2 for o in case)
    if sum(map(len, models)) < len(case):
        ctx.label('re-added')
    if len(model) < sum(map(len, models)):
        ctx.label('same name in two IRs')


@st.composite
def op(draw):
    names = draw(st.permutations(IN_NAMES))
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    if draw(st.integers(0, 7)) == 0:
        n, m = draw(st.integers(1, 14)), draw(st.integers(1, 12))
        names = list(draw(st.permutations(list(names) + [f'n{j}' for j in range(max(0, n + m - len(names)))])))
    return dict(kind=draw(st.sampled_from(['peak', 'peak', 'peak', 'fc'])), name=draw(st.sampled_from(INSTR)),
                cls=draw(st.sampled_from([None, None, 'K', 'Add'])), ir=draw(st.sampled_from([0, 0, 1])),
                ins=[[names[j], draw(types_)] for j in range(n)], outs=[[names[n + j], draw(types_)] for j in range(m)],
                perm=draw(st.permutations(range(n))))


@st.composite
def ops(draw):
    l = draw(st.lists(op(), min_size=1, max_size=6))
    # the same interface once more, in the other IR
    for j in draw(st.lists(st.integers(0, len(l) - 1), max_size=2)):
        l.append(dict(l[j], ir=1 - l[j]['ir']))
    return l


def compute(case, ctx):
    """instructions on values"""
    w, n, tree, vals = case
    ir = IR()
    T = hw.BitVector[w]
    ir.add_peak_instruction('f', Product.from_fields('In', {NAMES[j]: T for j in range(n)}),
                            Product.from_fields('Out', {'out': T}), lambda family, *args: apply(tree, args))
    from ..smt import ev, term
    f = ir.instructions['f']
    xs = [hw.SMTBitVector[w]() for _ in range(n)]
    s = f.SMT()(*xs)
    for v in vals:
        mask = (1 << w) - 1
        want = _int(tree, v, mask)
        for C in (f.Py, f.PyX):
            got = C()(*[T(x) for x in v])
            require(isinstance(got, T) and int(got) == want, f'f{tuple(v)} is {got}, not {want}')
        got = ev(s, {term(x): a for x, a in zip(xs, v)})
        require(got == want, f'symbolic f{tuple(v)} is {got}, not {want}')
        ctx.count(3)
    ctx.nontrivial = tree[0] != 'arg' and n >= 2


def _int(t, args, mask):
    if t[0] == 'arg':
        return args[t[1] % len(args)]
    a, b = _int(t[1], args, mask), _int(t[2], args, mask)
    return {'+': a + b, '-': a - b, '&': a & b, '|': a | b, '^': a ^ b, '*': a * b}[t[0]] & mask


@st.composite
def computations(draw):
    w, n = draw(st.integers(1, 8)), draw(st.integers(1, 4))
    tree = draw(st.recursive(st.tuples(st.just('arg'), st.integers(0, 3)),
                             lambda c: st.tuples(st.sampled_from(['+', '-', '&', '|', '^', '*']), c, c), max_leaves=6))
    vals = draw(st.lists(st.lists(st.integers(0, (1 << w) - 1), min_size=n, max_size=n), min_size=1, max_size=6))
    return [w, n, tree, vals]


SUBS = [
    Sub('instructions', ops, history, 'two IRs of up to 8 additions (instructions '
        'with 1..4 inputs, 1..3 outputs of random types, closures, repeated names); every call is observed; non-trivial: '
        '>=2 instructions', quick=2000, quick_s=8),
    Sub('values', computations, compute, 'instructions defined by random expressions on vectors, executed and '
        'symbolic; non-trivial: an operation on >=2 inputs', quick=1500, quick_s=6),
]
