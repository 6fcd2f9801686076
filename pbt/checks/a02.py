"""Validity and decoding of arbitrary bit patterns."""
from ..core import Sub, require
from ..hyp import st
from .. import gens as g
from ..model import V1, V2

from hwtypes import BitVector, SIntVector, UIntVector, Bit
from peak.assembler import Assembler as Asm1
from peak.assembler2.assembler import Assembler as Asm2

PID = 'A02'


def check_op(spec, types, model, asm, op, ctx):
    T = types(spec)
    d = model.decode(spec, op)
    bv = BitVector[asm.width](op)
    valid = asm.is_valid(bv)
    require(isinstance(valid, Bit), model.name, 'validity is', type(valid))
    require(bool(valid) == (d is not None), model.name, T, 'opcode', bv, 'reported',
            'valid' if valid else 'invalid', 'but decodes to', d and d[0])
    for F in (SIntVector, UIntVector):
        v = asm.is_valid(F[asm.width](op))
        require(isinstance(v, Bit) and v == valid, model.name, T, 'opcode', bv, 'is', valid, 'but', v, 'as', F)
    ctx.count(3)
    bv = (BitVector, SIntVector, UIntVector)[op % 3][asm.width](op)
    if d is None:
        try:
            r = asm.disassemble(bv)
        except ValueError:
            return False
        except Exception:
            # only the first assembler promises which exception
            require(model.name == 'v2', 'disassembling an invalid opcode raises something else than ValueError')
            return False
        require(False, model.name, 'invalid opcode', bv, 'of', T, 'disassembles to', r)
    value, mask = d
    r = asm.disassemble(bv)
    want = types.value(spec, value)
    require(type(r) is T and r == want, model.name, 'opcode', bv, 'of', T, 'is', want, 'disassembles to', r)
    if mask is not None:
        require(int(asm.assemble(r)) & mask == op & mask, model.name, 'opcode', bv, 'loses used bits')
    ctx.count(2)
    return True


def run(case, ctx):
    spec, ops = case
    types = g.Types()
    T = types(spec)
    models = [(V1(Asm1, types), Asm1(T)), (V2(Asm2, types), Asm2(T))]
    kinds = set()
    for model, asm in models:
        w = asm.width
        require(w == g.width(spec), model.name, 'width of', T, 'is', w)
        for op in (range(1 << w) if ops is None else ops):
            kinds.add(check_op(spec, types, model, asm, op & ((1 << w) - 1), ctx))
    ctx.nontrivial = kinds == {True, False}
    ctx.label('has invalid' if False in kinds else 'all valid')


@st.composite
def gen_enum(draw):
    e = ['enum', 'E', [[m, v] for m, v in zip(
        [f'm{i}' for i in range(64)], draw(g.enum_values(max_bits=6, max_members=14)))]]
    if g.width(e) == 0:
        e[2][0][1] = 1
    return [e, None]


@st.composite
def gen_small(draw):
    return [draw(g.specs(max_depth=3, max_width=9, bits=4, max_fields=5)), None]


@st.composite
def gen_big(draw, large=False):
    spec = draw(g.big_specs() if large else g.specs(max_depth=3, max_width=24))
    w = g.width(spec)
    # near misses: valid opcodes with a few bits flipped, and anything
    types = g.Types()
    ops = draw(st.lists(st.integers(0, (1 << w) - 1), min_size=2, max_size=12))
    vals = draw(st.lists(g.values(spec), min_size=1, max_size=6))
    asm = Asm1(types(spec))
    for v in vals:
        op = int(asm.assemble(types.value(spec, v)))
        for b in draw(st.lists(st.integers(0, w - 1), max_size=3)):
            op ^= 1 << b
        ops.append(op)
    return [spec, ops]


def _e(vals):
    return [['enum', 'E', [[f'm{i}', v] for i, v in enumerate(vals)]], None]


def _b(vals):
    return [_e(vals)[0], sorted({x + d for x in vals for d in (-1, 0, 1)} | {0})]


def gen_sum(draw=None):
    @st.composite
    def go(draw):
        n = draw(st.integers(1, 9))
        k = draw(st.sampled_from(['tu', 'sum']))
        leaf = st.sampled_from([['bit'], ['bv', 2], ['s', 3], ['u', 1],
                                ['enum', 'E', [['a', 0], ['b', 2]]], ['enum', 'F', [['a', 1], ['b', 2], ['c', 4]]],
                                ['tup', [['enum', 'E', [['a', 0], ['b', 2]]], ['bit']]]])
        subs = [draw(leaf) for _ in range(n)]
        if k == 'sum':
            seen, out = set(), []
            for s in subs:
                if g.shadow(s) not in seen:
                    seen.add(g.shadow(s))
                    out.append(s)
            return [['sum', out], None]
        return [['tu', 'U', [[f'f{i}', s] for i, s in enumerate(subs)]], None]
    return go()


@st.composite
def gen_tags(draw):
    """unions of many options of few types: the tags of a type form ranges, powers of two..."""
    tags = set(draw(g.enum_values(max_bits=4, max_members=14, auto=False)))
    n = min(17, max(max(tags) + 1, 2) + draw(st.integers(0, 3)))
    enums = st.sampled_from([['enum', 'E', [['a', 0], ['b', 1]]], ['enum', 'F', [['a', 1], ['b', 2]]], ['bv', 2], ['bit'],
                             ['enum', 'G', [['a', 2]]], ['enum', 'H', [['a', 0], ['b', 2], ['c', 3]]], ['u', 1]])
    mine, others = draw(enums), draw(st.lists(enums, min_size=1, max_size=3))
    subs = [mine if i in tags else draw(st.sampled_from(others)) for i in range(n)]
    return [['tu', 'U', [[f'f{i:02}', s] for i, s in enumerate(subs)]], None]


SUBS = [
    Sub('enum', gen_enum, run, 'one enum (ranges, one-hot, sparse, complements, automatic) x every bit pattern; '
        'non-trivial: both valid and invalid patterns', quick=1600,
        regressions=[_e([0, 1, 2, 3, 8, 9, 10, 12]), _e([0, 1, 2]), _e([1, 2, 4, 8, 0]), _e([1, 2, 4, 8]),
                     _e([0, 1, 2, 4, 5, 6, 9]), _e([5, 6, 7]), _e([0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18, 20])]),
    Sub('sum', gen_sum, run, 'sums and unions of 1..9 options, some sharing a type x every bit pattern; '
        'non-trivial: both valid and invalid patterns', quick=800),
    Sub('tags', gen_tags, run, 'unions of 2..17 options of up to four types (the tags of one type form ranges, powers of two, '
        'complements...) x every bit pattern; non-trivial: both valid and invalid patterns', quick=800),
    Sub('small', gen_small, run, 'random ADT of <=9 bits x every bit pattern; '
        'non-trivial: both valid and invalid patterns', quick=400),
    Sub('big', gen_big, run, 'random ADT of <=24 bits x random and near valid patterns; '
        'non-trivial: both valid and invalid patterns', quick=1200),
    Sub('large', lambda: gen_big(large=True), run, 'types of up to 180 bits, 5 deep, with leaves of up to 65 bits, up to 40 fields, options or members x random and near valid patterns; '
        'non-trivial: both valid and invalid patterns', quick=320,
        regressions=[_b([3, 1 << 40]), _b([1 << i for i in range(50)]), _b([(1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 3, 5])]),
]
