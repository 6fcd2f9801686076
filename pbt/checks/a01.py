"""Assemble/disassemble round trip, width, family independence, injectivity."""
from ..core import Sub, require
from ..hyp import st
from .. import gens as g

from hwtypes import BitVector, SIntVector, UIntVector, SMTBitVector, SMTSIntVector, SMTUIntVector
from peak.assembler import Assembler as Asm1
from peak.assembler2.assembler import Assembler as Asm2

PID = 'A01'
ASMS = {'v1': Asm1, 'v2': Asm2}


def _int(bv):
    return int(bv)


def _smt_int(bv):
    t = bv.value
    require(t.is_constant(), 'assembling a concrete instruction symbolically is not constant', t)
    return t.constant_value()


def run_one(case, ctx):
    spec, vals = case
    types = g.Types()
    T = types(spec)
    for ver, Asm in ASMS.items():
        asm = Asm(T)
        w = asm.width
        seen = {}
        enum_codes(spec, types, Asm, ver, ctx)
        for v in vals:
            inst = types.value(spec, v)
            op = asm.assemble(inst)
            require(isinstance(op, BitVector) and op.size == w, ver, 'opcode', op, 'is not of width', w)
            back = asm.disassemble(op)
            require(type(back) is type(inst) and back == inst, ver, inst, 'assembles to', op, 'which is', back)
            require(asm.assemble(back) == op, ver, 'reassembly of', inst)
            require(bool(asm.is_valid(op)), ver, 'opcode of', inst, 'is invalid')
            o = seen.setdefault(_int(op), v)
            require(o == v, ver, o, 'and', v, 'share opcode', op)
            for F in (SIntVector, UIntVector):
                o = asm.assemble(inst, F)
                require(isinstance(o, F) and o.size == w and o.as_uint() == _int(op), ver, inst, 'assembles to', op, 'and to', o)
                back = asm.disassemble(o)
                require(type(back) is type(inst) and back == inst, ver, inst, 'assembles to', o, 'which is', back)
                require(bool(asm.is_valid(o)), ver, 'opcode', o, 'of', inst, 'is invalid')
            if not g.has_zero(spec):
                for F in (SMTBitVector, SMTSIntVector, SMTUIntVector):
                    sop = asm.assemble(inst, F)
                    require(isinstance(sop, F) and sop.size == w and _smt_int(sop) == _int(op), ver, F, 'opcode of', inst)
            ctx.count(13)
    ctx.nontrivial = g.depth(spec) >= 1 and len(vals) >= 2
    ctx.label(f'depth{g.depth(spec)}')


def enum_codes(spec, types, Asm, ver, ctx):
    if spec[0] == 'enum':
        E = types(spec)
        for m, v in spec[2]:
            if v is not None:
                require(int(Asm(E).assemble(getattr(E, m))) == v, ver, E, m, 'is not encoded as', v)
                ctx.count()
    for _, s in g.fields(spec):
        enum_codes(s, types, Asm, ver, ctx)


@st.composite
def gen_sampled(draw):
    spec = draw(g.specs(max_depth=3, max_width=24))
    vals = draw(st.lists(g.values(spec), min_size=1, max_size=8))
    return [spec, vals]


@st.composite
def gen_large(draw):
    spec = draw(g.big_specs())
    return [spec, draw(st.lists(g.values(spec), min_size=1, max_size=4))]


@st.composite
def gen_all(draw):
    return draw(g.specs(max_depth=2, max_width=8, max_fields=3, bits=3))


def run_all(spec, ctx):
    if g.count(spec) > 600:
        ctx.label('too many values')
        return
    run_one([spec, list(g.all_values(spec))], ctx)


def run_magma(case, ctx):
    import magma as m
    spec, vals = case
    types = g.Types()
    T = types(spec)
    # the second assembler shifts and extends in the target family, which Magma only does inside circuits
    asm = Asm1(T)
    for v in vals:
        inst = types.value(spec, v)
        op = asm.assemble(inst, m.Bits)
        require(len(op) == asm.width and int(m.uint(op)) == int(asm.assemble(inst)), 'magma opcode of', inst)
        ctx.count()
    ctx.nontrivial = g.depth(spec) >= 1


@st.composite
def gen_magma(draw):
    spec = draw(g.specs(max_depth=2, max_width=12, zero=False))
    return [spec, draw(st.lists(g.values(spec), min_size=1, max_size=3))]


SUBS = [
    Sub('round_trip', gen_sampled, run_one,
        'random ADT of depth<=3, <=24 bits, up to 8 instructions; non-trivial: composite and >=2 instructions',
        quick=2400),
    Sub('all_instructions', gen_all, run_all,
        'random ADT of <=8 bits with every instruction of it; non-trivial: composite and >=2 instructions',
        quick=800),
    Sub('large', gen_large, run_one, 'types of up to 180 bits, 5 deep, with leaves of up to 65 bits, up to 40 fields, options or members x up to 4 instructions; '
        'non-trivial: composite and >=2 instructions', quick=320),
    Sub('magma', gen_magma, run_magma,
        'random ADT of depth<=2 assembled to Magma constants; non-trivial: composite', quick=240),
]
