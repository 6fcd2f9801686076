"""The RISC-V examples of the repository: large components that are run by different families."""
import functools, importlib, sys

from hypothesis import strategies as st

from .core import require

NAMES = ['riscv', 'riscv_ext', 'riscv_m']
EDGE = [0, 1, 2, 31, 32, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x55555555, 0xfff]


def passes_of(family):
    """the name of the attribute with the passes of a family"""
    from ast_tools.passes import Pass
    return next(k for k, v in vars(family).items() if isinstance(v, tuple) and v and all(isinstance(p, Pass) for p in v))


@functools.lru_cache(None)
def machine(name):
    """(families, closure of the simulator, closure of the mappable one, isa)"""
    from peak import family as fam
    sim = importlib.import_module(f'examples.{name}.sim')
    isa = importlib.import_module(f'examples.{name}.isa')
    F = isa.family
    base = importlib.import_module('examples.riscv.family')

    class PyX(base._RiscFamily_mixin, fam.PyXFamily):
        get_register_file = F.PyFamily.get_register_file

        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            # the same passes as in the symbolic family of the example
            key = passes_of(self)
            mine, std = (vars(f)[key] for f in (F.SMTFamily(), fam.SMTFamily()))
            setattr(self, key, (*mine[:len(mine) - len(std)], *vars(self)[key]))
    return F, PyX, sim, isa.ISA_fc.Py


OPS = ['OP', 'OP_IMM_A', 'OP_IMM_S', 'LUI', 'AUIPC', 'JAL', 'JALR', 'Branch', 'Load', 'Store']


@st.composite
def insts(draw, name):
    ops = OPS + ['OP', 'Branch'] + (['Ext'] * 3 if name == 'riscv_ext' else [])
    return [draw(st.sampled_from(ops)), draw(st.integers(0, 10 ** 4)), draw(st.integers(0, 31)), draw(st.integers(0, 31)),
            draw(st.integers(0, 31)), draw(st.one_of(st.integers(0, (1 << 20) - 1), st.integers(0, 40)))]


words = st.one_of(st.integers(0, (1 << 32) - 1), st.sampled_from(EDGE))


def members(E):
    return list(E.enumerate())


def build(isa, inst):
    op, n, rd, rs1, rs2, imm = inst
    Idx = isa.Idx
    rd, rs1, rs2 = Idx(rd), Idx(rs1), Idx(rs2)

    def pick(E):
        ms = members(E)
        return ms[n % len(ms)]

    def I():
        return isa.I(rd=rd, rs1=rs1, imm=isa.I.imm(imm % 4096))
    if op == 'OP':
        kinds = [(k, m) for k, E in isa.AluInst.field_dict.items() for m in members(E)]
        k, m = kinds[n % len(kinds)]
        x = isa.OP(isa.R(rd=rd, rs1=rs1, rs2=rs2), isa.AluInst(**{k: m}))
    elif op == 'OP_IMM_A':
        ms = [m for m in members(isa.ArithInst) if m != isa.ArithInst.SUB]   # there is none
        x = isa.OP_IMM(arith=isa.OP_IMM_A(I(), ms[n % len(ms)]))
    elif op == 'OP_IMM_S':
        x = isa.OP_IMM(shift=isa.OP_IMM_S(isa.Is(rd=rd, rs1=rs1, imm=isa.Is.imm(imm % 32)), pick(isa.ShiftInst)))
    elif op in ('LUI', 'AUIPC'):
        x = getattr(isa, op)(isa.U(rd=rd, imm=isa.U.imm(imm)))
    elif op == 'JAL':
        x = isa.JAL(isa.J(rd=rd, imm=isa.J.imm(imm)))
    elif op == 'JALR':
        x = isa.JALR(I())
    elif op == 'Branch':
        x = isa.Branch(isa.B(rs1=rs1, rs2=rs2, imm=isa.B.imm(imm % 4096)), pick(isa.BranchInst))
    elif op == 'Load':
        x = isa.Load(I(), pick(isa.LoadInst))
    elif op == 'Store':
        x = isa.Store(isa.S(rs1=rs1, rs2=rs2, imm=isa.S.imm(imm % 4096)), pick(isa.LoadInst))
    else:
        x = isa.Ext(isa.E(rd=rd, rs=rs1), pick(isa.BitInst))
    return isa.Inst(x)


def load(m, isa, regs):
    for i, v in enumerate(regs):
        m.register_file.store(isa.Idx(i), isa.Word(v if i else 0))


def state(m, isa):
    return [int(m.register_file.load1(isa.Idx(i))) for i in range(32)]


@st.composite
def histories(draw):
    name = draw(st.sampled_from(NAMES))
    regs = draw(st.lists(words, min_size=32, max_size=32))
    n = draw(st.integers(1, 8))
    return [name, regs, draw(words), [draw(insts(name)) for _ in range(n)]]


def run_rewritten(case, ctx):
    name, regs, pc, prog = case
    F, PyX, sim, isa = machine(name)
    py, x = sim.R32I_fc(F.PyFamily())(), sim.R32I_fc(PyX())()
    adt = PyX().get_adt_t(isa.Inst)
    for m in (py, x):
        load(m, isa, regs)
    a = b = isa.Word(pc)
    for inst in prog:
        i = build(isa, inst)
        a, b = py(i, a), x(adt(i), b)
        require(a == b, f'{name}: {i} continues at {a}, rewritten at {b}')
        require(state(py, isa) == state(x, isa), f'{name}: registers differ after {i}')
        ctx.count(2)
        ctx.label(inst[0])
    ctx.nontrivial = len(prog) > 1


@functools.lru_cache(None)
def terms(name):
    """the symbolic machine, run once on variables"""
    import hwtypes as hw
    from peak.assembler import Assembler
    F, _, sim, isa = machine(name)
    fam = F.SMTFamily()
    T = fam.get_adt_t(isa.Inst)
    asm = Assembler(isa.Inst)
    inst = hw.SMTBitVector[asm.width]()
    pc, rs1, rs2, rd = (fam.Word() for _ in range(4))
    m = sim.R32I_mappable_fc(fam)()
    return asm, (inst.value, pc.value, rs1.value, rs2.value, rd.value), m(T(inst), pc, rs1, rs2, rd)


def run_terms(case, ctx):
    from .smt import ev
    name, regs, pc, prog = case
    F, _, sim, isa = machine(name)
    asm, syms, out = terms(name)
    for inst in prog:
        i = build(isa, inst)
        py = sim.R32I_fc(F.PyFamily())()
        load(py, isa, regs)
        old = state(py, isa)
        nxt = py(i, isa.Word(pc))
        _, _, rd, rs1, rs2, _ = inst
        env = dict(zip(syms, [int(asm.assemble(i)), pc, old[rs1], old[rs2], old[rd]]))
        require(ev(out[0], env) == int(nxt), f'{name}: {i} continues at {nxt}, symbolically at {ev(out[0], env)}')
        want = state(py, isa)
        writes = inst[0] not in ('Branch', 'Load', 'Store')
        if not writes or rd == 0:
            require(want == old, f'{name}: {i} changes the registers')
        # (the symbolic register file has one register to write)
        r = ev(out[1], env)
        require(r == (want[rd] if writes and rd else old[rd]), f'{name}: {i} writes {want[rd]}, symbolically {r}')
        ctx.count(2)
        ctx.label(inst[0])
        pc = int(nxt)
    ctx.nontrivial = len(prog) > 1


# ---- other examples, through the interfaces they declare (min_pe doesn't import; sum_pe inverts a Python bool with ~)

EXAMPLES = {
    'tagged_pe': lambda: importlib.import_module('examples.tagged_pe.sim').PE_fc,
    'PE_lut8': lambda: importlib.import_module('examples.PE_lut').gen_PE(8),
    'PE_lut16': lambda: importlib.import_module('examples.PE_lut').gen_PE(16),
    'pe6': lambda: importlib.import_module('examples.demo_pes.pe6').PE_fc,
}


@functools.lru_cache(None)
def example(name):
    """(closure, [(input, type, assembler)], number of outputs)"""
    from hwtypes.modifiers import strip_modifiers
    from peak.assembler import Assembler
    fc = EXAMPLES[name]()
    ins = [(n, strip_modifiers(T)) for n, T in fc.Py.input_t.field_dict.items()]
    return fc, [(n, T, Assembler(T)) for n, T in ins], len(fc.Py.output_t.field_dict)


@st.composite
def calls(draw):
    name = draw(st.sampled_from(sorted(EXAMPLES)))
    return [name, draw(st.lists(st.lists(st.integers(0, (1 << 40) - 1), min_size=8, max_size=8), min_size=1, max_size=8))]


def legal(T, asm, n):
    """a value of T chosen by n"""
    import random
    from hwtypes import BitVector
    rnd = random.Random(n)
    w = asm.width
    op = n & ((1 << w) - 1)
    for _ in range(1000):
        if bool(asm.is_valid(BitVector[w](op))):
            break
        op = rnd.getrandbits(w)
    x = asm.disassemble(BitVector[w](op))
    return x if isinstance(x, T) else T(x[0] if w == 1 else x)


def as_int(x):
    from hwtypes import Bit
    return int(x) if isinstance(x, (Bit, bool)) else x.as_uint() if hasattr(x, 'as_uint') else int(x._to_bitvector_())


def outputs(r):
    return r if isinstance(r, tuple) else (r,)


def run_example_rewritten(case, ctx):
    from hwtypes import AbstractBit, AbstractBitVector
    from peak import family as fam
    name, hist = case
    fc, ins, n_out = example(name)
    py, x = fc.Py(), fc.PyX()
    for ns in hist:
        vals = [legal(T, asm, n) for (_, T, asm), n in zip(ins, ns)]
        xs = [v if issubclass(T, (AbstractBit, AbstractBitVector)) else fam.PyXFamily().get_adt_t(T)(v)
              for v, (_, T, _) in zip(vals, ins)]
        a, b = outputs(py(*vals)), outputs(x(*xs))
        require(len(a) == len(b) == n_out, 'number of outputs', a, b)
        require([as_int(v) for v in a] == [as_int(v) for v in b], name, vals, 'gives', a, 'rewritten', b)
        ctx.count(n_out)
    ctx.label(name)
    ctx.nontrivial = len(hist) > 1


@functools.lru_cache(None)
def example_terms(name):
    import hwtypes as hw
    from hwtypes import AbstractBit, AbstractBitVector
    from peak import family as fam
    fc, ins, n_out = example(name)
    syms, args = [], []
    for _, T, asm in ins:
        if issubclass(T, AbstractBit):
            x = hw.SMTBit()
            args.append(x)
        else:
            x = hw.SMTBitVector[asm.width]()
            args.append(x if issubclass(T, AbstractBitVector) else fam.SMTFamily().get_adt_t(T)(x))
        syms.append(x.value)
    return syms, outputs(fc.SMT()(*args))


def run_example_terms(case, ctx):
    from .smt import ev
    name, hist = case
    fc, ins, n_out = example(name)
    syms, terms_ = example_terms(name)
    for ns in hist:
        vals = [legal(T, asm, n) for (_, T, asm), n in zip(ins, ns)]
        want = [as_int(v) for v in outputs(fc.Py()(*vals))]
        env = {s: int(asm.assemble(v)) for s, v, (_, _, asm) in zip(syms, vals, ins)}
        got = [ev(t if not hasattr(t, '_to_bitvector_') else t._to_bitvector_(), env) for t in terms_]
        require(got == want, name, vals, 'gives', want, 'symbolically', got)
        ctx.count(n_out)
    ctx.label(name)
    ctx.nontrivial = len(hist) > 1
