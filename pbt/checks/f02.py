"""The terms of the SMT family mean what execution computes."""
from ..core import Sub, require
from ..hyp import st
from .. import gens as g, machines, progs, second
from ..smt import ev, term
from .f01 import bits_of

import hwtypes as hw
from peak import family as fam
from peak.assembler import Assembler

PID = 'F02'
ASSUMPTIONS = ['stateful components are called once per call and unconditionally, comparisons inside and/or are '
               'parenthesised (ast_tools drops that distinction)', 'pysmt substitutes and simplifies correctly']


def symbol(P, spec, F=None):
    """(symbolic value, its variable)"""
    k = spec[0]
    if k == 'bit':
        s = hw.SMTBit()
        return s, term(s)
    if k in g.LEAVES:
        s = {'bv': hw.SMTBitVector, 's': hw.SMTSIntVector, 'u': hw.SMTUIntVector}[k][spec[1]]()
        return s, term(s)
    s = hw.SMTBitVector[g.width(spec)]()
    return P.adt(spec, F or fam.SMTFamily())(s), term(s)


def sym_bits(P, spec, x):
    """SMT value of the bits of an output"""
    if spec[0] == 'bit':
        require(isinstance(x, hw.SMTBit), 'expected an SMTBit, got', repr(x))
        return x
    if spec[0] in g.LEAVES:
        T = {'bv': hw.SMTBitVector, 's': hw.SMTSIntVector, 'u': hw.SMTUIntVector}[spec[0]][spec[1]]
        require(isinstance(x, T), 'expected', T, 'got', type(x))
        return x
    return x._to_bitvector_()


def run(case, ctx, F=fam.SMTFamily, asm=Assembler):
    prog, start, runs = case
    F = F()
    P = progs.Program(prog)
    try:
        Py, SMT = P.fc.Py, P.fc(F)
        outs, ins, regs = prog['outs'], prog['ins'], prog['regs']
        n_calls = len(runs[0])
        s = SMT()
        start_syms = []
        if start is not None:
            # an arbitrary state
            for n, spec, _ in regs:
                x, v = symbol(P, spec, F)
                setattr(s, n, x)
                start_syms.append(v)
        trace, syms = [], []
        for _ in range(n_calls):
            args, vs = zip(*[symbol(P, spec, F) for spec in ins])
            syms.append(vs)
            r = s(*args)
            r = (r,) if len(outs) == 1 else r
            require(len(r) == len(outs), 'number of outputs')
            obs = [(f'output {j}', o, sym_bits(P, o, x)) for j, (o, x) in enumerate(zip(outs, r))]
            obs += [(f'register {n}', o, sym_bits(P, o, getattr(s, n))) for n, o, _ in regs]
            obs += [(f'component {n}', o, sym_bits(P, o, getattr(s, n).prev())) for n, o, _, _ in prog['gregs']]
            trace.append(obs)
        for k, hist in enumerate(runs):
            p = Py()
            env = {}
            if start is not None:
                for (n, spec, _), v, x in zip(regs, start_syms, start[k]):
                    setattr(p, n, P.plain(spec, x))
                    env[v] = bits_of(P.types, spec, P.plain(spec, x), asm)
            for c, vals in enumerate(hist):
                pv = [P.plain(spec, v) for spec, v in zip(ins, vals)]
                for spec, var, x in zip(ins, syms[c], pv):
                    env[var] = bits_of(P.types, spec, x, asm)
                r = p(*pv)
                r = (r,) if len(outs) == 1 else r
                want = [bits_of(P.types, o, x, asm) for o, x in zip(outs, r)]
                want += [bits_of(P.types, o, getattr(p, n), asm) for n, o, _ in regs]
                want += [bits_of(P.types, o, getattr(p, n).prev(), asm) for n, o, _, _ in prog['gregs']]
                for (what, o, x), w in zip(trace[c], want):
                    got = ev(x, env)
                    require(got == w, f'run {k}, call {c}: {what} is {w} when executed but its term says {got}')
                    ctx.count()
        ctx.nontrivial = 'if ' in prog['src'] and len(runs) >= 2
        ctx.label(f'{n_calls} calls')
        if P.local:
            ctx.label('local adts')
        ctx.label('any state' if start is not None and regs else 'initial state')
    finally:
        P.close()


@st.composite
def gen(draw):
    prog = draw(progs.programs(hist=1, size=4))
    # adts declared in the closure or outside; (symbolic initial values of registers can't be)
    prog['local'] = any(g.fields(s) for s in prog['types']) and '_attr_register(A' not in prog['src'] and draw(st.booleans())
    n = draw(st.integers(1, 3))
    runs = [[[draw(g.values(s)) for s in prog['ins']] for _ in range(n)] for _ in range(draw(st.integers(3, 10)))]
    start = None
    if draw(st.booleans()):
        start = [[draw(g.values(s)) for _, s, _ in prog['regs']] for _ in runs]
    return [prog, start, runs]


SUBS = [
    Sub('terms', gen, run, 'random components (nested ifs, early returns, ADTs, registers, a sub component) unrolled for '
        '1..3 calls on symbolic inputs and states, at 3..10 valuations; non-trivial: has control flow', quick=1200, quick_s=60),
    Sub('second', gen, lambda c, ctx: run(c, ctx, second.SMT, second.Assembler), 'the same on the second implementation of assemblers and assembled types', quick=400, quick_s=20),
    Sub('riscv', machines.histories, machines.run_terms,
        'terms of the RISC-V examples of the repository (one instruction, its registers and the program counter symbolic) along '
        'random programs of 1..8 instructions; non-trivial: >=2 instructions', quick=160, quick_s=40),
    Sub('examples', machines.calls, machines.run_example_terms,
        'PEs of the repository (tagged_pe, PE_lut, demo pe6): 1..8 random calls; non-trivial: >=2 calls', quick=240, quick_s=10),
]
