"""Plain and rewritten Python families agree."""
from ..core import Sub, require
from .. import gens as g, machines, progs, second

from hwtypes import Bit
from peak import family as fam
from peak.assembler import Assembler

PID = 'F01'
ASSUMPTIONS = ['stateful components are called once per call and unconditionally, comparisons inside and/or are '
               'parenthesised (ast_tools drops that distinction)']


def bits_of(types, spec, x, Assembler=Assembler):
    """opcode of a plain or assembled value"""
    if spec[0] == 'bit':
        require(isinstance(x, (Bit, bool)), 'expected a Bit, got', repr(x))
        return int(bool(x))
    if spec[0] in g.LEAVES:
        require(isinstance(x, types(spec)), 'expected', types(spec), 'got', type(x))
        return x.as_uint()
    T = types(spec)
    if isinstance(x, T):
        return int(Assembler(T).assemble(x))
    return int(x._to_bitvector_())


def run(prog, ctx, F=fam.PyXFamily, asm=Assembler):
    P = progs.Program(prog)
    try:
        F = F()
        Py, PyX = P.fc.Py, P.fc(F)
        require(Py is not PyX, 'both families share a class')
        a, b = Py(), PyX()
        outs, ins = prog['outs'], prog['ins']
        seen = set()
        for step, vals in enumerate(prog['hist']):
            pv = [P.plain(s, v) for s, v in zip(ins, vals)]
            xv = [v if s[0] in g.LEAVES else F.get_adt_t(P.types(s))(v) for s, v in zip(ins, pv)]
            ra, rb = a(*pv), b(*xv)
            if len(outs) == 1:
                ra, rb = (ra,), (rb,)
            require(len(ra) == len(rb) == len(outs), 'number of outputs', ra, rb)
            for j, (s, x, y) in enumerate(zip(outs, ra, rb)):
                x, y = bits_of(P.types, s, x, asm), bits_of(P.types, s, y, asm)
                require(x == y, f'call {step}: output {j} is {x} plain but {y} rewritten')
                seen.add((j, x))
                ctx.count()
            for n, s, _ in prog['regs']:
                x, y = bits_of(P.types, s, getattr(a, n), asm), bits_of(P.types, s, getattr(b, n), asm)
                require(x == y, f'call {step}: register {n} is {x} plain but {y} rewritten')
                ctx.count()
            for n, s, _, _ in prog['gregs']:
                x = bits_of(P.types, s, getattr(a, n).prev(), asm)
                y = bits_of(P.types, s, getattr(b, n).prev(), asm)
                require(x == y, f'call {step}: component {n} is {x} plain but {y} rewritten')
                ctx.count()
        src = prog['src']
        ctx.nontrivial = 'if ' in src and len(prog['hist']) >= 2
        for w in ('elif', 'return', 'self.s0(', 'self.g0(', 'self.r0 =', '.value', '.match', ' and ', 'not ('):
            if src.count(w) > (1 if w == 'return' else 0):
                ctx.label(w.strip())
    finally:
        P.close()


SUBS = [
    Sub('programs', lambda: progs.programs(hist=14, size=4), run,
        'random components (nested ifs, early returns, ADT inputs/outputs, registers, a sub component) x up to 14 calls; '
        'non-trivial: has control flow and >=2 calls', quick=1200, quick_s=60),
    Sub('second', lambda: progs.programs(hist=10, size=3), lambda c, ctx: run(c, ctx, second.PyX, second.Assembler),
        'the same with the rewritten family on the second implementation of assemblers and assembled types', quick=400, quick_s=20),
    Sub('riscv', machines.histories, machines.run_rewritten,
        'the RISC-V examples of the repository (base, bit counting and multiplication) in the plain and the rewritten family: '
        'random programs of 1..8 instructions from random registers; non-trivial: >=2 instructions', quick=160, quick_s=40),
    Sub('examples', machines.calls, machines.run_example_rewritten,
        'PEs of the repository (tagged_pe, PE_lut, demo pe6): 1..8 random calls; non-trivial: >=2 calls', quick=240, quick_s=10),
]
