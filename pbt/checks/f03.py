"""Hardware of generated components, simulated, against the Python family."""
import json, os, re, shutil, subprocess

from ..core import Sub, require, HarnessError, Violation
from ..hyp import st
from .. import gens as g, progs, second
from .f01 import bits_of

from peak import family as fam
from peak.assembler import Assembler

PID = 'F03'
ASSUMPTIONS = ['magma, coreir and verilator translate faithfully what they are given; hardware subset: unsigned order '
               'comparisons by method, registers of bits and vectors that are always driven, no multiplexing of adts, '
               'stateful components are called once per call and unconditionally; no field is called name, which Magma gives to every value']

INC = '/usr/share/verilator/include'
_ready = []


def tool(cmd, cwd=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise HarnessError(f'{cmd[0]}: {e}')
    if r.returncode < 0 or b'o space left' in r.stdout or b'Killed' in r.stdout:
        raise HarnessError(f'{cmd[0]}: {r.returncode} {r.stdout[-2000:]!r}')
    return r.returncode, r.stdout.decode(errors='replace')


def runtime():
    """the simulator's runtime, compiled once per process"""
    if _ready:
        return _ready[0]
    d = os.path.join(os.getcwd(), 'vrt')
    os.makedirs(d, exist_ok=True)
    with open(f'{d}/pre.h', 'w') as f:
        f.write('#include "verilated.h"\n#include <cstdio>\n')
    flags = ['-O0', '-w', f'-I{INC}', f'-I{INC}/vltstd']
    for cmd in (['g++', *flags, '-x', 'c++-header', 'pre.h', '-o', 'pre.h.gch'],
                ['g++', *flags, '-c', f'{INC}/verilated.cpp', '-o', 'a.o'],
                ['g++', *flags, '-c', f'{INC}/verilated_threads.cpp', '-o', 'b.o']):
        rc, out = tool(cmd, d)
        if rc:
            raise HarnessError(out[-2000:])
    _ready.append((d, flags))
    return _ready[0]


def reset_magma():
    import magma as m
    m.clear_cachedFunctions()
    m.frontend.coreir_.ResetCoreIR()
    m.generator.reset_generator_cache()


def simulate(circ, ins, outs, hist):
    """outputs per cycle. hist: list of inputs (ints) or None for a reset"""
    import magma as m
    rt, flags = runtime()
    d = os.path.join(os.getcwd(), 'hw')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ports = {str(k) for k in circ.interface.ports}
    require(set(ins) <= ports, 'inputs', ins, 'of', ports)
    require(set(outs) <= ports, 'outputs', outs, 'of', ports)
    require(ports - set(ins) - set(outs) <= {'CLK', 'ASYNCRESET'}, 'ports', ports)
    m.compile(f'{d}/out', circ, output='coreir-verilog')
    rc, out = tool(['verilator', '-Wno-fatal', '--cc', 'out.v', '--Mdir', 'od', '--top-module', circ.name, '--prefix',
                    'VT', '-O1'], d)
    if rc:
        raise Violation('verilator rejects the generated Verilog: ' + out[-1500:])
    L = ['#include "VT.h"', 'int main() { VT t;']
    rst = 'ASYNCRESET' in ports
    clk = 'CLK' in ports
    if clk:
        L.append('t.CLK = 0;')

    def reset():
        L.extend(['t.ASYNCRESET = 0; t.eval(); t.ASYNCRESET = 1; t.eval(); t.ASYNCRESET = 0; t.eval();'] if rst else [])
    reset()
    for vals in hist:
        if vals is None:
            reset()
            continue
        for n, v in zip(ins, vals):
            L.append(f't.{n} = {v}u;')
        L.append('t.eval();')
        for n in outs:
            L.append(f'printf("%llu ", (unsigned long long) t.{n});')
        L.append('printf("\\n");')
        if clk:
            L.append('t.CLK = 1; t.eval(); t.CLK = 0; t.eval();')
    L.append('return 0; }')
    srcs = sorted(x for x in os.listdir(f'{d}/od') if x.endswith('.cpp'))
    with open(f'{d}/all.cpp', 'w') as f:
        f.write(''.join(f'#include "{x}"\n' for x in srcs) + '\n'.join(L) + '\n')
    rc, out = tool(['g++', *flags, '-include', f'{rt}/pre.h', '-Iod', 'all.cpp', f'{rt}/a.o', f'{rt}/b.o', '-o', 'sim',
                    '-lpthread', '-latomic'], d)
    if rc:
        raise HarnessError('g++: ' + out[-2000:])
    rc, out = tool(['./sim'], d)
    if rc:
        raise HarnessError(f'sim: {rc} {out[-500:]}')
    rows = [[int(x) for x in l.split()] for l in out.splitlines()]
    require(len(rows) == sum(h is not None for h in hist), 'simulation ended early')
    shutil.rmtree(d, ignore_errors=True)
    return rows


def run(case, ctx, F=fam.MagmaFamily, asm=Assembler):
    prog, resets = case
    reset_magma()
    P = progs.Program(prog)
    try:
        Py, M = P.fc.Py, P.fc(F())
        ins, outs = prog['ins'], prog['outs']
        p = Py()
        hist, want = [], []
        for k, vals in enumerate(prog['hist']):
            if k in resets:
                hist.append(None)
                p = Py()
            pv = [P.plain(s, v) for s, v in zip(ins, vals)]
            hist.append([bits_of(P.types, s, x, asm) for s, x in zip(ins, pv)])
            r = p(*pv)
            r = (r,) if len(outs) == 1 else r
            want.append([bits_of(P.types, s, x, asm) for s, x in zip(outs, r)])
        onames = ['O'] if len(outs) == 1 else [f'O{j}' for j in range(len(outs))]
        got = simulate(M, [f'i{j}' for j in range(len(ins))], onames, hist)
        for k, (a, b) in enumerate(zip(want, got)):
            require(a == b, f'cycle {k}: outputs are {a} in Python but {b} in hardware (inputs {prog["hist"][k]})')
            ctx.count(len(a))
        src = prog['src']
        ctx.nontrivial = len(set(map(tuple, want))) >= 2
        for w in ('if ', 'self.s0(', 'self.g0(', 'self.r0', '.value', '.match', 'A0'):
            if w in src:
                ctx.label(w.strip())
        if P.local:
            ctx.label('local adts')
        if any(h is None for h in hist):
            ctx.label('reset')
    finally:
        P.close()
        reset_magma()


@st.composite
def gen(draw):
    prog = draw(progs.programs(magma=True, adt_regs=False, size=4, hist=1))
    # (every value of Magma has a name)
    prog = json.loads(re.sub(r'\bname\b', 'nam', json.dumps(prog)))
    prog['local'] = any(g.fields(s) for s in prog['types']) and '_attr_register(A' not in prog['src'] and draw(st.booleans())
    prog['hist'] = [[draw(g.values(s)) for s in prog['ins']] for _ in range(draw(st.integers(4, 16)))]
    return [prog, draw(st.lists(st.integers(1, len(prog['hist'])), max_size=1))]


E = ['enum', 'E1', [['a', 2], ['b', 1], ['c', None]]]
IN = ['prod', 'P2', [['x', ['bit']], ['e', E]]]
OUT = ['prod', 'P3', [['op', E], ['b', ['bv', 3]], ['in_', IN]]]
NESTED = [dict(types=[E, IN, OUT], ins=[IN, ['bv', 3]], outs=[OUT], regs=[], gregs=[],
               hist=[[[x, e], v] for x in (0, 1) for e in 'abc' for v in (0, 5)],
               src=progs.PRELUDE + '''@family_closure
def Top_fc(family):
    A1 = family.get_adt_t(T1)
    A2 = family.get_adt_t(T2)
    C2 = family.get_constructor(T2)
    @family.assemble(locals(), globals())
    class Top(Peak):
        def __call__(self, i0: T1, i1: HBV[3]) -> T2:
            return C2(op=i0.e, b=i1, in_=i0)
    return Top
'''), []]

SUBS = [
    Sub('simulate', gen, run, 'random components of the hardware subset x 4..16 cycles of random inputs with an '
        'occasional reset; non-trivial: the outputs change over time', quick=750, quick_s=50,
        regressions=[NESTED]),
    Sub('second', gen, lambda c, ctx: run(c, ctx, second.Magma, second.Assembler), 'the same on the second implementation of '
        'assemblers and assembled types', quick=250, quick_s=20, regressions=[NESTED]),
]
