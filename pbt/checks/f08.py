"""Circuits wrapped with a disassembler, simulated."""
import itertools as it

from ..core import Sub, require
from ..hyp import st
from .. import gens as g, progs
from .f03 import simulate, reset_magma

PID = 'F08'
ASSUMPTIONS = ['magma, coreir and verilator translate faithfully what they are given; the layout places every field of the '
               'instruction (a product) in a range of its own']


class Layout(dict):
    # the wrappers are cached by their arguments
    def __hash__(self):
        return hash(tuple(sorted(self)))


def circuit(case):
    """a circuit with instruction ports; its instruction type; its other ports"""
    import magma as m
    fields, ports, regs = case['fields'], case['ports'], case['regs']
    ins, outs = {}, {}
    if case['kind'] == 'raw':
        MI = type(m.Product)('MI', (m.Product,), {n: m.Bit if w == 0 else m.Bits[w] for n, w in fields})

        class PE(m.Circuit):
            io = m.IO(**{p: m.In(MI) for p in ports}, x=m.In(m.Bits[3]), b=m.In(m.Bit), y=m.Out(m.Bits[3]), c=m.Out(m.Bit),
                      **{f'o_{p}_{n}': m.Out(m.Bit if w == 0 else m.Bits[w]) for p in ports for n, w in fields})
            if regs:
                io += m.ClockIO()
            io.y @= ~io.x
            io.c @= io.b
            for p in ports:
                for n, w in fields:
                    v = getattr(getattr(io, p), n)
                    if [p, n] in regs:
                        r = m.Register(m.Bit if w == 0 else m.Bits[w])()
                        r.I @= v
                        v = r.O
                    o = getattr(io, f'o_{p}_{n}')
                    o @= v
        return PE, MI
    # a component of one instruction port
    types = g.Types()
    src = progs.PRELUDE + '\n'.join(
        ['@family_closure', 'def PE_fc(family):', '    @family.assemble(locals(), globals())',
         '    class PE(Peak):',
         '        def __call__(self, inst: I, x: HBV[3], b: HBit) -> '
         '(HBV[3], HBit, ' + ', '.join(f'F{j}' for j in range(len(fields))) + '):',
         '            return ~x, b, ' + ', '.join(f'inst.{n}' for n, _ in fields), '    return PE', ''])
    import hwtypes as hw
    from hwtypes.adt import Product
    Fs = [types(s) for _, s in fields]
    ns = dict({f'F{j}': F for j, F in enumerate(Fs)}, HBit=hw.Bit, HBV=hw.BitVector,
              I=Product.from_fields('Inst', {n: F for (n, _), F in zip(fields, Fs)}))
    mod = progs.load(src, ns)
    try:
        PE = mod.PE_fc.Magma
    finally:
        progs.unload(mod)
    return PE, type(PE.interface.ports['inst'])


def size(case, f):
    return max(f, 1) if case['kind'] == 'raw' else g.width(f)


def run(case, ctx):
    import magma as m
    from peak.rtl_utils import wrap_with_disassembler
    reset_magma()
    try:
        PE, IT = circuit(case)
        ports = case['ports']
        sizes = {n: size(case, f) for n, f in case['fields']}
        wrapped = []
        for w in case['wraps']:
            lay, pos = {}, 0
            for n, gap in w['order']:
                pos += gap
                lay[n] = (pos, pos + sizes[n])
                pos += sizes[n]
            lay = Layout((n, lay[n]) for n, _ in case['fields'])
            width = pos + w['pad']
            kw = dict(wrapped_name=w['name']) if w['name'] else {}
            W = wrap_with_disassembler(PE, None, width, lay, IT, **kw)
            require(W.name.startswith(w['name'] or 'WrappedPE'), 'name', W.name)
            wrapped.append((W, lay, width, w))
        for W, lay, width, w in wrapped:
            words = [[x & (1 << width) - 1 for x in h[:len(ports)]] + h[-2:] for h in w['hist']]
            ins = ports + ['x', 'b']
            fouts = [(p, n) for p in ports for n, _ in case['fields']]
            outs = ['y', 'c'] + [f'o_{p}_{n}' for p, n in fouts]
            if case['kind'] == 'peak':
                outs = [f'O{j}' for j in range(len(outs))]
            # (it remembers modules by their names)
            m.frontend.coreir_.ResetCoreIR()
            got = simulate(W, ins, outs, words)
            regs = {tuple(r): 0 for r in case['regs']}
            for k, (h, row) in enumerate(zip(words, got)):
                want = [~h[-2] & 7, h[-1]]
                for p, n in fouts:
                    lo, hi = lay[n]
                    v = h[ports.index(p)] >> lo & (1 << hi - lo) - 1
                    if (p, n) in regs:
                        v, regs[p, n] = regs[p, n], v
                    want.append(v)
                require(want == row, f'cycle {k}: {list(zip(outs, want))} expected, the wrapper of layout {dict(lay)} ({width}) gives {row}')
                ctx.count(len(row))
            ctx.label(case['kind'])
        if len(wrapped) > 1:
            ctx.label('two wrappers')
        ctx.nontrivial = len(case['fields']) > 1
    finally:
        reset_magma()


@st.composite
def gen(draw):
    kind = draw(st.sampled_from(['raw', 'raw', 'peak']))
    names = draw(st.permutations(['op', 'imm', 'a', 'b1', 'sel', 'const_']))[:draw(st.integers(1, 4))]
    if kind == 'raw':
        fields = [[n, draw(st.integers(0, 4))] for n in names]
        ports = draw(st.sampled_from([['inst'], ['inst'], ['i0', 'i1']]))
        allp = [[p, n] for p in ports for n in names]
        regs = draw(st.lists(st.sampled_from(allp), max_size=2, unique_by=str))
    else:
        spec = st.one_of(g.specs(max_depth=1, max_width=6, zero=False), g.specs(max_depth=0, max_width=4, zero=False))
        fields = [[n, draw(spec)] for n in names]
        ports, regs = ['inst'], []
    total = sum(g.width(s) if kind == 'peak' else max(s, 1) for _, s in fields)
    wraps = []
    for k in range(draw(st.sampled_from([1, 2, 2, 3]))):
        order = [[n, draw(st.sampled_from([0, 0, 0, 1, 2]))] for n in draw(st.permutations(names))]
        # the first one with its fields in another order
        again = k > 0 and draw(st.booleans())
        if again:
            order = [[n, gap] for n, (_, gap) in zip(draw(st.permutations(names)), wraps[0]['order'])]
        hist = [[draw(st.integers(0, (1 << total + 9) - 1)) for _ in ports] + [draw(st.integers(0, 7)), draw(st.integers(0, 1))]
                for _ in range(draw(st.integers(3, 10)))]
        wraps.append(dict(order=order, pad=wraps[0]['pad'] if again else draw(st.sampled_from([0, 0, 1, 3])), hist=hist,
                          name=wraps[0]['name'] if again else draw(st.sampled_from([None, 'Top', 'W2']))))
    return dict(kind=kind, fields=fields, ports=ports, regs=regs, wraps=wraps)


SUBS = [
    Sub('wrappers', gen, run, 'circuits with one or two instruction ports (product of 1..4 fields) or components with an instruction '
        'input of 1..4 fields of any type x one to three layouts (any order, with gaps) x 3..10 cycles of random words; non-trivial: '
        'more than one field', quick=300, quick_s=40),
]
