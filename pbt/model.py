"""What an assembler says about its types, read through its public interface only."""
from . import gens as g
from .core import require

from hwtypes import BitVector


def bits(op, lo, hi):
    return (op >> lo) & ((1 << (hi - lo)) - 1)


class V1:
    """decodes opcodes from layouts, tag codes and enum codes (never from validators or disassemblers)"""
    name = 'v1'

    def __init__(self, Asm, types):
        self.Asm, self.types, self.memo = Asm, types, {}

    def info(self, spec):
        c = g.canon(spec)
        if c in self.memo:
            return self.memo[c]
        T = self.types(spec)
        asm = self.Asm(T)
        if spec[0] == 'enum':
            r = {int(asm.assemble(getattr(T, m))): m for m, _ in spec[2]}
        elif spec[0] in ('prod', 'tup'):
            r = [asm.layout[k] for k, _ in g.fields(spec)]
        elif spec[0] in ('sum', 'tu'):
            tags = {}
            for i, (k, _) in enumerate(g.fields(spec)):
                tags[int(asm.assemble_tag(self.types.key(spec, k), BitVector))] = i
            r = (asm.tag_layout, tags, [asm.layout[self.types.key(spec, k)] for k, _ in g.fields(spec)])
        else:
            r = None
        self.memo[c] = r
        return r

    def decode(self, spec, op):
        """(value, mask of the bits used), or None when some enum or tag on the active path means nothing"""
        k = spec[0]
        r = self.info(spec)
        if k in g.LEAVES:
            return op, (1 << g.width(spec)) - 1
        if k == 'enum':
            return (r[op], (1 << g.width(spec)) - 1) if op in r else None
        if k in ('prod', 'tup'):
            vals, mask = [], 0
            for (lo, hi), (_, s) in zip(r, g.fields(spec)):
                d = self.decode(s, bits(op, lo, hi))
                if d is None:
                    return None
                vals.append(d[0])
                mask |= d[1] << lo
            return vals, mask
        (tlo, thi), tags, lay = r
        i = tags.get(bits(op, tlo, thi))
        if i is None:
            return None
        lo, hi = lay[i]
        d = self.decode(g.fields(spec)[i][1], bits(op, lo, hi))
        if d is None:
            return None
        return [i, d[0]], (d[1] << lo) | (((1 << (thi - tlo)) - 1) << tlo)


class V2:
    """decodes opcodes with extract, match and enum codes"""
    name = 'v2'

    def __init__(self, Asm, types):
        self.Asm, self.types = Asm, types

    def decode(self, spec, op):
        v = self._decode(spec, BitVector[self.Asm(self.types(spec)).width](op))
        return None if v is None else (v[0], None)

    def _decode(self, spec, bv):
        k = spec[0]
        T = self.types(spec)
        asm = self.Asm(T)
        if k in g.LEAVES:
            return (int(bv),)
        if k == 'enum':
            for m, _ in spec[2]:
                if int(asm.assemble(getattr(T, m))) == int(bv):
                    return (m,)
            return None
        if k in ('prod', 'tup'):
            vals = []
            for key, s in g.fields(spec):
                d = self._decode(s, asm.extract(bv, key))
                if d is None:
                    return None
                vals.append(d[0])
            return (vals,)
        on = [i for i, (key, _) in enumerate(g.fields(spec)) if bool(asm.match(bv, self.types.key(spec, key)))]
        require(len(on) <= 1, 'v2: opcode', bv, 'matches options', on)
        if not on:
            return None
        i = on[0]
        key, s = g.fields(spec)[i]
        d = self._decode(s, asm.extract(bv, self.types.key(spec, key)))
        return None if d is None else ([i, d[0]],)
