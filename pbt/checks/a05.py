"""Tag functions."""
from ..core import Sub, require, raises
from ..hyp import st
from .. import gens as g

from hwtypes import BitVector, SIntVector, UIntVector, SMTBitVector
from peak.assembler import Assembler

PID = 'A05'


def run(case, ctx):
    spec, vals = case
    types = g.Types()
    nontrivial = False

    def walk(s, vs):
        nonlocal nontrivial
        asm = Assembler(types(s))
        if s[0] in ('sum', 'tu'):
            n = asm.tag_width
            codes = {}
            for i, (k, _) in enumerate(g.fields(s)):
                key = types.key(s, k)
                tag = asm.assemble_tag(key, BitVector)
                require(isinstance(tag, BitVector) and tag.size == n, 'tag of', key, 'is', tag)
                require(int(tag) not in codes, 'options', codes.get(int(tag)), i, 'share tag', tag)
                codes[int(tag)] = i
                back = asm.disassemble_tag(tag)
                require(back == key if s[0] == 'tu' else back is key, 'tag', tag, 'of', key, 'is that of', back)
                require(bool(asm.is_valid_tag(tag)), 'tag of', key, 'is invalid')
                for F in (SIntVector, UIntVector):
                    t = asm.assemble_tag(key, F)
                    require(isinstance(t, F) and t.size == n and t.as_uint() == int(tag), 'tag of', key, 'is', tag, 'and', t)
                    require(bool(asm.is_valid_tag(t)), 'tag', t, 'of', key, 'is invalid')
                    back = asm.disassemble_tag(t)
                    require(back == key if s[0] == 'tu' else back is key, 'tag', t, 'of', key, 'is that of', back)
                if n:
                    st_ = asm.assemble_tag(key, SMTBitVector)
                    require(st_.size == n and st_.value.constant_value() == int(tag), 'SMT tag of', key)
                ctx.count(4)
            bad = 0
            for c in range(1 << n):
                if c in codes:
                    continue
                bad += 1
                require(not bool(asm.is_valid_tag(BitVector[n](c))), 'tag', c, 'is valid')
                raises(ValueError, asm.disassemble_tag, BitVector[n](c))
                require(not bool(asm.is_valid_tag(SIntVector[n](c))), 'tag', c, 'is valid when signed')
                raises(ValueError, asm.disassemble_tag, SIntVector[n](c))
                ctx.count(4)
            ctx.label('some codes invalid' if bad else 'all codes valid')
            if len(codes) > 1:
                nontrivial = True
            require(asm.tag_layout[1] - asm.tag_layout[0] == n, 'tag layout', asm.tag_layout)
            for v in vs:
                op = asm.assemble(types.value(s, v))
                tag = op[slice(*asm.tag_layout)]
                require(codes.get(int(tag)) == v[0], 'instruction', v, 'carries tag', tag)
                ctx.count()
            for i, (_, x) in enumerate(g.fields(s)):
                walk(x, [v[1] for v in vs if v[0] == i])
        else:
            raises(TypeError, lambda: asm.tag_width)
            raises(TypeError, lambda: asm.tag_layout)
            raises(TypeError, asm.assemble_tag, 'x', BitVector)
            raises(TypeError, asm.disassemble_tag, BitVector[1](0))
            raises(TypeError, asm.is_valid_tag, BitVector[1](0))
            ctx.count(5)
            for j, (_, x) in enumerate(g.fields(s)):
                walk(x, [v[j] for v in vs])
    walk(spec, vals)
    ctx.nontrivial = nontrivial


@st.composite
def gen(draw):
    spec = draw(g.specs(max_depth=3, max_width=16, kinds=('sum', 'tu', 'tu', 'prod'), top=('sum', 'tu'), max_fields=9))
    return [spec, draw(st.lists(g.values(spec), min_size=1, max_size=12))]


@st.composite
def gen_other(draw):
    spec = draw(g.specs(max_depth=2, max_width=12))
    return [spec, draw(st.lists(g.values(spec), min_size=1, max_size=4))]


@st.composite
def gen_large(draw):
    spec = draw(g.big_specs(kinds=('sum', 'tu', 'tu', 'prod'), top=('sum', 'tu')))
    return [spec, draw(st.lists(g.values(spec), min_size=1, max_size=8))]


SUBS = [
    Sub('sums', gen, run, 'random sums and unions of 1..9 options (shared and nested member types) x every tag code x '
        'instructions; non-trivial: a sum of >=2 options', quick=3000),
    Sub('large', gen_large, run, 'types of up to 180 bits, 5 deep, with leaves of up to 65 bits, up to 40 fields, options or members x every tag code x '
        'instructions; non-trivial: a sum of >=2 options', quick=320),
    Sub('any', gen_other, run, 'random ADT; non-trivial: contains a sum of >=2 options', quick=600),
]
