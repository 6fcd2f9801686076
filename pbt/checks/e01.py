"""Bitfield encodings against a packing written from the declared order of the fields."""
import zlib

from ..core import Sub, require
from ..hyp import st
from .. import gens as g
from ..zygote import ask

from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum, TaggedUnion
from hwtypes.adt_meta import EnumMeta
from hwtypes.modifiers import new
from peak.bitfield import encode, size, sumsize, tag, bitfield

PID = 'E01'
LEAF = {'bv': BitVector, 's': SIntVector, 'u': UIntVector}


class Types(g.Types):
    """Specs are those of gens, sums having a last item: their tags (a list), or 'class' or 'plain' if they have none.
    Every sum but a plain one is its own class."""
    def __init__(self):
        super().__init__()
        self.learned = {}

    def _build(self, spec):
        if spec[0] == 'sum':
            opts = tuple(self(s) for s in spec[1])
            if spec[2] == 'plain':
                return Sum[opts]
            S = type(Sum)(f'S{zlib.crc32(g.canon(spec).encode())}', (Sum[opts],), {})
            return S if spec[2] == 'class' else tag(dict(zip(opts, spec[2])))(S)
        if spec[0] == 'tu':
            # hwtypes remembers unions regardless of the order of their members, which their encoding follows
            return TaggedUnion.from_fields(spec[1], {n: self(s) for n, s in spec[2]}, cache=False)
        return super()._build(spec)

    def tags(self, spec):
        """the tags of a sum or union; those of a sum without declared ones are the encoder's choice"""
        if spec[0] == 'tu':
            return range(len(spec[2]))
        if isinstance(spec[2], list):
            return spec[2]
        c = g.canon(spec)
        if c not in self.learned:
            n = len(spec[1])
            got = []
            for i, s in enumerate(spec[1]):
                w = encode(self.value(spec, [i, next(iter(g.all_values(s)))]))
                got.append(w >> getattr(self(spec), 'bitfield', 0) & (1 << clog2(n)) - 1)
            require(sorted(got) == list(range(n)), f'options of {spec} are numbered {got}')
            self.learned[c] = got
        return self.learned[c]


def clog2(n):
    return (n - 1).bit_length()


def ref_size(spec):
    k = spec[0]
    if k == 'bit':
        return 1
    if k in LEAF:
        return spec[1]
    if k == 'enum':
        return clog2(max(v for _, v in spec[2]) + 1)
    if k == 'prod':
        return sum(ref_size(s) for _, s in spec[2])
    return max(ref_size(s) for _, s in g.fields(spec)) + ref_tag_size(spec)


def ref_tag_size(spec):
    if spec[0] == 'sum' and isinstance(spec[2], list):
        return clog2(max(spec[2]) + 1)
    return clog2(len(g.fields(spec)))


def place(types, spec, v, reverse, lo, hi, out):
    """puts the bits of v in lo..hi of out; what is narrower than its place is at the low end, the tag of a sum is at the
    low end of the sum, or at its high end if reversed; fields of a product fill up from the low or the high end"""
    k = spec[0]
    if k in ('bit', 'bv', 's', 'u', 'enum'):
        c = dict(spec[2])[v] if k == 'enum' else v
        for i in range(hi - lo):
            out[lo + i] = c >> i & 1
        require(c >> (hi - lo) == 0, 'reference')
    elif k == 'prod':
        a, b = lo, hi
        for (_, s), x in zip(spec[2], v):
            n = ref_size(s)
            if reverse:
                place(types, s, x, reverse, b - n, b, out)
                b -= n
            else:
                place(types, s, x, reverse, a, a + n, out)
                a += n
    else:
        i, x = v
        sub = g.fields(spec)[i][1]
        n, t = ref_size(sub), ref_tag_size(spec)
        at = hi - t if reverse else lo
        for j in range(t):
            out[at + j] = types.tags(spec)[i] >> j & 1
        p = lo if reverse else lo + t
        place(types, sub, x, reverse, p, p + n, out)


def ref_encode(types, spec, v, reverse):
    out = {}
    place(types, spec, v, reverse, 0, ref_size(spec), out)
    return sum(b << i for i, b in out.items())


def run(case, ctx):
    spec, vals, off = case
    types = Types()
    T = types(spec)
    n = size(T)
    require(n == ref_size(spec), f'size of {T} is {n}, not {ref_size(spec)}')
    if spec[0] in ('sum', 'tu'):
        require(sumsize(T) == ref_tag_size(spec), f'tag size of {T}')
    if off is not None:
        if spec[0] in ('bit', 'bv', 's', 'u'):
            # library types are not decorated, but subclasses of them
            T = new(T) if spec[0] == 'bit' else new(T.unsized_t, spec[1])
            types.t[g.canon(spec)] = T
        require(bitfield(off)(T) is T, 'bitfield returns', T)
        require(size(T) == n, 'an offset changes the size')
    for reverse in (False, True):
        seen = {}
        for v in vals:
            inst = types.value(spec, v)
            w = encode(inst, reverse) if reverse else encode(inst)
            want = ref_encode(types, spec, v, reverse) << (off or 0)
            require(w == want, f'{inst} of {spec} encodes to {w:b}, not {want:b} (reverse={reverse}, offset={off})')
            require(w >> (off or 0) < 1 << n, 'too big')
            o = seen.setdefault(w, v)
            require(o == v, f'{o} and {v} have the same word {w}')
            ctx.count(3)
    ctx.nontrivial = bool(g.fields(spec)) and len(vals) > 1
    if g.contains(spec, 'sum'):
        ctx.label('sum')
    if types.learned:
        ctx.label('sum without tags')
    if g.contains(spec, 'tu'):
        ctx.label('union')
    if off:
        ctx.label('offset')


def retag(draw, spec, declared=True):
    if spec[0] == 'prod':
        return ['prod', spec[1], [[n, retag(draw, s, declared)] for n, s in spec[2]]]
    if spec[0] == 'tu':
        return ['tu', spec[1], [[n, retag(draw, s, declared)] for n, s in spec[2]]]
    if spec[0] == 'sum':
        n = len(spec[1])
        how = draw(st.sampled_from([0, 1, 2] if declared else [0, 0, 0, 1, 2]))
        if how == 0:
            return ['sum', [retag(draw, s, declared) for s in spec[1]], draw(st.sampled_from(['class', 'plain']))]
        if how == 1:
            tags = draw(st.permutations(range(n)))
        else:
            tags = draw(st.lists(st.integers(0, draw(st.sampled_from([n, 2 * n, 20, 20, 1 << 40]))), min_size=n, max_size=n, unique=True))
        return ['sum', [retag(draw, s, declared) for s in spec[1]], list(tags)]
    return spec


@st.composite
def gen(draw, large=False):
    kinds = ('prod', 'sum', 'tu')
    spec = draw(g.big_specs(kinds=kinds, top=kinds, auto=False) if large else
                g.specs(max_depth=3, max_width=20, kinds=kinds, auto=False))
    if spec[0] == 'tup':
        spec = ['prod', 'T', [[f'f{i}', s] for i, s in enumerate(spec[1])]]
    spec = retag(draw, spec)
    off = draw(st.one_of(st.none(), st.integers(0, 20)))
    if spec[-1] == 'plain':
        off = None      # library types are not decorated
    if g.count(spec) <= 64 and draw(st.booleans()):
        vals = list(g.all_values(spec))
    else:
        vals = draw(st.lists(g.values(spec), min_size=1, max_size=10))
    return [spec, vals, off]


REG = [
    [['enum', 'E', [['a', 5], ['b', 2]]], ['a', 'b'], None],
    [['prod', 'P', [['a', ['s', 3]], ['b', ['u', 2]]]], [[7, 1], [4, 0], [3, 3]], 3],
    [['prod', 'P', [['a', ['enum', 'E', [['a', 1 << 32], ['b', (1 << 40) + 1]]]], ['b', ['u', 2]]]], [['a', 1], ['b', 0]], None],
    [['sum', [['bv', 3], ['bit']], [1 << 32, 1]], [[0, 5], [1, 1]], None],
]


def words(arg):
    spec, vals, first = arg
    junk = [object() for _ in range(first)]
    types = Types()
    for s in sorted(parts(spec), key=lambda s: zlib.crc32((g.canon(s) + str(first)).encode())):
        types(s)
    del junk
    return [[encode(types.value(spec, v), r) for r in (False, True)] for v in vals]


def parts(spec):
    out = [spec]
    for _, s in g.fields(spec):
        out += parts(s)
    return out


SEEDS = (3, 99, 51003)


def run_stable(case, ctx):
    spec, vals, junk, seeds = case
    want = words([spec, vals, 0])
    for j, seed in zip(junk, seeds):
        r = ask(SEEDS[seed], 'pbt.checks.e01', 'words', [spec, vals, j])
        require(r[0] == 'ok', 'other process:', r[1])
        require(r[1] == want, f'{spec}: words of {vals} are {r[1]} in another process, not {want}')
        ctx.count(len(vals))
    ctx.nontrivial = len(vals) > 1 and any(s[0] == 'sum' and isinstance(s[2], str) and len(s[1]) > 1 for s in parts(spec))


@st.composite
def gen_stable(draw):
    spec = draw(g.specs(max_depth=3, max_width=20, kinds=('prod', 'sum', 'sum', 'tu'), auto=False))
    if spec[0] == 'tup':
        spec = ['prod', 'T', [[f'f{i}', s] for i, s in enumerate(spec[1])]]
    spec = retag(draw, spec, False)
    vals = draw(st.lists(g.values(spec), min_size=1, max_size=8))
    n = draw(st.integers(1, 2))
    return [spec, vals, [draw(st.integers(0, 3000)) for _ in range(n)], [draw(st.integers(0, 2)) for _ in range(n)]]


SUBS = [Sub('encode', gen, run, 'products, sums (random tags or none declared) and unions, up to 3 deep, x values (all of them for small types) x '
            'both justifications x an offset of the type; non-trivial: composite type, two values or more', quick=6000,
            quick_s=15, regressions=REG),
        Sub('large', lambda: gen(large=True), run, 'types of up to 180 bits, 5 deep, with leaves of up to 65 bits, up to 40 fields, options or members, as above', quick=400),
        Sub('stable', gen_stable, run_stable, 'the same types and values in other processes (other hash seeds, other '
            'order of creation); non-trivial: a sum whose tags are not declared', quick=600, quick_s=15)]
