"""Generated ADT types and values, as JSON data, and the objects they stand for.

spec  ::= ["bit"] | ["bv",n] | ["s",n] | ["u",n]
        | ["enum",name,[[member,value|null]...]]          null: automatic value
        | ["prod",name,[[field,spec]...]] | ["tup",[spec...]]
        | ["sum",[spec...]] | ["tu",name,[[field,spec]...]]
value ::= int | member | [value...] (prod, tup) | [option index, value] (sum, tu)
"""
import json
import zlib

from .hyp import st

from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion, new_instruction
from hwtypes.adt_meta import EnumMeta

LEAVES = ('bit', 'bv', 's', 'u')


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))


# ---- structure ----

def fields(spec):
    """[(key, sub spec)] of a composite; key: field name or position"""
    k = spec[0]
    if k in ('prod', 'tu'):
        return [(n, s) for n, s in spec[2]]
    if k in ('tup', 'sum'):
        return list(enumerate(spec[1]))
    return []


def depth(spec):
    return 0 if not fields(spec) else 1 + max(depth(s) for _, s in fields(spec))


def enum_codes(spec):
    """member -> code, by the documented rule: explicit values stand for themselves, automatic ones take the
    smallest unused numbers in order of declaration"""
    used = {v for _, v in spec[2] if v is not None}
    out, c = {}, 0
    for n, v in spec[2]:
        if v is None:
            while c in used:
                c += 1
            used.add(c)
            v = c
        out[n] = v
    return out


def width(spec):
    k = spec[0]
    if k == 'bit':
        return 1
    if k in LEAVES:
        return spec[1]
    if k == 'enum':
        return max(enum_codes(spec).values()).bit_length()
    if k in ('prod', 'tup'):
        return sum(width(s) for _, s in fields(spec))
    return tag_width(spec) + max(width(s) for _, s in fields(spec))


def tag_width(spec):
    return (len(fields(spec)) - 1).bit_length()


def has_zero(spec):
    """some part of the type has no bits at all"""
    return width(spec) == 0 or any(has_zero(s) for _, s in fields(spec)) or \
        (spec[0] in ('sum', 'tu') and tag_width(spec) == 0)


def contains(spec, *kinds):
    return spec[0] in kinds or any(contains(s, *kinds) for _, s in fields(spec))


def count(spec):
    k = spec[0]
    if k == 'bit':
        return 2
    if k in LEAVES:
        return 1 << spec[1]
    if k == 'enum':
        return len(spec[2])
    n = [count(s) for _, s in fields(spec)]
    if k in ('prod', 'tup'):
        r = 1
        for x in n:
            r *= x
        return r
    return sum(n)


def all_values(spec):
    k = spec[0]
    if k == 'bit':
        return iter((0, 1))
    if k in LEAVES:
        return iter(range(1 << spec[1]))
    if k == 'enum':
        return iter([m for m, _ in spec[2]])
    if k in ('prod', 'tup'):
        return _product([s for _, s in fields(spec)])
    return ([i, v] for i, (_, s) in enumerate(fields(spec)) for v in all_values(s))


def _product(specs):
    """(lazy, unlike that of itertools)"""
    if not specs:
        yield []
        return
    for v in all_values(specs[0]):
        for vs in _product(specs[1:]):
            yield [v] + vs


def shadow(spec):
    """Types with equal shadows are subtypes of one another in hwtypes, hence can't be told apart in a Sum"""
    k = spec[0]
    if k in ('bv', 's', 'u'):
        return canon(['bv', spec[1]])
    if k in ('prod', 'tup'):
        return canon(['tup', [s for _, s in fields(spec)]])
    if k in ('sum', 'tu'):
        return canon(['sum', sorted(set(canon(s) for _, s in fields(spec)))])
    return canon(spec)


# ---- objects ----

class Types:
    """The types of one case. Equal specs are the same type."""
    styles = True

    def __init__(self, family=None, enums=None):
        """bits and vectors are those of the family (of hwtypes if there is none); enums may be shared with other types"""
        self.t = {}
        self.family = family
        self.enums = enums

    def __call__(self, spec):
        c = canon(spec)
        if c not in self.t:
            self.t[c] = self._build(spec)
        return self.t[c]

    def _build(self, spec):
        k = spec[0]
        if k == 'enum' and self.enums is not None:
            return self.enums(spec)
        if k in LEAVES and self.family is not None:
            F = self.family
            return F.Bit if k == 'bit' else {'bv': F.BitVector, 's': F.Signed, 'u': F.Unsigned}[k][spec[1]]
        if k == 'bit':
            return Bit
        if k == 'bv':
            return BitVector[spec[1]]
        if k == 's':
            return SIntVector[spec[1]]
        if k == 'u':
            return UIntVector[spec[1]]
        if k == 'enum':
            ns = {'__module__': __name__, '__qualname__': spec[1]}
            for m, v in spec[2]:
                ns[m] = new_instruction() if v is None else v
            return EnumMeta(spec[1], (Enum,), ns)
        # types are made by functions, by class statements, and by inheriting from such types
        how = zlib.crc32(canon(spec).encode()) % 4 if self.styles else 0
        if k in ('prod', 'tu'):
            B = Product if k == 'prod' else TaggedUnion
            fs = {n: self(s) for n, s in spec[2]}
            if how < 2:
                return B.from_fields(spec[1], fs)
            T = type(B)(spec[1], (B,), {'__module__': __name__, '__qualname__': spec[1], **fs})
        elif k in ('tup', 'sum'):
            T = (Tuple if k == 'tup' else Sum)[tuple(self(s) for s in spec[1])]
        else:
            raise ValueError(spec)
        if how == 3:
            name = spec[1] if k in ('prod', 'tu') else f'{k}{zlib.crc32(canon(spec).encode())}'
            T = type(T)(name, (T,), {'__module__': __name__, '__qualname__': name})
        return T

    def key(self, spec, k):
        """what selects field k of the type: a name, a position or (sums) a type"""
        return self(spec[1][k]) if spec[0] == 'sum' else k

    def value(self, spec, v):
        k = spec[0]
        T = self(spec)
        if k in LEAVES:
            return T(v)
        if k == 'enum':
            return getattr(T, v)
        if k in ('prod', 'tup'):
            return T(*[self.value(s, x) for (_, s), x in zip(fields(spec), v)])
        i, x = v
        n, s = fields(spec)[i]
        x = self.value(s, x)
        return T(x) if k == 'sum' else T(**{n: x})


# ---- strategies ----

_MEMBERS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r']
_FIELDS = ['x', 'y', 'z', 'w', 'a', 'b', 'op', 'k0', 'k1', 'inst', 'rs', 'imm', 'A', 'Z',
           # names that mean something to the assembler or its types
           'asm', 'idx', 'tag_idx', 'tag', 'layout', 'match', 'width', 'name', 'size']
_MANY = [f'm{i}' for i in range(60)]
_PREFIX = ['A', 'B', 'K', 'M', 'Q', 'Z', 'a', 'z', '_T']


@st.composite
def enum_values(draw, max_bits=4, max_members=10, auto=True):
    """list of values|None: automatic, dense, sparse, ranges, one-hot..."""
    kinds = ['range', 'sparse', 'onehot', 'ranges', 'complement']
    if auto:
        kinds += ['auto', 'mixed']
    kind = draw(st.sampled_from(kinds))
    top = (1 << draw(st.integers(1, max_bits))) - 1
    if kind == 'complement':
        top = min(top, 63)
    if kind == 'auto':
        return [None] * draw(st.integers(1, min(max_members, top + 1)))
    if kind == 'range':
        lo = draw(st.integers(0, top))
        vals = list(range(lo, min(top, lo + draw(st.integers(0, max_members - 1))) + 1))
    elif kind == 'onehot':
        pool = [0] + [1 << i for i in range(top.bit_length())][:40]
        drop = draw(st.sets(st.sampled_from(pool), max_size=max(0, len(pool) - 1)))
        vals = [x for x in pool if x not in drop]
    elif kind == 'ranges':
        vals, x = [], draw(st.integers(0, 3))
        while x <= top and len(vals) < max_members:
            n = draw(st.integers(1, 4))
            vals += list(range(x, min(x + n, top + 1)))
            x += n + draw(st.integers(1, 4))
        vals = vals[:max_members] or [top]
    elif kind == 'complement':
        drop = draw(st.sets(st.integers(0, top), min_size=1, max_size=2))
        vals = [x for x in range(top + 1) if x not in drop][:max_members + 6] or [top]
    else:
        vals = draw(st.lists(st.integers(0, top), min_size=1, max_size=max_members, unique=True))
        if kind == 'mixed':
            keep = draw(st.lists(st.booleans(), min_size=len(vals), max_size=len(vals)))
            return [v if k else None for v, k in zip(vals, keep)]
        return vals
    if draw(st.booleans()):
        vals = draw(st.permutations(vals))
    return list(vals)


class _Namer:
    def __init__(self):
        self.n = 0

    def __call__(self, draw):
        self.n += 1
        return draw(st.sampled_from(_PREFIX)) + str(self.n)


def _enum(draw, name, zero, **kw):
    vals = draw(enum_values(**kw))
    if not zero and set(vals) <= {0, None} and len(vals) == 1:
        vals = [1]
    names = _MEMBERS if len(vals) <= len(_MEMBERS) else _MEMBERS + _MANY
    ms = draw(st.permutations(names[:len(vals)])) if draw(st.booleans()) else names
    return ['enum', name, [[m, v] for m, v in zip(ms, vals)]]


@st.composite
def specs(draw, max_depth=3, max_width=20, kinds=('prod', 'tup', 'sum', 'tu'), leaves=('bit', 'bv', 's', 'u', 'enum'),
          zero=True, top=None, max_fields=4, bits=4, auto=True, min_fields=1, big=False):
    """A type of at most max_width bits (and at least one); big: wide leaves, large enums, many fields and options"""
    namer, pool = _Namer(), []

    def leaf(w):
        k = draw(st.sampled_from(leaves))
        if k == 'bit' or w <= 1 and k != 'enum':
            return ['bit'] if 'bit' in leaves else [k, 1]
        if k == 'enum':
            b = draw(st.sampled_from([bits, bits, bits, 34, 64])) if big else bits
            e = _enum(draw, namer(draw), zero, max_bits=max(1, min(b, w)), auto=auto,
                      max_members=draw(st.sampled_from([4, 10, 40])) if big else 10)
            return e
        if big and draw(st.booleans()):
            return [k, max(1, min(w, draw(st.sampled_from([8, 16, 31, 32, 33, 63, 64, 65]))))]
        return [k, draw(st.integers(1, max(1, min(bits, w))))]

    def go(d, w, kinds_here):
        if pool and draw(st.integers(0, 3)) == 0:
            fit = [s for s in pool if width(s) <= w and depth(s) <= d and (kinds_here is None or s[0] in kinds_here)]
            if fit:
                return draw(st.sampled_from(fit))
        if kinds_here is None:
            if d <= 0 or w < 3 or draw(st.integers(0, 2)) == 0:
                s = leaf(w)
                pool.append(s)
                return s
            kinds_here = kinds
        k = draw(st.sampled_from(kinds_here))
        if k in LEAVES or k == 'enum':
            s = leaf(w)
            pool.append(s)
            return s
        n = draw(st.integers(min_fields, max_fields))
        if big and draw(st.integers(0, 5)) == 0:
            n, d = draw(st.sampled_from([5, 8, 9, 16, 17, 31, 33, 40])), 1
            cap = 4
        else:
            cap = 999
        if k in ('sum', 'tu'):
            tw = (n - 1).bit_length()
            subs, seen = [], set()
            for _ in range(n):
                s = go(d - 1, max(1, min(cap, w - tw)), None)
                if k == 'sum':
                    if shadow(s) in seen:
                        continue
                    seen.add(shadow(s))
                subs.append(s)
            if k == 'sum' and len(subs) < min_fields:
                i = 1
                while len(subs) < min_fields:
                    s = ['bv', i]
                    i += 1
                    if shadow(s) not in seen:
                        seen.add(shadow(s))
                        subs.append(s)
        else:
            subs, left = [], w
            for _ in range(n):
                if left < 1:
                    break
                s = go(d - 1, min(cap, left), None)
                left -= width(s)
                subs.append(s)
        if k == 'tup':
            s = ['tup', subs]
        elif k == 'sum':
            s = ['sum', subs]
        else:
            names = _FIELDS if len(subs) < 10 else _FIELDS + _MANY
            names = draw(st.lists(st.sampled_from(names), min_size=len(subs), max_size=len(subs), unique=True))
            s = [k, namer(draw), [[a, b] for a, b in zip(names, subs)]]
        if not zero and s[0] in ('sum', 'tu') and len(subs) < 2:
            # a single option has a tag of no bits
            s = ['tup', subs]
        pool.append(s)
        return s

    if top is None and max_depth > 0 and draw(st.integers(0, 7)) > 0:
        top = kinds
    s = go(max_depth, max_width, top)
    if width(s) == 0:
        s = ['tup', [s, ['bit']]]
    return s


@st.composite
def values(draw, spec):
    k = spec[0]
    if k == 'bit':
        return draw(st.integers(0, 1))
    if k in LEAVES:
        return draw(st.integers(0, (1 << spec[1]) - 1))
    if k == 'enum':
        return draw(st.sampled_from([m for m, _ in spec[2]]))
    if k in ('prod', 'tup'):
        return [draw(values(s)) for _, s in fields(spec)]
    fs = fields(spec)
    i = draw(st.integers(0, len(fs) - 1))
    return [i, draw(values(fs[i][1]))]


def big_specs(**kw):
    return specs(**{**dict(max_depth=5, max_width=180, bits=12, big=True, top=COMPOSITE), **kw})


COMPOSITE = ('prod', 'tup', 'sum', 'tu')
