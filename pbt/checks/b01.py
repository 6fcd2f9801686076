"""Discovery of black boxes in generated component trees."""
from ..core import Sub, require, raises
from ..hyp import st

import hwtypes as hw
from peak import Peak, family as fam, family_closure
from peak.black_box import BlackBox, get_black_boxes, get_black_box

PID = 'B01'
ASSUMPTIONS = ['component hierarchies are acyclic']
FAMS = {'Py': fam.PyFamily, 'SMT': fam.SMTFamily}


@family_closure
def BB_fc(family):
    @family.assemble(locals(), globals())
    class BB(Peak, BlackBox):
        def __call__(self, x: hw.Bit) -> hw.Bit:
            return x
    return BB


@family_closure
def Comp_fc(family):
    class Comp(Peak):
        def __call__(self, x: hw.Bit) -> hw.Bit:
            return x
    return Comp


@family_closure
def Leaf_fc(family):
    class Leaf(Peak):
        def __init__(self):
            self.own = BB_fc(family)()
            self.n = 3

        def __call__(self, x: hw.Bit) -> hw.Bit:
            return self.own(x)
    return Leaf


ATTRS = ['a', 'b', 'c', 'FPU', 'add', '_h', 'x1', 'mul']


class World:
    def __init__(self, fname):
        F = FAMS[fname]()
        self.make = {'bb': BB_fc(F), 'comp': Comp_fc(F), 'leaf': Leaf_fc(F), 'reg': F.gen_attr_register(F.Bit, 1),
                     'greg': F.gen_register(F.Bit, 1)}
        self.nodes = []          # (kind, object, attributes in order)

    def new(self, kind):
        o = self.make[kind]()
        attrs = {}
        if kind == 'leaf':
            attrs = {'own': ('bb', o.own, {}), 'n': None}
        self.nodes.append((kind, o, attrs))
        return self.nodes[-1]


def paths(node, path=()):
    kind, o, attrs = node
    if kind == 'bb':
        return [(path, o)]
    out = []
    for name, sub in attrs.items():
        if sub is not None and sub[0] != 'junk':
            out += paths(sub, path + (name,))
    return out


def height(node):
    return 1 + max([height(s) for s in node[2].values() if s is not None and s[0] != 'junk'], default=0)


def run(case, ctx):
    W = World(case['fam'])
    W.new('comp')
    for op in case['ops']:
        k, node = op[0], W.nodes[op[1] % len(W.nodes)]
        kind, o, attrs = node
        if k == 'set':
            name, what = op[2], op[3]
            if kind == 'reg' or name in attrs and attrs[name] is not None and attrs[name][0] == 'reg':
                continue    # registers have no parts, and assigning to one writes it
            if what == 'old':
                sub = W.nodes[op[4] % len(W.nodes)]
                if W.nodes.index(sub) <= W.nodes.index(node):
                    continue
                if sum(len(paths(n)) for n in W.nodes) > 200:
                    continue
            elif what == 'junk':
                sub = ('junk', [3, None, 'x', hw.Bit(1), [W.nodes[0][1]], {'a': node[1]}, type(W.nodes[0][1])][op[4] % 7], {})
            else:
                sub = W.new(what)
            setattr(o, name, sub[1])
            attrs[name] = sub
        elif k == 'del':
            name = op[2]
            if name in attrs:
                delattr(o, name)
                del attrs[name]
        elif k == 'spoil':
            # the result belongs to the caller
            get_black_boxes(o).clear()
        elif k == 'look':
            want = paths(node)
            got = get_black_boxes(o)
            require(isinstance(got, dict), 'result', got)
            require(set(got) == {p for p, _ in want}, f'black boxes at {sorted(got)}, not at {sorted(p for p, _ in want)}')
            for p, b in want:
                require(got[p] is b, f'another black box at {p}')
                require(get_black_box(o, p) is b, f'another black box looked up at {p}')
                ctx.count()
            if len(want) >= 2:
                ctx.nontrivial = True
            ctx.label(f'height {min(height(node), 4)}')
        elif k == 'path':
            p = tuple(op[2])
            cur, ok = node, True
            for f in p:
                sub = cur[2].get(f) if cur is not None else None
                if sub is None or sub[0] in ('junk', 'reg'):
                    ok = False
                    break
                cur = sub
            if ok:
                require(get_black_box(o, p) is cur[1], f'something else at {p}')
            else:
                raises(ValueError, get_black_box, o, p)
            ctx.count()
        elif k == 'bad':
            bad = [3, None, 'x', hw.Bit(1), type(o), object(), (o,), get_black_boxes][op[2] % 8]
            raises(ValueError, get_black_boxes, bad)
            ctx.count()


@st.composite
def gen(draw):
    ops = []
    n = st.integers(0, 12)
    shape = draw(st.integers(0, 7))
    if shape == 0:
        # a deep tree
        chain = draw(st.lists(st.sampled_from(ATTRS), min_size=1, max_size=11))
        ops += [['set', i, a, 'comp', 0] for i, a in enumerate(chain)] + [['set', len(chain), 'add', 'bb', 0]]
        ops += [['set', draw(st.integers(0, len(chain))), a, 'bb', 0] for a in draw(st.lists(st.sampled_from(ATTRS), max_size=2))]
        ops += [['look', 0], ['path', 0, chain + ['add']], ['path', 0, chain[:-1] + ['add']]]
    elif shape == 1:
        # a component of many parts
        ops += [['set', 0, a, draw(st.sampled_from(['bb', 'bb', 'leaf', 'reg'])), 0]
                for a in draw(st.lists(st.sampled_from(ATTRS + [f'u{j}' for j in range(10)]), max_size=18, unique=True))]
        ops += [['look', 0]]
    for _ in range(draw(st.integers(2, 25))):
        k = draw(st.sampled_from(['set'] * 5 + ['look'] * 2 + ['del', 'spoil', 'path', 'bad']))
        if k == 'set':
            ops.append([k, draw(n), draw(st.sampled_from(ATTRS)),
                        draw(st.sampled_from(['bb', 'bb', 'comp', 'comp', 'leaf', 'reg', 'greg', 'old', 'junk'])), draw(n)])
        elif k == 'del':
            ops.append([k, draw(n), draw(st.sampled_from(ATTRS))])
        elif k == 'path':
            ops.append([k, draw(n), draw(st.lists(st.sampled_from(ATTRS[:4] + ['own', 'n', 'nope']), min_size=1, max_size=3))])
        elif k == 'bad':
            ops.append([k, 0, draw(n)])
        else:
            ops.append([k, draw(n)])
    ops.append(['look', 0])
    return dict(fam=draw(st.sampled_from(sorted(FAMS))), ops=ops)


REG = [dict(fam='Py', ops=[['set', 0, 'a', 'bb', 0], ['look', 0], ['set', 0, 'a', 'bb', 0], ['look', 0], ['spoil', 0],
                           ['look', 0], ['set', 0, 'a', 'comp', 0], ['set', 3, 'b', 'bb', 0], ['look', 0],
                           ['path', 0, ['a', 'b']], ['del', 0, 'a'], ['look', 0], ['path', 0, ['a', 'b']]])]

SUBS = [Sub('trees', gen, run, 'component trees built and changed by up to 25 operations (nested and shared components, '
            'black boxes with parts, registers, other attributes), discovered at any point; non-trivial: >=2 black boxes '
            'in one map', quick=4000, quick_s=10, regressions=REG)]
