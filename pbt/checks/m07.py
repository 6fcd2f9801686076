"""Index variables and formula builders against truth tables."""
from ..core import Sub, require, raises
from ..hyp import st
from ..smt import ev, term

import hwtypes as hw
from hwtypes import SMTBit, SMTBitVector
from peak import family as fam
from peak.mapper.index_var import OneHot, Binary
from peak.mapper.formula_constructor import And, Or, Implies

PID = 'M07'
IVARS = {'OneHot': OneHot, 'Binary': Binary}


def run_index(case, ctx):
    kind, n, extra, named = case
    v = IVARS[kind](n, 'v', SMT=fam.SMTFamily()) if named else IVARS[kind](n, 'v')
    w = v.var.size
    key = term(v.var)
    require(len(term(v.var).get_free_variables()) == 1 and v.num_entries == n, 'variable')
    all_codes = w <= 9
    codes = list(range(1 << w)) if all_codes else sorted({x % (1 << w) for x in extra} | {0, 1, (1 << w) - 1, 1 << (w - 1)}
                                                         | {(1 << i) for i in range(w)} | {i for i in range(n)})
    match = [v.match_index(i) for i in range(n)]
    valid = v.is_valid()
    owner = {}
    for c in codes:
        on = [i for i in range(n) if ev(match[i], {key: c})]
        require(len(on) <= 1, f'code {c} of {n} in {kind} matches {on}')
        require(bool(ev(valid, {key: c})) == bool(on), f'{kind}({n}): code {c} matches {on}, but valid is {ev(valid, {key: c})}')
        if on:
            require(on[0] not in owner, f'{on[0]} has codes {owner.get(on[0])} and {c}')
            owner[on[0]] = c
            d = v.decode(c)
            require(d == on[0], f'{kind}({n}): code {c} decodes to {d}, matches {on[0]}')
        else:
            raises(ValueError, v.decode, c)
        ctx.count(3)
    require(set(owner) == set(range(n)), f'{kind}({n}): indices without code: {set(range(n)) - set(owner)}')
    for i in (-1, n, n + 1):
        raises(ValueError, v.match_index, i)
    raises(ValueError, v.decode, 1 << w)
    ctx.nontrivial = n > 1
    ctx.label(kind)


def index_cases(tier):
    top = 40 if tier == 'quick' else 140
    return [[k, n, [n * 7 + 3, 12345 * n], n % 2 == 0] for k in IVARS for n in range(1, top if k == 'Binary' else top // 2)]


@st.composite
def gen_index(draw):
    k = draw(st.sampled_from(sorted(IVARS)))
    n = draw(st.integers(1, 60 if k == 'Binary' else 24))
    return [k, n, draw(st.lists(st.integers(0, 1 << 24), max_size=10)), draw(st.booleans())]


# tree ::= int (leaf) | ["not", i] | ["and"|"or", [tree...]] | ["imp", tree, tree] | ["const", 0|1]

def build(t, leaves):
    if isinstance(t, int):
        return leaves[t]
    k = t[0]
    if k == 'not':
        return ~leaves[t[1]]
    if k == 'const':
        return SMTBit(t[1])
    if k == 'imp':
        return Implies(build(t[1], leaves), build(t[2], leaves))
    subs = [build(s, leaves) for s in t[1]]
    C = And if k == 'and' else Or
    return C(subs) if t[2] else C(s for s in subs)


def truth(t, env):
    if isinstance(t, int):
        return env[t]
    k = t[0]
    if k == 'not':
        return not env[t[1]]
    if k == 'const':
        return bool(t[1])
    if k == 'imp':
        return truth(t[2], env) or not truth(t[1], env)
    return (all if k == 'and' else any)([truth(s, env) for s in t[1]])


def run_formula(case, ctx):
    n, t = case
    leaves = [SMTBit(prefix=f'x{i}') for i in range(n)]
    f = build(t, leaves)
    require(isinstance(f.serialize(), str), 'text of', t)
    for _ in range(2):
        # (translating twice)
        h = f.to_hwtypes()
        require(isinstance(h, SMTBit), f'{t} translates to {h!r}')
        for a in range(1 << n):
            env = [bool(a >> i & 1) for i in range(n)]
            got = ev(h, {term(l): int(x) for l, x in zip(leaves, env)})
            require(bool(got) == truth(t, env), f'{t} under {env} is {got}')
            ctx.count()
    ctx.nontrivial = len(str(t)) > 20


@st.composite
def gen_formula(draw):
    n = draw(st.integers(1, 5))
    leaf = st.one_of(st.integers(0, n - 1), st.integers(0, n - 1).map(lambda i: ['not', i]),
                     st.integers(0, 1).map(lambda i: ['const', i]))

    def nodes(sub):
        return st.one_of(st.tuples(st.sampled_from(['and', 'or']), st.lists(sub, min_size=1, max_size=4), st.booleans()).map(list),
                         st.tuples(st.just('imp'), sub, sub).map(list))
    top = nodes(st.recursive(leaf, nodes, max_leaves=8))
    return [n, draw(top)]


SUBS = [
    Sub('index', gen_index, run_index, 'both encodings x numbers of entries x all codes (up to 9 bits, sampled beyond); '
        'non-trivial: two entries or more', quick=600, quick_s=10, exhaustive=index_cases),
    Sub('formulas', gen_formula, run_formula, 'And/Or/Implies trees over up to 5 variables x all assignments; non-trivial: two '
        'connectives or so', quick=3000, quick_s=8),
]
