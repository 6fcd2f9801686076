"""Path constraints."""
from ..core import Sub, require, raises
from ..hyp import st
from .. import gens as g, maps, mapreg

PID = 'M04'
ASSUMPTIONS = ['data leaves that are enums have a member for every code', 'nested Const modifiers are not used',
               'architectures have a Const input, IR instructions no sums, as the mapper demands']


def all_leaves(arch):
    out = {}
    for _, l in arch.forms:
        out.update(l)
    return out


def inner(arch):
    """paths that are no leaves"""
    out = []
    for p in all_leaves(arch):
        for k in range(len(p)):
            if p[:k] not in out:
                out.append(p[:k])
    return out


def resolve(P, picks):
    """[[path number, code numbers, style]...] -> {path: codes}, constraints as given to the mapper"""
    leaves = all_leaves(P.arch)
    ps = list(leaves)
    allowed, given = {}, {}
    for n, vals, style in picks:
        p = ps[n % len(ps)]
        if p in allowed:
            continue
        d = list(maps.dom(leaves[p]))
        codes = []
        for v in vals:
            if d[v % len(d)] not in codes:
                codes.append(d[v % len(d)])
        vs = [maps.leaf_value(P.types, leaves[p], c) for c in codes]
        if leaves[p][0] not in ('enum',) and style == 1:
            # plain numbers
            vs = [bool(c) if leaves[p][0] == 'bit' else c for c in codes]
        allowed[p] = codes
        given[p] = vs[0] if len(vs) == 1 and style != 2 else tuple(vs)
    return allowed, given


def run(case, ctx):
    prob, picks, configs, bad, inits = case
    P = maps.Problem(prob)
    arch = P.arch
    try:
        allowed, given = resolve(P, picks)
        M = maps.Mappers(P, given)
        if bad is not None:
            from peak.mapper import ArchMapper
            ps = inner(arch)
            p = ps[bad % len(ps)]
            extra = p if bad % 2 else next(iter(all_leaves(arch))) + ('nothere',)
            raises(ValueError, ArchMapper, arch.fc, path_constraints={**given, extra: 0})
            ctx.count()
        for k, ir in enumerate(P.irs):
            rule, some = maps.exists(arch, ir, allowed)
            ctx.label('rule' if rule else 'bindings but no rule' if some else 'no binding')
            for c in configs:
                try:
                    rr = M.solve(ir, c, num_init=inits[k % len(inits)])
                except maps.NoAnswer:
                    ctx.label('solver gave up')
                    continue
                ctx.count()
                if rule is None:
                    require(rr is None, f'no rule for instruction {k} under {allowed} exists, found with {c}: {rr and rr.ibinding}')
                    continue
                require(rr is not None, f'no rule for instruction {k} under {allowed} found with {c}, but there is {rule}')
                got = maps.read_rule(P, arch, ir, rr)
                for p, x in got[1].items():
                    if p in allowed:
                        require(x in allowed[p], f'{p} is {x} in the rule for instruction {k} found with {c}, allowed: {allowed}')
                wrong = maps.disagree(arch, ir, got)
                require(wrong is None, f'rule {rr.ibinding} {rr.obinding} for instruction {k} found with {c} is wrong for {wrong}')
                here = [p for p in got[1] if p in allowed]
                if here:
                    ctx.label('constrained ' + ('const' if any(arch.const[p] for p in here) else 'free'))
            if some and allowed:
                ctx.nontrivial = True
    finally:
        P.close()


@st.composite
def gen(draw):
    prob = draw(maps.problems(n_irs=2))
    n = st.integers(0, 99)
    picks = draw(st.lists(st.tuples(n, st.lists(n, min_size=1, max_size=3), st.integers(0, 2)), min_size=1, max_size=2))
    return [prob, picks, maps.CONFIGS if draw(st.booleans()) else
            draw(st.lists(st.sampled_from(maps.CONFIGS), min_size=2, max_size=4, unique_by=str)),
            draw(st.one_of(st.none(), n)), draw(st.lists(st.sampled_from([-1, 0, 2]), min_size=1, max_size=2))]


REG = [[p, picks, maps.CONFIGS, 1, [-1, 0]] for p in mapreg.ALL.values()
       for picks in ([[0, [1], 0]], [[0, [0, 1], 0]], [[1, [1, 2], 1]], [[2, [0], 2]], [[2, [1, 3], 0]], [[3, [1], 0]], [[4, [0], 0]])]
SUBS = [Sub('constraints', gen, run, 'random architectures (dispatch on a Const operation, Const data, nested and sum inputs; '
            '9 bits) x two IR instructions x one or two constrained leaves (Const or not, of any kind, one to three values, '
            'single or in a tuple, as values or numbers) x formula style x strategy x index encoding, sometimes also '
            'with a constraint on a path that is no leaf; non-trivial: there is a binding that respects the constraints',
            quick=1500, quick_s=40, regressions=REG)]
