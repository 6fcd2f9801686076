"""The mapper's answer against an enumeration of all rules."""
from ..core import Sub, require
from ..hyp import st
from .. import maps, mapreg

PID = 'M02'
ASSUMPTIONS = ['data leaves that are enums have a member for every code', 'nested Const modifiers are not used',
               'architectures have a Const input, IR instructions no sums, as the mapper demands']


def run(case, ctx):
    prob, configs, inits = case
    P = maps.Problem(prob)
    try:
        M = maps.Mappers(P)
        for k, ir in enumerate(P.irs):
            rule, some = maps.exists(P.arch, ir)
            ctx.label('rule' if rule else 'bindings but no rule' if some else 'no binding')
            for c in configs:
                try:
                    rr = M.solve(ir, c, num_init=inits[k % len(inits)])
                except maps.NoAnswer:
                    ctx.label('solver gave up')
                    continue
                if rule is None:
                    require(rr is None, f'no rule for instruction {k} exists, found with {c}: {rr and rr.ibinding} {rr and rr.obinding}')
                else:
                    require(rr is not None, f'no rule for instruction {k} found with {c}, but there is {rule}')
                ctx.count()
            if some:
                ctx.nontrivial = True
    finally:
        P.close()


@st.composite
def gen(draw, prob=None, **kw):
    prob = draw(prob or maps.problems(n_irs=3, **kw))
    return [prob, maps.CONFIGS if draw(st.booleans()) else
            draw(st.lists(st.sampled_from(maps.CONFIGS), min_size=2, max_size=4, unique_by=str)),
            draw(st.lists(st.sampled_from([-1, 0, 2]), min_size=1, max_size=3))]


REG = [[p, maps.CONFIGS, [-1, 0, 1]] for p in mapreg.ALL.values()]
SUBS = [Sub('existence', gen, run, 'random architectures (dispatch on a Const operation, Const data, nested and sum inputs; 9 bits) '
            'x three IR instructions, mostly taken from their branches, some changed a little x formula style x strategy x '
            'index encoding; non-trivial: there is a binding of the inputs', quick=1800, quick_s=30,
            regressions=REG),
        Sub('sums', lambda: gen(many_sums=True), run, 'the same with two or three sums, the dispatch depends on the options; non-trivial: there is a binding of the inputs',
            quick=800, quick_s=20),
        Sub('inputs', lambda: gen(prob=maps.many_inputs()), run, 'architectures with three to five inputs of one or two types (7 bits) and instructions '
            'that use them in other places; non-trivial: there is a binding of the inputs', quick=600, quick_s=20)]
