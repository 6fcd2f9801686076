"""Every rule the mapper finds, executed on every input."""
from ..core import Sub, require
from ..hyp import st
from .. import maps, mapreg

PID = 'M01'
ASSUMPTIONS = ['data leaves that are enums have a member for every code', 'nested Const modifiers are not used',
               'architectures have a Const input, IR instructions no sums, as the mapper demands']


def run(case, ctx):
    prob, configs, inits = case
    P = maps.Problem(prob)
    try:
        M = maps.Mappers(P)
        for k, ir in enumerate(P.irs):
            for c in configs:
                try:
                    rr = M.solve(ir, c, num_init=inits[k % len(inits)])
                except maps.NoAnswer:
                    ctx.label('solver gave up')
                    continue
                if rr is None:
                    ctx.label('none')
                    continue
                rule = maps.read_rule(P, P.arch, ir, rr)
                bad = maps.disagree(P.arch, ir, rule)
                require(bad is None, f'rule {rr.ibinding} {rr.obinding} for instruction {k} found with {c} is wrong for {bad}')
                ctx.count()
                ctx.label('rule ' + ' '.join(map(str, c)))
                if len(P.arch.forms) > 1:
                    ctx.label('many forms')
                if any(x is None for x in rule[1].values()):
                    ctx.label('free inputs')
                if set(rule[1]) and any(isinstance(x, tuple) for x in rule[1].values()):
                    ctx.nontrivial = True
    finally:
        P.close()


@st.composite
def gen(draw, prob=None, **kw):
    prob = draw(prob or maps.problems(n_irs=3, **kw))
    return [prob, maps.CONFIGS if draw(st.booleans()) else
            draw(st.lists(st.sampled_from(maps.CONFIGS), min_size=2, max_size=4, unique_by=str)),
            draw(st.lists(st.sampled_from([-1, 0, 2]), min_size=1, max_size=3))]


REG = [[p, maps.CONFIGS, [-1, 0, 1]] for p in mapreg.ALL.values()]
SUBS = [Sub('rules', gen, run, 'random architectures (dispatch on a Const operation, Const data, nested and sum inputs; 9 bits) '
            'x three IR instructions, mostly taken from their branches x formula style x strategy x index encoding; '
            'non-trivial: some rule was found and executed on all inputs', quick=1800, quick_s=30,
            regressions=REG),
        Sub('sums', lambda: gen(many_sums=True), run, 'the same with two or three sums, the dispatch depends on the options; non-trivial: some rule was found and executed on all inputs',
            quick=800, quick_s=20),
        Sub('inputs', lambda: gen(prob=maps.many_inputs()), run, 'architectures with three to five inputs of one or two types (7 bits) and instructions '
            'that use them in other places; non-trivial: some rule was found and executed on all inputs', quick=600, quick_s=20)]
