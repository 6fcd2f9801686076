"""What verification says about a rule, against executing the rule on all inputs."""
from ..core import Sub, require
from ..hyp import st
from .. import maps, mapreg

PID = 'M03'
ASSUMPTIONS = ['data leaves that are enums have a member for every code']


def run(case, ctx):
    prob, recipes = case
    P = maps.Problem(prob)
    arch = P.arch
    try:
        for k, (base, n, muts) in enumerate(recipes):
            ir = P.irs[k % len(P.irs)]
            rule = None
            if base == 'right':
                rule, _ = maps.exists(arch, ir)
            if rule is None:
                rule = maps.nth(maps.rules(arch, ir), n)
            if rule is None:
                ctx.label('no binding')
                continue
            for m in [None] + muts:
                if m:
                    rule = maps.mutate(P, arch, ir, rule, m)
                rr = maps.make_rule(P, arch, ir, rule)
                bad = maps.disagree(arch, ir, rule)
                try:
                    with maps.limited():
                        ce = rr.verify()
                except maps.NoAnswer:
                    ctx.label('solver gave up')
                    continue
                ctx.count()
                if bad is None:
                    ctx.label('right')
                    require(ce is None, f'counterexample {ce} to the correct rule {rule} for instruction {k % len(P.irs)}')
                    ctx.nontrivial = True
                    continue
                ctx.label('wrong')
                require(ce is not None, f'no counterexample to {rule} for instruction {k % len(P.irs)}, which fails for {bad}')
                ice, ace = ce
                form, b, ob = rule
                il, free = ir.forms[0][1], maps.free_leaves(arch, rule)
                require(set(ice) == set(il) and set(ace) == set(free),
                        f'counterexample {ce} does not name the inputs {set(il)} {set(free)}')
                ic = {p: int(x) for p, x in ice.items()}
                fc = {p: int(x) for p, x in ace.items()}
                codes = {p: fc[p] if x is None else ic[x] if isinstance(x, tuple) else x for p, x in b.items()}
                want, got = ir.run(0, ic), arch.run(form, codes)
                require(any(want[o] != got[a] for o, a in ob.items()),
                        f'counterexample {ce} is none: both give {want} for {rule}')
                ctx.nontrivial = True
    finally:
        P.close()


@st.composite
def gen(draw):
    prob = draw(maps.problems(n_irs=2))
    n = st.integers(0, 999)
    mut = st.tuples(st.sampled_from(['const', 'bind', 'bind', 'swap', 'out', 'less']), n, n)
    return [prob, draw(st.lists(st.tuples(st.sampled_from(['right', 'right', 'any']), n, st.lists(mut, max_size=4)),
                                min_size=1, max_size=4))]


REG = [[p, [[b, n, [['bind', 1, 1], ['out', 0, 1], ['const', 0, 1], ['swap', 0, 0]]] for n in range(4) for b in ('right', 'any')]]
       for p in mapreg.ALL.values()]
SUBS = [Sub('verdict', gen, run, 'random architectures (dispatch on a Const operation, Const data, nested and sum inputs; 9 bits) '
            'x two IR instructions x correct or arbitrary rules followed by up to four changes (constants, wiring, free '
            'inputs, inputs used twice, outputs); non-trivial: a verdict was compared', quick=1500, quick_s=40,
            regressions=REG)]
