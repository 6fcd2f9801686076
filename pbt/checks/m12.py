"""Rules between components with black boxes, under every interpretation of the black boxes."""
from ..core import Sub, require
from ..hyp import st
from .. import maps

PID = 'M12'
ASSUMPTIONS = ['simple formulas (black boxes need them)', 'data leaves that are enums have a member for every code',
               'black boxes have an input', 'at most 256 interpretations']
CONFIGS = [[1, el, iv] for el in (0, 1) for iv in ('OneHot', 'Binary')]


def run(case, ctx):
    prob, configs, recipes = case
    P = maps.Problem(prob)
    arch = P.arch
    contexts = range(P.contexts())
    try:
        M = maps.Mappers(P)
        right = []
        parts = prob['src'].split('@family_closure')
        boxed = [k for k, ir in enumerate(P.irs) if ir.c['fc'][0] == 'B'
                 or any(f"def {ir.c['fc']}(" in t and 'self.b' in t for t in parts)]
        for k, ir in enumerate(P.irs):
            rule, some = maps.exists(arch, ir, contexts=contexts)
            right.append(rule)
            ctx.label('rule' if rule else 'bindings but no rule' if some else 'no binding')
            for c in configs:
                try:
                    rr = M.solve(ir, c)
                except maps.NoAnswer:
                    ctx.label('solver gave up')
                    continue
                ctx.count()
                if rule is None:
                    require(rr is None, f'no rule for instruction {k} holds for all black boxes, found with {c}: '
                            f'{rr and rr.ibinding} {rr and rr.obinding}')
                    continue
                require(rr is not None, f'no rule for instruction {k} found with {c}, but there is {rule}')
                bad = maps.disagree(arch, ir, maps.read_rule(P, arch, ir, rr), contexts=contexts)
                require(bad is None, f'rule {rr.ibinding} {rr.obinding} for instruction {k} found with {c} is wrong for {bad} '
                        f'and some black boxes')
                if k in boxed:
                    ctx.nontrivial = True
                    ctx.label('rule with black boxes')
        for base, k, n, muts in recipes:
            k %= len(P.irs)
            ir = P.irs[k]
            rule = right[k] if base else None
            if rule is None:
                rule = maps.nth(maps.rules(arch, ir), n)
            if rule is None:
                continue
            for m in [None] + muts:
                if m:
                    rule = maps.mutate(P, arch, ir, rule, m)
                rr = maps.make_rule(P, arch, ir, rule)
                bad = maps.disagree(arch, ir, rule, contexts=contexts)
                try:
                    with maps.limited():
                        ce = rr.verify()
                except maps.NoAnswer:
                    ctx.label('solver gave up')
                    continue
                ctx.count()
                ctx.label('verified' if ce is None else 'refuted')
                if bad is None:
                    require(ce is None, f'counterexample {ce} to {rule} for instruction {k}, which holds for all black boxes')
                else:
                    require(ce is not None, f'no counterexample to {rule} for instruction {k}, which fails for {bad}')
    finally:
        P.close()


@st.composite
def gen(draw):
    prob = draw(maps.problems(n_irs=2, bb=True, max_bits=7, sums=False))
    n = st.integers(0, 999)
    mut = st.tuples(st.sampled_from(['const', 'bind', 'bind', 'swap', 'out', 'less']), n, n)
    return [prob, draw(st.lists(st.sampled_from(CONFIGS), min_size=1, max_size=3, unique_by=str)),
            draw(st.lists(st.tuples(st.integers(0, 2), n, n, st.lists(mut, max_size=2)), min_size=1, max_size=3))]


SUBS = [Sub('interpretations', gen, run, 'random architectures with one to three black boxes of one or two kinds (one or two inputs '
            'and outputs, inputs depending on the operation and on other black boxes, sometimes inside a sub component) x two '
            'IR instructions, mostly taken from their branches, sometimes a black box by itself x strategy x index encoding, '
            'then correct and arbitrary rules and changes to them; non-trivial: a rule for an instruction with black boxes was found and executed on all inputs '
            'under all interpretations', quick=1200, quick_s=45)]
