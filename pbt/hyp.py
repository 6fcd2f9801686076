"""Gives access to hypothesis, which is installed next to, not in, peak's environment."""
import sys

_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import hypothesis
except ImportError:
    sys.path.append(_SITE)
    try:
        import hypothesis
        import hypothesis.strategies
        import hypothesis.internal.conjecture.engine
        import hypothesis.internal.conjecture.shrinker
        # force what hypothesis imports lazily
        from hypothesis import given, settings as _s, strategies as _st

        @_s(max_examples=5, database=None, deadline=None)
        @given(_st.lists(_st.integers()), _st.text(), _st.booleans())
        def _warm(a, b, c):
            pass
        _warm()
    finally:
        sys.path.remove(_SITE)

from hypothesis import given, settings, seed, HealthCheck, Phase, assume
import hypothesis.errors as errors
import hypothesis.strategies as st
