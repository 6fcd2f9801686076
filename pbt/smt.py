"""Evaluating the terms of symbolic values."""
import hwtypes as hw
import pysmt.shortcuts as sc
from pysmt.simplifier import Simplifier

from .core import Violation


def term(x):
    """pysmt term of an SMTBit, SMTBitVector or assembled value"""
    if hasattr(x, '_value_') and not hasattr(x, 'get_family'):
        x = x._value_
    return x.value


def const(var_term, i):
    t = var_term.get_type()
    return sc.Bool(bool(i)) if t.is_bool_type() else sc.BV(i, t.width)


def evaluate(t, env):
    """value (int) of a term under {variable term: int}; every free variable must be given"""
    r = t.substitute({k: const(k, v) for k, v in env.items()}) if env else t
    r = r.simplify()
    if not r.is_constant():
        raise Violation(f'not determined by its inputs: {t} under {env} is {r}')
    v = r.constant_value()
    return int(v)


def ev(x, env):
    return evaluate(term(x), env)
