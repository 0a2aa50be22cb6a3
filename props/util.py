"""Shorthands for specifications."""
import os
import z3
from dv.cast import Program, VERIF
from dv.verify import Verifier
from dv.core import *
from dv.std import callfn
from dv.ty import V, Ty, sel, sto, teq, tmap, leaves, lift, I, R, B

_progs = {}


def program(tu):
    if tu not in _progs:
        _progs[tu] = Program(os.path.join(VERIF, "inst", tu))
    return _progs[tu]


def verifier(tu):
    return Verifier(program(tu))


def And(*a):
    return z3.And(*a) if a else z3.BoolVal(True)


def Or(*a):
    return z3.Or(*a) if a else z3.BoolVal(False)


def Imp(a, b):
    return z3.Implies(a, b)


def Not(a):
    return z3.Not(a)


_cnt = [0]


def fresh_int(base="q"):
    _cnt[0] += 1
    return z3.Int("%s?%d" % (base, _cnt[0]))


def fresh_real(base="x"):
    _cnt[0] += 1
    return z3.Real("%s?%d" % (base, _cnt[0]))


def all_int(lo, hi, f, base="i"):
    """forall lo <= i < hi. f(i)"""
    i = fresh_int(base)
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), f(i)))


def ex_int(lo, hi, f, base="i"):
    i = fresh_int(base)
    return z3.Exists([i], z3.And(lo <= i, i < hi, f(i)))


def forall(n, f, patterns=None):
    xs = [fresh_int() for _ in range(n)]
    b = f(*xs)
    if patterns:
        ps = patterns(*xs)
        return z3.ForAll(xs, b, patterns=[z3.MultiPattern(*ps) if isinstance(ps, (list, tuple)) and len(ps) > 1 else (ps[0] if isinstance(ps, (list, tuple)) else ps)])
    return z3.ForAll(xs, b)


def between(lo, x, hi):
    return z3.And(lo <= x, x <= hi)


def at(vec, i):
    """Element i of a vector value (tree)."""
    return sel(vec.f["a"], i)


def loop_index(c):
    """the position of a range loop, or the index variable of the loop if it is written with one"""
    try:
        return c.var("__pos")
    except AttachError:
        pass
    for n, key in reversed(c.frame.order):
        v = c.st.store.get(key)
        if isinstance(v, It):
            return v.i
        if z3.is_expr(v) and v.sort() == I:
            return v
    raise AttachError("no loop index")
