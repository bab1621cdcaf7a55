"""Evaluation of term guards and results at points of a grid: decides which path of a summary applies at a point."""
from .ev import *


class Unknown(Exception): pass


OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b,
       "Ge": lambda a, b: a >= b, "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
       "AddUnchecked": lambda a, b: a + b, "SubUnchecked": lambda a, b: a - b, "MulUnchecked": lambda a, b: a * b, "Shl": lambda a, b: a << b, "Shr": lambda a, b: a >> b}


def val(t, env):
    if t in env: return env[t]
    if t.op == "int": return t.a[0]
    if t is TRUE: return True
    if t is FALSE: return False
    if t.op == "not": return not val(t.a[0], env)
    if t.op in OPS: return OPS[t.op](val(t.a[0], env), val(t.a[1], env))
    if t.op in ("Div", "Rem"):
        a, b = val(t.a[0], env), val(t.a[1], env)
        if b == 0: raise Unknown("division by zero")
        return a // b if t.op == "Div" else a % b
    if t.op == "cast": return val(t.a[0], env)
    raise Unknown(t.op)


def applies(p, env):
    """does the path apply at the point (all its boolean decisions hold); Unknown when one cannot be evaluated"""
    for c in p.conds:
        if c[0] == "bool":
            if bool(val(c[1], env)) != c[2]: return False
    return True
