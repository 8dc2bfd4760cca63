"""Common part of the drivers: case loop, time limits, exact number encoding."""
import json, os, signal, sys, traceback
from fractions import Fraction
try:
    import casadi as cs
    import numpy as np
except Exception as e:
    print("cannot import casadi/numpy: %r" % e)
    sys.exit(3)

class Hang(BaseException):
    pass

def _alarm(*a):
    raise Hang()

def num(x):
    """exact text of a number"""
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 2**53:
        return str(int(x))
    f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)

def val(s):
    """number from its exact text"""
    if isinstance(s, (int, float)):
        return float(s)
    if s in ("nan", "inf", "-inf"):
        return float(s)
    f = Fraction(s)
    return f.numerator / f.denominator

def main(run_case, limit=60):
    """run_case(case) -> (events, cost or None); one JSON line per case"""
    fi, fo = sys.argv[1:3]
    signal.signal(signal.SIGALRM, _alarm)
    cases = [json.loads(l) for l in open(fi)]
    with open(fo, "w") as out:
        for i, c in enumerate(cases):
            ev = []
            rec = dict(case=i, events=ev)
            signal.alarm(c.get("limit", limit))
            try:
                cost = run_case(c, ev)
                if cost:
                    rec["cost"] = cost
            except Hang:
                rec["hang"] = ["a call did not return in %d s" % c.get("limit", limit)]
            finally:
                signal.alarm(0)
            out.write(json.dumps(rec) + "\n")
            out.flush()
    # leave without running destructors of native objects
    os._exit(0)
