#!/opt/veriftools/pyvenv/bin/python3
"""limit_oracle.py EVENTS OUT: offline checker of recorded limits.
Every event is one limit the library reported, with expression, point and class. The expression is evaluated on
both sides of the point, very close to it, with two working precisions; only values on which both agree count."""
import json, random, sys
from fractions import Fraction
import mpmath
from mpmath import mp, mpf


class Undefined(Exception):
    pass


def evaluate(e, env):
    k = e[0]
    if k == "v":
        return env[e[1]]
    if k == "i":
        return mpf(int(e[1]))
    if k == "f":
        return mpf(int(e[1])) / mpf(int(e[2]))
    if k == "r":
        return mpf(float(e[1]))
    if k == "pi":
        return +mp.pi
    if k == "e":
        return +mp.e
    a = evaluate(e[1], env)
    if k == "neg":
        return -a
    if k in ("sin", "cos"):
        if abs(a) > mpf(10) ** 150:
            raise OverflowError
        return mpmath.sin(a) if k == "sin" else mpmath.cos(a)
    if k == "exp":
        if a > mpf(10) ** 90:
            raise OverflowError
        return mpmath.exp(a) if a > -mpf(10) ** 90 else mpf(0)
    if k == "ln":
        if a <= 0:
            raise Undefined
        return mpmath.ln(a)
    b = evaluate(e[2], env)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":
        if b == 0:
            raise Undefined
        return a / b
    if k == "^":
        if a == 0 and b <= 0:
            raise Undefined
        if abs(b) > mpf(10) ** 90:
            raise OverflowError
        n = int(b) if abs(b) < 1000 and b == int(b) else None
        if n is not None:
            return a ** n
        if a <= 0:
            raise Undefined
        return mpmath.power(a, b)
    raise ValueError(k)


DIGITS = (260, 380)


def value(e, env):
    """The value if two precisions agree on it; env maps names to exact fractions."""
    got = []
    for d in DIGITS:
        mp.dps = d
        got.append(evaluate(e, {n: mpf(q.numerator) / mpf(q.denominator) for n, q in env.items()}))
    a, b = got
    if max(abs(a), abs(b)) < mpf(10) ** -100:
        return mpf(0)
    if abs(a - b) > mpf(10) ** -15 * max(abs(a), abs(b)):
        return None
    return b


def exact(e):
    if e[0] == "i":
        return Fraction(int(e[1]))
    if e[0] == "f":
        return Fraction(int(e[1]), int(e[2]))
    raise ValueError("points are exact")


def check(ev):
    """(verdict, message): held, violated, undefined or unclear"""
    rnd = random.Random(ev["seed"])
    at = exact(ev["at"])
    env = {n: Fraction(a, b) for n, (a, b) in ev["env"].items()}
    c = ev["class"]
    want = None

    def at_distance(d):
        """The value near the point, None if it is not known."""
        env[ev["var"]] = at + d
        return value(ev["expr"], env)

    def off(f):
        return abs(f - want) if c == "value" else abs(f)

    try:
        undefined = False
        if c == "value":
            try:
                want = value(ev["value"], env)
                if want is None:
                    return "unclear", ""
            except (Undefined, ZeroDivisionError):
                undefined = True
        seen = open_ = 0
        for k in range(4):
            d = Fraction(rnd.randrange(10 ** 11, 10 ** 12), 10 ** 36) * (1 if k % 2 else -1)
            try:
                f = at_distance(d)
            except (Undefined, ZeroDivisionError):
                continue
            if f is None:
                continue
            if undefined:
                return "violated", "the reported value is undefined"
            seen += 1
            if c == "value":
                ok = off(f) <= mpf(10) ** -9 * max(1, abs(want))
            elif c == "zero":
                ok = off(f) <= mpf(10) ** -9
            elif c == "infinity":
                ok = off(f) >= mpf(10) ** 9
            else:
                ok = off(f) <= mpf(10) ** 9
            if not ok and c == "bounded":
                # large is not unbounded: does it grow?
                def most(distances):
                    top = 0
                    for q in distances:
                        try:
                            g = at_distance(q)
                        except (Undefined, ZeroDivisionError, OverflowError):
                            g = None
                        if g is not None:
                            top = max(top, off(g))
                    return top

                steps = [Fraction(10 + j, 10) for j in range(1, 4)]
                here = max(off(f), most(d * q for q in steps))
                if most([d * q / 10 ** 8 for q in steps] + [d ** 3 * q for q in steps]) < mpf(10) ** 6 * here:
                    open_ += 1
                    continue
            elif not ok:
                # logarithms and roots take their time: is it on the way?
                try:
                    g = at_distance(d ** 3)
                except (Undefined, ZeroDivisionError):
                    g = None
                if g is None or (off(g) > mpf(1.01) * off(f) if c == "infinity" else off(g) < mpf(0.99) * off(f)):
                    open_ += 1
                    continue
            if not ok:
                return "violated", "at distance %s from the point it is %s%s" % (mpmath.nstr(mpf(d.numerator) / d.denominator, 5), mpmath.nstr(f, 12), ", not near %s" % mpmath.nstr(want, 12) if want is not None else "")
        if open_:
            return "unclear", ""
        return ("held", "") if seen else ("undefined", "")
    except OverflowError:
        return "unclear", ""


def main():
    events = json.load(open(sys.argv[1], encoding="utf-8"))
    out = {"held": {}, "undefined": 0, "unclear": 0, "violations": []}
    for ev in events:
        verdict, msg = check(ev)
        if verdict == "held":
            out["held"][ev["class"]] = out["held"].get(ev["class"], 0) + 1
        elif verdict == "violated":
            if len(out["violations"]) < 8:
                out["violations"].append({"index": ev["index"], "message": "%s: %s" % (ev["text"], msg)})
        else:
            out[verdict] += 1
    json.dump(out, open(sys.argv[2], "w", encoding="utf-8"))


main()
