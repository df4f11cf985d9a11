"""Readable signatures of value terms, and a polynomial normal form so that algebraic rewriting does not matter."""
import ast
import math
import re
from fractions import Fraction
from flow import is_c

PARAMS = None      # when set: positions of the parameters of the analysed function; other locals are anonymous


def matches(want, got):
    """got is want, where parts of got the analysis could not resolve ('?') stand for anything"""
    if got == want:
        return True
    if "?" not in got:
        return False
    return re.fullmatch(".*".join(re.escape(x) for x in got.split("?")), want) is not None


def last(q):
    q = re.sub(r"<.*>", "", q)
    return q.rsplit("::", 1)[-1]


def sig(v):
    """path of the storage a value was read from; derefs are invisible ('->' and '.' look alike)"""
    k = v[0]
    if k == "init":
        return path(v[1])
    if k == ".":
        return sig(v[1]) + "." + v[2]
    if k == "el":
        return sig(v[1]) + "[" + poly_str(v[2]) + "]"
    if k == "mn":
        return v[1] + "(" + ",".join(poly_str(x) for x in v[3]) + ")"
    if k == "call":
        n = last(v[1])
        a = [poly_str(x) for x in v[2]]
        r = ""
        if len(v) > 5:
            r = path(v[5]) + "."
        elif a and a[0].endswith("." + n + "()"):
            r = a[0][:-len(n) - 2]
            a = a[1:]
        return r + n + "(" + ",".join(a) + ")"
    if k == "c":
        return repr(v[1])
    if k == "u":
        return sig(v[1])
    if k == "&":
        return path(v[1])
    if k == "obj":
        return last(v[1]) + "{}"
    if k == "new":
        return "new"
    if k == "op":
        if v[1] in ("c_str", "trunc") or v[1].startswith("dyn:"):
            return sig(v[2])
        return v[1] + "(" + ",".join(poly_str(x) for x in v[2:] if isinstance(x, tuple)) + ")"
    return "?"


def path(l):
    k = l[0]
    if k == "f":
        return path(l[1]) + "." + l[2]
    if k == "i":
        return path(l[1]) + "[" + poly_str(l[2]) + "]"
    if k in ("d", "t"):
        return sig(l[1])
    if k == "g":
        return l[1]
    if k == "v":
        if len(l) <= 3:
            return "this"
        if PARAMS is None:
            return str(l[3])
        return "$%d" % PARAMS[l[2]] if l[1] == 0 and l[2] in PARAMS else "?"
    return "?"


# ---- polynomials: {((atom, exponent), ...): coefficient} --------------------------------------------------------------
def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, float)):
        try:
            return Fraction(x).limit_denominator(10 ** 12)
        except (ValueError, OverflowError):
            return None
    return None


def add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = {}
            for at, e in m1 + m2:
                d[at] = d.get(at, 0) + e
            m = tuple(sorted((at, e) for at, e in d.items() if e))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def const(p):
    if not p:
        return Fraction(0)
    if set(p) == {()}:
        return p[()]
    return None


def atom(s):
    return {((s, 1),): Fraction(1)}


def inv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    return {(("(" + pstr(p) + ")", -1),): Fraction(1)}


def lead_neg(p):
    if not p:
        return False
    m = sorted(p, key=repr)[0]
    return p[m] < 0


FUN1 = {"fabs": "abs", "std::abs": "abs", "abs": "abs", "std::fabs": "abs"}


def func(name, args):
    name = last(name)
    name = {"fabs": "abs"}.get(name, name)
    if name in ("sin", "cos") and len(args) == 1:
        k = args[0].get(())
        if k is not None:       # shift by a multiple of a quarter turn
            q = round(float(k) / (math.pi / 2))
            if q and abs(float(k) - q * math.pi / 2) < 1e-9:
                a = {m: c for m, c in args[0].items() if m != ()}
                f = ("sin", "cos")[(("sin", "cos").index(name) + q) % 2]
                sg = (1, 1, -1, -1)[q % 4] if name == "sin" else (1, -1, -1, 1)[q % 4]
                r = func(f, [a])
                return r if sg == 1 else {m: -c for m, c in r.items()}
            if not q and abs(float(k)) < 1e-12:
                args = [{m: c for m, c in args[0].items() if m != ()}]
        if not args[0]:
            return {} if name == "sin" else {(): Fraction(1)}
    if name in ("sin", "tan", "asin", "atan") and len(args) == 1 and lead_neg(args[0]):
        n = {m: -c for m, c in args[0].items()}
        return {(("%s(%s)" % (name, pstr(n)), 1),): Fraction(-1)}
    if name in ("cos", "abs") and len(args) == 1 and lead_neg(args[0]):
        args = [{m: -c for m, c in args[0].items()}]
    if name == "pow" and len(args) == 2 and const(args[1]) in (2, 3, 4):
        r = args[0]
        for _ in range(int(const(args[1])) - 1):
            r = mul(r, args[0])
        return r
    cs = [Fraction(0) if not a else const(a) for a in args]
    if all(c is not None for c in cs):
        try:
            if name in ("max", "min", "abs"):
                c = {"max": max, "min": min, "abs": abs}[name](*cs)
            elif name in ("sqrt", "pow", "atan2", "hypot", "sin", "cos", "tan", "atan"):
                c = Fraction(getattr(math, name)(*map(float, cs)))
            else:
                c = None
            if c is not None:
                return {(): c} if c else {}
        except (ValueError, OverflowError, TypeError):
            pass
    if name in ("max", "min"):
        args = sorted(args, key=pstr)
    return atom("%s(%s)" % (name, ",".join(pstr(a) for a in args)))


def poly(v, ren=None):
    """normal form of a value term; ren maps atom signatures to names"""
    k = v[0]
    if k == "c":
        n = num(v[1])
        if n is None:
            return atom(repr(v[1]))
        return {(): n} if n else {}
    if k == "u":
        return poly(v[1], ren)
    if k == "op":
        o = v[1]
        if o == "trunc":
            return poly(v[2], ren)
        if o in ("+", "-") and len(v) == 4:
            return add(poly(v[2], ren), poly(v[3], ren), 1 if o == "+" else -1)
        if o == "-" and len(v) == 3:
            return add({}, poly(v[2], ren), -1)
        if o == "*" and len(v) == 4:
            return mul(poly(v[2], ren), poly(v[3], ren))
        if o == "/" and len(v) == 4:
            d = poly(v[3], ren)
            if d:
                return mul(poly(v[2], ren), inv(d))
        if o in ("<", ">", "<=", ">=", "==", "!=") and len(v) == 4:
            a, b = poly(v[2], ren), poly(v[3], ren)
            if o in (">", ">="):
                a, b, o = b, a, {">": "<", ">=": "<="}[o]
            return atom("(%s%s%s)" % (pstr(a), o, pstr(b)))
    if k == "call" and (v[1] in ("sin", "cos", "tan", "pow", "sqrt", "atan", "acos", "asin", "atan2", "hypot", "fmod", "round", "floor", "ceil", "isnan") or last(v[1]) in
                        ("sin", "cos", "tan", "atan", "fabs", "abs", "max", "min", "sqrt", "pow", "atan2", "hypot")):
        return func(v[1], [poly(x, ren) for x in v[2]])
    s = sig(v)
    if ren:
        s = ren(s)
    return atom(s)


def pstr(p):
    if not p:
        return "0"
    out = []
    for m in sorted(p, key=repr):
        c = p[m]
        t = "*".join(a if e == 1 else "%s^%s" % (a, e) for a, e in m)
        if not t:
            t = str(c)
        elif c == -1:
            t = "-" + t
        elif c != 1:
            t = str(c) + "*" + t
        out.append(t)
    return " + ".join(out)


def poly_str(v):
    return pstr(poly(v))


# ---- expected formulas -----------------------------------------------------------------------------------------------
def expect(text, sub=None):
    """polynomial of a formula written in Python syntax; `name`, `a.b`, `a.b[0]` and f(...) are atoms; sub maps an atom
    to the polynomial it stands for"""
    def go(n):
        if isinstance(n, ast.BinOp):
            a, b = go(n.left), go(n.right)
            if isinstance(n.op, ast.Add):
                return add(a, b)
            if isinstance(n.op, ast.Sub):
                return add(a, b, -1)
            if isinstance(n.op, ast.Mult):
                return mul(a, b)
            if isinstance(n.op, ast.Div):
                return mul(a, inv(b))
            if isinstance(n.op, ast.Pow):
                return func("pow", [a, b])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return add({}, go(n.operand), -1)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, str):
                return atom(repr(n.value))
            x = num(n.value)
            return {(): x} if x else {}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sin", "cos", "tan", "atan", "abs", "max", "min", "sqrt", "pow", "atan2", "hypot"):
            return func(n.func.id, [go(a) for a in n.args])
        if sub is not None:
            if isinstance(n, ast.Call):
                return atom("%s(%s)" % (ast.unparse(n.func), ",".join(pstr(go(a)) for a in n.args)))
            r = sub(ast.unparse(n))
            if r is not None:
                return r
        return atom(ast.unparse(n).replace(" ", "").replace("'", ""))
    return go(ast.parse(text, mode="eval").body)
