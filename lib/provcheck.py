"""Comparison of the mined origin of every member with the table that was reviewed against the format."""
import json
import os
import re

from prov import has, show, nolabel, resolve

MATH = {"abs", "fabs", "max", "min", "round", "floor", "ceil", "sqrt", "cos", "sin", "tan", "pow", "fmod", "GetAngleInInterval2PI", "has", "isnan", "nan", "empty", "length", "size"}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def attrs(t, res=None):
    res = set() if res is None else res
    if t[0] == "attr":
        res.add("%s@%s" % (t[1], t[2]))
    elif t[0] == "text":
        res.add("%s.text" % t[1])
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                attrs(x, res)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        attrs(y, res)
    return res


def simple(t):
    k = t[0]
    if k in ("lit", "enum", "attr", "text"):
        return True
    if k == "op":
        return t[1] != "[]" and len(t) <= 4 and all(simple(x) for x in t[2:])
    if k == "call":
        return t[1] in MATH and all(simple(x) for x in t[2])
    return False


def value(t):
    """canonical text of a value; None: not known"""
    if t[0] == "?" or has(t, ("?", "par")):
        a = attrs(t)
        return None
    if simple(t):
        return show(t)
    a = attrs(t)
    if a:
        return "fn{%s}" % ", ".join(sorted(a))
    if t[0] == "fld" and t[1].startswith("new "):
        return None
    return None


ZERO = ("0", "''", "null", "-0", "nan('')", "4294967295")


def atoms(rows):
    """({canonical alternative: locations}, unknown alternatives present?)"""
    res = {}
    unknown = False
    for (g, t), locs in rows.items():
        v = value(t)
        if v is None:
            unknown = unknown or t[0] == "?" or has(t, ("?", "par", "attr", "text")) or bool(g)
            continue
        const = t[0] in ("lit", "enum")
        alts = [""]
        if const:
            per = {}
            for term, lits in g:
                if not re.match(r"@\w+$|\.text$", term):
                    per = None
                    break
                ls = set(lits.split("|"))
                per[term] = per[term] & ls if term in per else ls
            if per is None:
                continue
            for term in sorted(per):
                if len(per[term]) > 6:
                    continue
                alts = [(a + " & " if a else "") + "%s=%s" % (term, x) for a in alts for x in sorted(per[term])]
        for a in alts:
            if not a and v in ZERO:
                continue
            res.setdefault(("[%s] %s" % (a, v)) if a else v, []).extend(locs)
    return res, unknown


LAB = re.compile(r"([\w|*]*)(@[\w:]+|\.text)")


def labels(s):
    return [m.group(1) for m in LAB.finditer(s)]


def bare(s):
    return LAB.sub(lambda m: m.group(2), s)


def compat(a, b):
    """the same attribute, of an element that may be the same"""
    x, y = set(a.split("|")), set(b.split("|"))
    return a == "" or b == "" or "*" in x or "*" in y or bool(x & y)


def same(e, f):
    if e == f:
        return True
    if bare(e) != bare(f):
        return False
    return all(compat(x, y) for x, y in zip(labels(e), labels(f)))


def split(a):
    """(conditions, value)"""
    if a.startswith("["):
        g, v = a[1:].split("] ", 1)
        return frozenset(g.split(" & ")), v
    return frozenset(), a


def within(x, want):
    """a found alternative is one of the expected ones, possibly chosen under more or fewer conditions"""
    if any(same(e, x) for e in want):
        return True
    g, v = split(x)
    if not g:
        return False
    for e in want:
        h, w = split(e)
        if same(w, v) and (h <= g or g <= h and g):
            return True
    return False


def present(e, found):
    """an expected alternative is still there"""
    if any(same(e, x) for x in found):
        return True
    g, v = split(e)
    if not g:
        return False
    other = False
    for x in found:
        h, w = split(x)
        if same(w, v) and h and (h <= g or g <= h):
            return True
        if h and not same(w, v) and h == g:
            other = True
    free = [x for x in found if not split(x)[0] and "@" not in x]
    return not other and len(free) == 1 and same(free[0], v)


def mine(pv):
    res = {}
    table = {}
    for key, rows in pv.sinks().items():
        for (g, t), locs in rows.items():
            if t[0] == "call" and t[1] == "" and not key.endswith("]"):
                for i, x in enumerate(t[2]):
                    table.setdefault("%s.%d" % (key, i), {}).setdefault((g, x), []).extend(locs)
            else:
                table.setdefault(key, {}).setdefault((g, t), []).extend(locs)
    for key, rows in pv.tuples().items():
        res[key] = (rows, False)
    for key, rows in table.items():
        a, unk = atoms(rows)
        if any("@" in x or ".text" in x for x in a):
            res[key] = (a, unk)
        elif unk:
            res.setdefault("?", (set(), True))[0].add(key)
    return res


def load(name):
    with open(os.path.join(HERE, "spec", name)) as f:
        return json.load(f)


def save(name, got, created, skip=()):
    d = {"members": {k: sorted(a) for k, (a, u) in sorted(got.items()) if k != "?" and not any(re.search(s, k) for s in skip)},
         "objects": {k: sorted(v) for k, v in sorted(created.items())}}
    with open(os.path.join(HERE, "spec", name), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    return d


def compare(ctx, spec, got, created, what):
    exp = spec["members"]
    got = dict(got)
    unknown = got.pop("?", (set(), True))[0]
    new = {k: v for k, v in got.items() if k not in exp}
    for key in sorted(exp):
        want = exp[key]
        if key not in got:
            # the same origins under another name
            for k, (a, u) in new.items():
                if len(a) == len(want) and all(any(same(e, x) for x in a) for e in want):
                    ctx.check(True, "%s (now %s)" % (key, k), "", "")
                    break
            else:
                if key in unknown:
                    ctx.count("members of unknown origin")
                    continue
                ctx.check(False, "%s: lost" % key, what, "%s no longer receives %s" % (key, "; ".join(want)))
            continue
        a, unk = got[key]
        # a keyword looked up in a way that is not resolved: not judged
        keys = {m.group(0)[1:] for e in want for c in split(e)[0] for m in re.finditer(r"@[\w:]+", c)}
        look = [x for x in a if x.startswith("fn{") and x not in want and keys and {m.group(0)[1:] for m in re.finditer(r"@[\w:]+", x)} <= keys]
        if look:
            a = {k: v for k, v in a.items() if k not in look}
            unk = True
        for e in want:
            ok = present(e, a) or unk
            ctx.check(ok, "%s <- %s" % (key, e), what, "%s no longer receives %s; it now receives: %s" % (key, e, "; ".join(sorted(a))))
        for x in sorted(a):
            ok = within(x, want)
            ctx.check(ok, "%s <- %s" % (key, x), a[x][0], "%s receives %s, the format gives it only: %s" % (key, x, "; ".join(want)))
    ex = spec["objects"]
    owner = {}
    for c, names in ex.items():
        for n in names:
            owner.setdefault(n, set()).add(c)
    for c in sorted(ex):
        if c not in created:
            continue
        have = created[c]
        for n in ex[c]:
            if len(owner[n]) == 1:
                ctx.check(n in have, "object %s for element %s" % (c, n), next(iter(have.values()))[0], "a %s is created for %s, no longer for <%s>" % (c, ", ".join(sorted(have)), n))
        for n in have:
            ctx.check(n in ex[c] or n not in owner, "object %s for element %s" % (c, n), have[n][0], "a %s is created for <%s>, which stands for %s" % (c, n, ", ".join(sorted(owner.get(n, ())))))
    ctx.counts["members"] = len(exp)
    ctx.counts["alternatives"] = sum(len(x) for x in exp.values())
    ctx.counts["objects"] = len(ex)
