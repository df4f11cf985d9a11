"""Every message pattern is a constant whose placeholders fit the arguments given to it.

For every call of a logging function or of the formatting library, the pattern operand is traced to the constants it can
denote (through casts, conversions, conditional operators and local variables). It must be a constant - text that stems
from input is never interpreted as a pattern -, its braces must be balanced, it must not consume more arguments than the
call supplies, and each replacement field's type and precision must be accepted by the type of the argument it consumes.
Functions that pass one of their own parameters on as a pattern are treated as logging functions themselves and the
obligation moves to their callers.
"""
import re
from util import base_type, brace_free, const_strings, strip

LOGQ = re.compile(r"^__LOG_\w+__$")
INT = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long", "unsigned long long", "signed char",
       "unsigned char"}
PRINTF = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "std::printf": 0, "std::fprintf": 1, "std::snprintf": 2, "syslog": 1}


def parse(s):
    """-> list of (argument index or name or None, spec) or an error text"""
    res = []
    i = 0
    nested = []
    while i < len(s):
        c = s[i]
        if c == "{":
            if s[i + 1:i + 2] == "{":
                i += 2
                continue
            j, d = i + 1, 1
            while j < len(s) and d:
                if s[j] == "{":
                    d += 1
                elif s[j] == "}":
                    d -= 1
                j += 1
            if d:
                return "unmatched '{'"
            body = s[i + 1:j - 1]
            m = re.match(r"^([0-9]+|[A-Za-z_]\w*)?(?::(.*))?$", body, re.S)
            if not m:
                return "malformed replacement field {%s}" % body
            res.append((m.group(1), m.group(2) or ""))
            i = j
        elif c == "}":
            if s[i + 1:i + 2] == "}":
                i += 2
                continue
            return "unmatched '}'"
        else:
            i += 1
    return res


SPEC = re.compile(r"^(?:.?[<>^])?([+\- ])?(#)?(0)?(\d+|\{\w*\})?(\.(?:\d+|\{\w*\}))?(L)?([a-zA-Z?])?$", re.S)


def category(t):
    t = base_type(t)
    if t in INT:
        return "int"
    if t == "bool":
        return "bool"
    if t == "char":
        return "char"
    if t in ("float", "double", "long double"):
        return "float"
    if "basic_string" in t or t in ("std::string", "std::string_view"):
        return "string"
    if re.match(r"^(const )?char( const)? ?\*( const)?$", t) or re.match(r"^(const )?char ?\[\d*\]$", t):
        return "string"
    if t.endswith("*") or t == "std::nullptr_t":
        return "pointer"
    return "other"


def spec_ok(spec, cat):
    if cat == "other":
        return True
    m = SPEC.match(spec)
    if not m:
        return False
    sign, alt, zero, width, prec, loc, ty = m.groups()
    if cat == "int":
        if prec:
            return False
        return ty is None or ty in "dxXobBc"
    if cat == "bool":
        if prec:
            return False
        return ty is None or ty in "dxXobBs"
    if cat == "char":
        return ty is None or ty in "cdxXobB?"
    if cat == "float":
        return ty is None or ty in "aAeEfFgG%"
    if cat == "string":
        if sign or alt or zero:
            return False
        return ty is None or ty in "s?p"
    if cat == "pointer":
        return not prec and not sign and (ty is None or ty == "p")
    return True


def fields_of(s):
    """flattened: nested width/precision arguments consume arguments, too. -> (list of (index, spec)), highest index, error"""
    p = parse(s)
    if isinstance(p, str):
        return None, 0, p
    auto = 0
    out = []
    top = 0
    for idx, spec in p:
        if idx is None:
            k = auto
            auto += 1
        elif idx.isdigit():
            k = int(idx)
        else:
            return None, 0, "named argument {%s}" % idx
        top = max(top, k + 1)
        for m in re.finditer(r"\{(\w*)\}", spec):
            if m.group(1) == "":
                top = max(top, auto + 1)
                auto += 1
            elif m.group(1).isdigit():
                top = max(top, int(m.group(1)) + 1)
        out.append((k, spec))
    return out, top, None


def run(ctx):
    p = ctx.program()
    fns = list(p.all())
    # pattern sinks: usr -> index of the pattern operand in the call's children
    sinks = {}
    sites = []          # (fn, call node, pattern index)

    def sink_of(n):
        q = n.g("q") or ""
        if LOGQ.match(q):
            return 3
        if q == "fmt::format" or re.match(r"^fmt::v\d+::format$", q):
            return 0
        if q in ("fmt::print", "fmt::vformat", "fmt::vprint"):
            return 0
        if q in ("fmt::format_to", "fmt::format_to_n"):
            return 1 if q.endswith("_to") else 2
        return sinks.get(n.g("u"))

    n_printf = 0
    # wrappers: functions whose own parameter is a pattern operand
    work = True
    wrapper = set()
    while work:
        work = False
        for f in fns:
            for n in f.calls():
                if n.k != "call":
                    continue
                i = sink_of(n)
                if i is None or i >= len(n.c):
                    continue
                a = strip(f, f.nodes[n.c[i]])
                for _ in range(4):
                    if a.k == "ctor" and "basic_format_string" in (a.g("q") or "") and a.c:
                        a = strip(f, f.nodes[a.c[0]])
                    elif a.k == "call" and a.c and ((a.g("q") or "").endswith(("::c_str", "::runtime", "::AddTimeAndMetaData"))
                                                  or "operator basic_string_view" in (a.g("q") or "")):
                        a = strip(f, f.nodes[a.c[-1] if a.g("q").endswith("AddTimeAndMetaData") else a.c[0]])
                    else:
                        break
                if a.k == "ref" and f.vars[a.g("d")].kind == "param" and not f.externc and a.g("d") in f.params:
                    wrapper.add((f.usr, n.id))
                    pos = f.params.index(a.g("d")) + (1 if f.cls and not f.smeth else 0)
                    if f.usr not in sinks and not LOGQ.match(f.q):
                        sinks[f.usr] = pos
                        work = True
    seen = set()
    for f in fns:
        ordn = {}
        for n in f.calls():
            if n.k != "call":
                continue
            q = n.g("q") or ""
            if q in PRINTF:
                idx = PRINTF[q]
                if idx < len(n.c):
                    n_printf += 1
                    s = const_strings(f, f.nodes[n.c[idx]])
                    a = strip(f, f.nodes[n.c[idx]])
                    if s is None and not (a.k == "ref" and f.vars[a.g("d")].kind == "param"):
                        ctx.check(False, "%s: printf-pattern" % f.q, f.loc(n), "%s() is given a format that is not a constant" % q)
                    else:
                        ctx.check(True, "%s: printf-pattern" % f.q, f.loc(n), "")
                continue
            i = sink_of(n)
            if i is None or i >= len(n.c):
                continue
            if (f.usr, n.id) in wrapper:
                continue
            if (f.file, n.l, q) in seen and "<" in f.q:
                continue
            seen.add((f.file, n.l, q))
            pat = f.nodes[n.c[i]]
            args = [f.nodes[x] for x in n.c[i + 1:]]
            ss = const_strings(f, pat)
            where = f.loc(n)
            short = q.rsplit("::", 1)[-1].strip("_")
            if ss is None and not args and brace_free(f, pat):
                ctx.check(True, "%s: %s with brace-free text" % (f.q, short), where, "")
                continue
            if ss is None:
                k = ordn.setdefault(short, 0)
                ordn[short] += 1
                ctx.check(False, "%s: %s with computed pattern #%d" % (f.q, short, k), where,
                          "the pattern given to %s is not a constant: braces in the text are interpreted as replacement fields" % short)
                continue
            packed = any(a.g("pack") for a in args)
            for s in sorted(ss):
                key = "%s: %s(%s)" % (f.q, short, s[:60])
                fl, top, err = fields_of(s)
                if err:
                    ctx.check(False, key, where, "pattern \"%s\": %s" % (s, err))
                    continue
                # forwarded argument packs are counted in the instantiation
                if top > len(args) and n.g("u") not in sinks:
                    ctx.check(False, key, where, "pattern \"%s\" consumes %d arguments, %d are given" % (s, top, len(args)))
                    continue
                bad = None
                for k, spec in fl:
                    if k < len(args):
                        c = category(args[k].t)
                        if not spec_ok(spec, c):
                            bad = "field {:%s} cannot format argument %d of type %s" % (spec, k + 1, args[k].t)
                if bad:
                    ctx.check(False, key, where, "pattern \"%s\": %s" % (s, bad))
                    continue
                ctx.check(True, key, where, "")
    ctx.count("printf-family calls", n_printf)
    ctx.need("pattern operands examined", ctx.ob, 900)
    ctx.count("functions scanned", len(fns))
