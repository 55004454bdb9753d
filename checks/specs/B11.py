from fractions import Fraction as F
import re
MX, MN = 2**63 - 1, -2**63
def rnd(x, mode):  # exact rounding of a fraction to an integer
    n = abs(x.numerator); d = x.denominator; q, m = divmod(n, d)
    if mode and (2 * m > d or (2 * m == d and (mode == 1 or q & 1))): q += 1
    return q if x >= 0 else -q
def fits(n): return MN <= n <= MX
def val(n, d): return F(n, 10**d)
def red(n, d):
    while d and n % 10 == 0: n //= 10; d -= 1
    return n, d
def post(path):
    viols = []; C = {}
    def bad(k, m): viols.append((k, m, 0))
    def cnt(k): C[k] = C.get(k, 0) + 1
    for ln in open(path, encoding="latin-1"):
        t = ln.split(); op = t[0]
        if op == "str":
            n, d, s = int(t[2]), int(t[3]), t[6] if len(t) > 6 else ""
            a = str(abs(n)).rjust(d + 1, "0"); w = ("-" if n < 0 else "") + (a if d == 0 else a[:-d] + "." + a[-d:])
            if s != w: bad("dec:print", "%d/10^%d printed '%s' want '%s'" % (n, d, s, w))
            cnt("printed"); continue
        if op == "prs":
            s = bytes.fromhex(t[2]).decode("latin-1"); rv, n, d, e = int(t[3]), int(t[4]), int(t[5]), int(t[6])
            m = re.match(r"[ \t]*([-+]?)(\d+)(?:\.(\d*))?", s) or re.match(r"()()\.(\d*)", s)
            if not m: 
                if rv in (0, 2): bad("dec:parse-invalid", "'%s' accepted as %d/10^%d" % (s, n, d))
                cnt("invalid"); continue
            if m.group(3) == "" and m.end() < len(s): cnt("odd"); continue   # text directly after the point: either reading is fine
            x = F(int((m.group(2) or "0") + (m.group(3) or "")), 10**len(m.group(3) or "")) * (-1 if m.group(1) == "-" else 1); end = m.end()
            dropped = not (lambda z: fits(z[0]) and z[1] <= 255)(red(int(x * 10**len(m.group(3) or "")), len(m.group(3) or "")))
            ex = re.match(r"[eE](.*)", s[end:], re.S); exp = 0
            if ex:
                xm = re.match(r"[ \t]*([-+]?\d+)", ex.group(1))
                if not xm:
                    if rv in (0, 2): bad("dec:parse-exp", "'%s' accepted" % s)
                    cnt("invalid"); continue
                exp = int(xm.group(1)); end += 1 + xm.end()
            x *= F(10) ** exp
            r = val(n, d)
            if rv == 0:
                if r != x: bad("dec:parse", "'%s' read as %d/10^%d" % (s, n, d))
                if e != end and not (e == -1 and m.group(3) == ''): bad("dec:parse-end", "'%s' ended at %d want %d" % (s, e, end))
                cnt("parse_exact")
            elif rv == 2:
                if not dropped: bad("dec:parse-trunc", "'%s' reported as truncated" % s)
                # dropped digits: nothing larger than what is representable may be lost
                tol = F(10)**exp * max(abs(F(int(x / F(10)**exp))) + 1, 1) / F(10)**17 if x else 0
                if abs(r - x) > max(tol, F(10)**exp * F(1, 10**18) * 10): bad("dec:parse-trunc", "'%s' truncated to %d/10^%d" % (s, n, d))
                if e != end and not (e == -1 and m.group(3) == ''): bad("dec:parse-end", "'%s' ended at %d want %d" % (s, e, end))
                cnt("parse_truncated")
            elif rv == 1:
                ip = int((m.group(2) or "0")) * (-1 if m.group(1) == "-" else 1)
                z, zd = (0, 0)
                k = 0; y = x
                while y.denominator != 1 and k < 300: y *= 10; k += 1
                if fits(ip) and fits(int(y)) and y.denominator == 1 and k <= 255 and not dropped: bad("dec:parse-overflow", "'%s' reported as overflow" % s)
                cnt("parse_overflow")
            else: bad("dec:parse-invalid", "'%s' rejected" % s)
            continue
        rm, an, ad, bn, bd, rv, rn, rd = map(int, t[1:9]); a, b, r = val(an, ad), val(bn, bd), val(rn, rd); cnt("judged")
        what = "%s(mode %d) %d/10^%d, %d/10^%d -> rv %d %d/10^%d" % (op, rm, an, ad, bn, bd, rv, rn, rd)
        if op == "cmp":
            if rv is None: pass
            if rn != (a > b) - (a < b): bad("dec:cmp", what)
        elif op == "toi":
            w = rnd(a * 10**bn, 1)
            if fits(w) and ad - bn <= 18 and bn - red(an, ad)[1] <= 18 and fits(w) and (bn <= ad or an == 0 or fits(an * 10**(bn - ad))) and rn != w: bad("dec:toint", what + " want %d" % w)
        elif op == "trn":
            w = a * 10**bn
            if rv in (0, 2):
                if rd != bn or rn != rnd(w, rm): bad("dec:round", what + " want %d" % rnd(w, rm))
                if rv == 0 and w.denominator != 1: bad("dec:round-silent", what)
                cnt("rounded" if w.denominator != 1 else "scaled")
            elif rv == 1:
                if (bn >= ad and (an == 0 or fits(an * 10**(bn - ad))) and bn - ad <= 18) or (bn < ad and ad - bn <= 18): bad("dec:round-overflow", what)
            else: bad("dec:round-invalid", what)
        else:
            x = a + b if op == "add" else a - b if op == "sub" else a * b if op == "mul" else (a / b if b else None)
            (n1, d1), (n2, d2) = red(an, ad), red(bn, bd)
            if rv == 0:
                if x is None or r != x: bad("dec:%s-silent" % op, what + " want %s" % x)
                cnt("exact")
            elif rv == 2:
                cnt("inexact")
                if op in ("add", "sub", "mul"):
                    # at least as precise as rounding both operands to the most decimals at which everything fits
                    k = -1
                    for d in range(min(max(d1, d2), 255), -1, -1):
                        p = 10**d
                        if (abs(a) * p + 1) <= MX and (abs(b) * p + 1) <= MX and (op != "mul" or (abs(a) * p + 1) * (abs(b) * p + 1) <= MX) and d <= 127 and ad - d <= 18 and bd - d <= 18: k = d; break
                    if k >= 0:
                        tol = F(6, 10**(k + 1)) * ((abs(a) + abs(b) + 1) if op == "mul" else 2)
                        if abs(r - x) > tol: bad("dec:%s-imprecise" % op, what + " want about %s (tolerance %s)" % (float(x), float(tol)))
                elif x is not None:
                    d = max(ad, bd)
                    if ad == bd or (fits(an * 10**(d - ad)) and fits(bn * 10**(d - bd)) and d - min(ad, bd) <= 18):
                        n, m = an * 10**(d - ad), bn * 10**(d - bd); q = abs(n) // abs(m); rem = abs(n) % abs(m)
                        k = 18
                        while k and (rem * 10**k > MX or (q * 10**k + 10**k) > MX): k -= 1
                        if rd < 18 and rd < k and rn % 10 == 0 and rd: bad("dec:div-reduce", what)
                        ok = any(val(rnd(x * 10**j, rm), j) == r for j in range(k, 19))
                        if not ok: bad("dec:div-round", what + " want %s at %d decimals or more" % (float(x), k))
                        cnt("divided")
            elif rv == 1:
                cnt("overflow")
                d = max(d1, d2); ok1 = d - min(d1, d2) <= 18 and fits(n1 * 10**(d - d1)) and fits(n2 * 10**(d - d2))
                if op in ("add", "sub") and ok1 and fits((n1 * 10**(d - d1)) + (1 if op == "add" else -1) * n2 * 10**(d - d2)): bad("dec:%s-overflow" % op, what)
                if op == "mul" and ok1 and d <= 100 and fits(n1 * 10**(d - d1) * n2 * 10**(d - d2)): bad("dec:mul-overflow", what)
                if op == "div" and x is not None and an != MN and abs(x) <= MX // 2 and ad == bd: bad("dec:div-overflow", what)
            else:
                cnt("invalid_op")
                d = max(ad, bd)
                if not (op == "div" and bn == 0) and (d - min(d1, d2) <= 18) and fits(n1 * 10**(d - d1)) and fits(n2 * 10**(d - d2)) and d <= 18: bad("dec:invalid", what)
    return dict(viols=viols[:200], counters=C)
def check(r):
    exe = r.build("b11", "b11_decimal.cc", ["base"])
    k = 40 if r.thorough else 1
    r.mode(exe, "ops", 16000 * k, post=post)
    r.mode(exe, "text", 12000 * k, post=post)
    r.require("ops.judged", 150000); r.require("ops.exact", 10000); r.require("ops.inexact", 5000); r.require("ops.overflow", 3000); r.require("ops.rounded", 3000); r.require("ops.divided", 2000); r.require("text.parse_exact", 20000); r.require("text.parse_truncated", 1000); r.require("text.printed", 50000)
    return r.finish("a case is twelve random operations on decimals with boundary values and up to 255 decimal places (aliased outputs included), or six print/read-back trips and six parses of random decimal texts at exact lengths",
                    ["Python's rationals are the arithmetic reference", "a reported truncation or overflow is allowed where the operands cannot share their decimal places; add, subtract and multiply then must be as precise as their operands rounded to the most decimals that fit"])
DESIGN = """Decided offline: every operation's operands, rounding mode, return code and result are logged and judged in exact rational arithmetic (success means exactly equal; rounding must be exact for the mode at the kept digits; overflow only where a scaled operand or the result does not fit; parse, print and their ends exactly). Reading is done from exact-size blocks and again inside a longer text so a length overrun shows. ~10 s quick."""
