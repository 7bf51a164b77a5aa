"""Enumerates tet1d expressions and writes, for each, the tet1d statement and
its element-wise evaluation with the scalar operations.

An expression is a tree over inputs a, b, c (type T), literals and operations.
Statements: out = N | out(L) = N | out(L) = literal, N numeric and L logical.
Depth 1: every operation in every operand form (array/array, array/scalar,
scalar/array, infix and named).  Depth 2: every operation applied to every
operation, in each operand position."""
INT = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
FLT = ["f16", "f32", "f64"]
TYPES = INT + FLT
INFIX2 = {"orb": "|", "andb": "&", "xorb": "^", "add": "+", "sub": "-", "mul": "*", "div": "/"}
INFIXL = {"orl": "||", "andl": "&&"}
INFIXC = {"eq": "==", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}
BIN = ["orb", "andb", "andnotb", "xorb", "add", "sub", "mul", "div", "min", "max", "adds", "subs"]
UN = ["notb", "neg", "abs", "ceil", "floor", "trunc", "round_to_even"]
TER = ["fma", "fnma", "fms", "fnms"]
CMP = list(INFIXC)
LBIN = ["orl", "andl", "andnotl", "xorl"]
SH = ["shl", "shr", "shra"]
SAME = {1: ["i8", "u8"], 2: ["i16", "u16", "f16"], 4: ["i32", "u32", "f32"], 8: ["i64", "u64", "f64"]}


def size(t):
    return int(t[1:]) // 8


def isf(t):
    return t[0] == "f"


def lit(t, v):
    return f"tlit<{t}>({v})"


# A numeric or logical expression is a pair (tet1d text, reference text).
# infix=True: operator form where the operation has one.
def leaf(x):
    return (x, f"{x}_")


def scal(t, v, plain):
    return (str(v) if plain else lit(t, v), lit(t, v))


def nshift(t, salt):
    w = size(t) * 8
    return [0, 1, w // 2, w - 1, 3][salt % 5]


def binop(op, x, y, infix):
    if infix and op in INFIX2:
        return (f"({x[0]} {INFIX2[op]} {y[0]})", f"q.{op}({x[1]}, {y[1]})")
    return (f"tet1d::{op}({x[0]}, {y[0]})", f"q.{op}({x[1]}, {y[1]})")


def unop(op, x, infix):
    if infix and op == "neg":
        return (f"(-{x[0]})", f"q.neg({x[1]})")
    if infix and op == "notb":
        return (f"(~{x[0]})", f"q.notb({x[1]})")
    return (f"tet1d::{op}({x[0]})", f"q.{op}({x[1]})")


def terop(op, x, y, z):
    return (f"tet1d::{op}({x[0]}, {y[0]}, {z[0]})", f"q.{op}({x[1]}, {y[1]}, {z[1]})")


def shop(op, x, s, infix=False):
    if infix and op in ("shl", "shr"):
        return (f"({x[0]} {'<<' if op == 'shl' else '>>'} {s})", f"q.{op}({x[1]}, {s})")
    return (f"tet1d::{op}({x[0]}, {s})", f"q.{op}({x[1]}, {s})")


def cmpop(op, x, y, infix):
    return (f"({x[0]} {INFIXC[op]} {y[0]})" if infix else f"tet1d::{op}({x[0]}, {y[0]})", f"q.{op}({x[1]}, {y[1]})")


def lop(op, x, y, infix):
    return (f"({x[0]} {INFIXL[op]} {y[0]})" if infix and op in INFIXL else f"tet1d::{op}({x[0]}, {y[0]})", f"q.{op}({x[1]}, {y[1]})")


def notl(x, infix):
    return (f"(!{x[0]})" if infix else f"tet1d::notl({x[0]})", f"q.notl({x[1]})")


def cvt(op, t, u, x):
    """round trip t -> u -> t so the expression keeps its type"""
    return (f"tet1d::{op}<{t}>(tet1d::{op}<{u}>({x[0]}))", f"q.template {op}<{t}>(q.template {op}<{u}>({x[1]}))")


A, B, C = leaf("a"), leaf("b"), leaf("c")


def ops_for(t):
    """(name, kind) of all operations valid on t; kind n: numeric, l: logical"""
    r = [(o, "bin") for o in BIN] + [(o, "un") for o in UN] + [(o, "ter") for o in TER]
    r += [(o, "cmp") for o in CMP]
    if not isf(t):
        r += [("shl", "sh"), ("shr", "sh")]
        r += [("shra", "sh")]
    else:
        r += [("sqrt", "un"), ("rec", "un")]
    r += [(("cvt", u), "cvt") for u in SAME[size(t)]] + [(("reinterpret", u), "cvt") for u in SAME[size(t)]]
    r += [("to_mask", "tm"), ("to_logical", "tl"), ("notl", "ln")] + [(o, "lb") for o in LBIN]
    return r


def apply1(t, op, kind, arg, pos, infix, salt):
    """operation with arg (numeric) at operand position pos, inputs elsewhere;
    result (expr, 'n' or 'l'); None when the position does not exist"""
    if kind == "bin":
        if pos > 1:
            return None
        if op == "div":  # divisors stay non-zero
            return (binop(op, arg, B, infix), "n") if pos == 0 else None
        return (binop(op, *((arg, C) if pos == 0 else (C, arg)), infix), "n")
    if kind == "un":
        return (unop(op, arg, infix), "n") if pos == 0 else None
    if kind == "ter":
        xs = [A, B, C]
        if pos > 2:
            return None
        xs[pos] = arg
        return (terop(op, *xs), "n")
    if kind == "cmp":
        if pos > 1:
            return None
        return (cmpop(op, *((arg, B) if pos == 0 else (C, arg)), infix), "l")
    if kind == "sh":
        return (shop(op, arg, nshift(t, salt), infix), "n") if pos == 0 else None
    if kind == "cvt":
        return (cvt(op[0], t, op[1], arg), "n") if pos == 0 else None
    if kind == "tl":
        return ((f"tet1d::to_logical({arg[0]})", f"q.to_logical({arg[1]})"), "l") if pos == 0 else None
    # operations on logicals: make one from arg
    l = cmpop(CMP[salt % 6], arg, B, True)
    return applyl(t, op, kind, l, pos, infix, salt)


def applyl(t, op, kind, l, pos, infix, salt):
    if kind == "tm":
        return ((f"tet1d::to_mask({l[0]})", f"q.to_mask({l[1]})"), "n") if pos == 0 else None
    if kind == "ln":
        return (notl(l, infix), "l") if pos == 0 else None
    if kind == "lb":
        m = cmpop(CMP[(salt + 3) % 6], A, C, True)
        return (lop(op, *((l, m) if pos == 0 else (m, l)), infix), "l") if pos < 2 else None
    return None


def oname(op):
    return op if isinstance(op, str) else op[0] + op[1]


def statements1(t):
    """all depth-1 statements: (description, mask or None, value, kind)"""
    r, salt = [("copy", None, A)], 0

    def num(d, e):
        r.append((d, None, e))

    def log(d, e):
        nonlocal salt
        salt += 1
        v = [A, binop("add", A, C, True), scal(t, 7, True)][salt % 3]
        r.append((d, e, v))
    for op, kind in ops_for(t):
        n = oname(op)
        salt += 1
        if kind == "bin":
            y = B if op == "div" else C
            num(n, binop(op, A, y, False))
            num(n + ".vs", binop(op, A, scal(t, 3, False), False))
            num(n + ".sv", binop(op, scal(t, 5, False), B, False))
            if op in INFIX2:
                num(n + ".i", binop(op, A, y, True))
                num(n + ".ivs", binop(op, A, scal(t, 3, True), True))
                num(n + ".isv", binop(op, scal(t, 5, True), B, True))
        elif kind == "ter":
            num(n, terop(op, A, B, C))
            S = scal(t, 3, False)
            num(n + ".s0", terop(op, S, B, C)); num(n + ".s1", terop(op, A, S, C)); num(n + ".s2", terop(op, A, B, S))
            num(n + ".s01", terop(op, S, S, C)); num(n + ".s02", terop(op, S, B, S)); num(n + ".s12", terop(op, A, S, S))
        elif kind == "cmp":
            log(n, cmpop(op, A, C, False)); log(n + ".vs", cmpop(op, A, scal(t, 3, False), False)); log(n + ".sv", cmpop(op, scal(t, 3, False), A, False))
            log(n + ".i", cmpop(op, A, C, True)); log(n + ".ivs", cmpop(op, A, scal(t, 3, True), True)); log(n + ".isv", cmpop(op, scal(t, 3, True), A, True))
        elif kind == "sh":
            for s in range(size(t) * 8) if size(t) == 1 else (0, 1, size(t) * 4, size(t) * 8 - 1):
                num(f"{n}.{s}", shop(op, A, s))
            if op != "shra":
                num(f"{n}.i", shop(op, A, 3, True))
        elif kind == "un" or kind == "cvt":
            if kind == "cvt" and op[1] != t:  # scalars mixed with a converted expression
                u = op[1]
                x = (f"tet1d::{op[0]}<{u}>(a)", f"q.template {op[0]}<{u}>(a_)")
                for o, sv in (("add", 0), ("sub", 1), ("mul", 0), ("min", 0)):
                    l = scal(u, 3, o != "min")
                    e = binop(o, *((l, x) if sv else (x, l)), o != "min")
                    num(f"{n}.{o}", (f"tet1d::{op[0]}<{t}>({e[0]})", f"q.template {op[0]}<{t}>({e[1]})"))
            num(n, apply1(t, op, kind, A, 0, False, salt)[0])
            if op in ("neg", "notb"):
                num(n + ".i", apply1(t, op, kind, A, 0, True, salt)[0])
        else:
            l = cmpop("lt", A, C, True)
            for infix in (False, True):
                if infix and not (op in INFIXL or op == "notl"):
                    continue
                e, k = (apply1(t, op, kind, A, 0, False, salt) if kind == "tl" else applyl(t, op, kind, l, 0, infix, salt))
                (num if k == "n" else log)(n + (".i" if infix else ""), e)
    return r


def statements2(t):
    """all depth-2 statements: outer(inner) for every operand position"""
    r, salt = [], 0
    for oi, ki in ops_for(t):
        for oo, ko in ops_for(t):
            for pos in range(3):
                salt += 1
                inf = salt % 2 == 0
                inner = apply1(t, oi, ki, A, 0, inf, salt)
                e, k = inner
                inf = (salt // 2) % 2 == 0
                if k == "n":
                    o = apply1(t, oo, ko, e, pos, inf, salt)
                else:
                    if ko not in ("tm", "ln", "lb"):
                        continue
                    o = applyl(t, oo, ko, e, pos, inf, salt)
                if o is None:
                    continue
                d = f"{oname(oo)}{pos}({oname(oi)})"
                if o[1] == "n":
                    r.append((d, None, o[0]) if salt % 3 else (d + ".m", cmpop(CMP[salt % 6], B, C, True), o[0]))
                else:
                    r.append((d, o[0], [A, e if k == "n" else C, scal(t, 7, True)][salt % 3]))
    return r


def emit(out, t, unroll, sts, uid):
    for i, (d, m, v) in enumerate(sts):
        n = f"s{uid}_{i}"
        lhs = "o" if m is None else f"o({m[0]})"
        out.write(f"struct {n} {{ template <class O, class I> static void run(O o, I a, I b, I c) {{ (void)a; (void)b; (void)c; {lhs} = {v[0]}; }}\n")
        mt = "" if m is None else f"if (!({m[1]})) {{ q.skip = true; return old; }}\n    "
        out.write(f"  static {t} ref(Ref<{t}> &q, {t} a_, {t} b_, {t} c_, {t} old) {{ (void)a_; (void)b_; (void)c_; (void)old; {mt}return {v[1]}; }} }};\n")
        out.write(f"TET({n}, {t}, {unroll}, \"{d}\")\n")


def write(outdir, tag, jobs, per):
    """jobs: list of (type, unroll, statement)"""
    files = []
    for i in range(0, len(jobs), per):
        f = f"{outdir}/tet_{tag}_{i // per}.cpp"
        with open(f, "w") as h:
            h.write('#include "tet_kern.h"\nnamespace {\n')
            for j, (t, u, s) in enumerate(jobs[i:i + per]):
                emit(h, t, u, [s], j)
            h.write("}\n")
        files.append(f)
    return files


if __name__ == "__main__":
    for t in TYPES:
        print(t, len(statements1(t)), len(statements2(t)))
