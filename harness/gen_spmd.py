"""Enumerates all SPMD kernels up to a number of control nodes and prints each
both in the SPMD language and as plain C++ (the reference).

Nodes: R k_return, B k_break, C k_continue, I if, E if/else, G if/elseif,
F if/elseif/else, W while, D device function call. Observing assignments are
put before, between and after all nodes."""
import functools


@functools.lru_cache(None)
def bodies(n, loop):
    """all statement lists with exactly n control nodes"""
    if n == 0:
        return ((),)
    r = []
    for k in range(1, n + 1):
        for first in nodes(k, loop):
            for rest in bodies(n - k, loop):
                r.append((first,) + rest)
    return tuple(r)


@functools.lru_cache(None)
def nodes(n, loop):
    r = []
    if n == 1:
        r += [("R",)] + ([("B",), ("C",)] if loop else [])
    m = n - 1
    for b in bodies(m, loop):
        r.append(("I", b))
    for b in bodies(m, True):
        r.append(("W", b))
    for b in bodies(m, False):
        r.append(("D", b))
    for i in range(m + 1):
        for b in bodies(i, loop):
            for c in bodies(m - i, loop):
                r.append(("E", b, c))
                r.append(("G", b, c))
    for i in range(m + 1):
        for j in range(m + 1 - i):
            for b in bodies(i, loop):
                for c in bodies(j, loop):
                    for d in bodies(m - i - j, loop):
                        r.append(("F", b, c, d))
    return tuple(r)


def show(b):
    return "".join(x[0] + ("(" + "|".join(show(y) for y in x[1:]) + ")" if len(x) > 1 else "") for x in b)


class Gen:
    def __init__(self, name, body, salt):
        self.name, self.nid, self.bits, self.nfun, self.nloop, self.nb = name, salt % 7, 0, 0, 0, 0
        self.salt = salt
        self.funs = []
        self.k, self.r = self.body(body, [], 1)

    def bit(self, n=1):
        s = self.bits
        self.bits += n
        return s

    def obs(self):
        self.nid += 1
        i = self.nid
        k = [f"k_set(x, x * (typename Q::I)5 + (typename Q::I){i % 64});"]
        r = [f"x = x * 5 + {i % 64};"]
        m = (i + self.salt) % 8
        if m == 0:
            k.append("k_store(d2, x);"); r.append("s.d2 = x;")
        elif m == 1:
            k.append(f"k_set(y, {i % 50});"); r.append(f"y = {i % 50};")
        elif m == 2:
            k.append("k_set(bb, !bb);"); r.append("bb = !bb;")
        elif m == 3:
            k.append("k_if (bb) k_set(y, y + x); k_endif"); r.append("if (bb) y = y + x;")
        elif m == 4:
            k.append("k_set(bb, k_to_bool((u & (typename Q::U)1) != (typename Q::U)0));" if i % 2 else "k_set(bb, (v & (typename Q::I)1) != (typename Q::I)0);"); r.append("bb = (v & 1) != 0;")
        elif m == 5:
            k.append(f"k_store(d3, {i % 40});"); r.append(f"s.d3 = {i % 40};")
        elif m == 6:
            k.append("k_set(y, k_load(src) + y);"); r.append("y = v + y;")
        else:
            k.append("k_set(bb, true);"); r.append("bb = true;")
        return k, r

    def cond(self, loops):
        """returns (pre statements, kernel expression, reference expression)"""
        s = self.bit()
        self.nb += 1
        kind = (self.nb + self.salt) % 4
        if kind == 2 and not loops:
            return [], [], f"k_gt(k_load((fb + {s + 1} * st)), k_load(fb))", f"(((v >> {s}) & 1) != 0)"
        if loops:
            c = loops[-1]
            ke = f"(((v >> {s}) + {c}) & (typename Q::I)1) != (typename Q::I)0"
            re = f"(((v >> {s}) + {c}) & 1) != 0"
        elif kind == 1:
            ke = f"(u & (typename Q::U)({1 << s})) != (typename Q::U)0"
            re = f"(v & {1 << s}) != 0"
        else:
            ke = f"((v >> {s}) & (typename Q::I)1) != (typename Q::I)0"
            re = f"((v >> {s}) & 1) != 0"
        if kind == 3:
            b = f"b{self.nb}_"
            return [f"k_bool {b}(false); k_set({b}, {ke});"], [f"bool {b} = {re};"], b, b
        return [], [], f"({ke})", f"({re})"

    def body(self, body, loops, ind):
        k, r = self.obs()
        for n in body:
            t = n[0]
            if t in "RBC":
                k.append({"R": "k_return;", "B": "k_break;", "C": "k_continue;"}[t])
                r.append({"R": "return;", "B": "break;", "C": "continue;"}[t])
            elif t == "D":
                f = f"{self.name}_f{self.nfun}"
                self.nfun += 1
                bk, br = self.body(n[1], [], ind + 1)
                self.funs.append(f"spmd_tmpl_dev_func(void {f}, Q, k_int &v, k_uint &u, k_int &x, k_int &y, k_bool &bb, typename Q::I *src, typename Q::I *d2, typename Q::I *d3, typename Q::F *fb, long st)\n  (void)u; (void)src; (void)d2; (void)d3; (void)fb; (void)st;\n  " + "\n  ".join(bk) + "\nspmd_dev_func_end\n")
                k.append(f"spmd_call_tmpl_dev_func({f}, Q, v, u, x, y, bb, src, d2, d3, fb, st);")
                r.append("[&]() -> void {"); r += br; r.append("}();")
            elif t == "W":
                i = self.nloop
                self.nloop += 1
                c = f"c{i}_"
                s = self.bit(2)
                lim, rl = f"((v >> {s}) & (typename Q::I)3)", f"((v >> {s}) & 3)"
                k.append(f"k_int {c}((typename Q::I)0); k_set({c}, 0);")
                r.append(f"long {c} = 0;")
                kind = (i + self.salt) % 3
                if kind == 0:
                    k.append(f"k_while ({c} < {lim})"); r.append(f"while ({c} < {rl}) {{")
                elif kind == 1:
                    k.append(f"k_while (true) k_if ({c} >= {lim}) k_break; k_endif"); r.append(f"while (true) {{ if ({c} >= {rl}) break;")
                else:
                    k.append(f"k_while ({lim} > {c})"); r.append(f"while ({rl} > {c}) {{")
                k.append(f"k_set({c}, {c} + (typename Q::I)1);"); r.append(f"{c}++;")
                bk, br = self.body(n[1], loops + [c], ind + 1)
                k += bk; r += br
                k.append("k_endwhile"); r.append("}")
            else:
                # all conditions of a chain are evaluated where they stand;
                # a condition kept in a variable is computed before the chain
                parts = {"I": [1], "E": [1, 0], "G": [1, 1], "F": [1, 1, 0]}[t]
                conds = [self.cond(loops) for p in parts if p]
                for c in conds:
                    k += c[0]; r += c[1]
                first = True
                for j, p in enumerate(parts):
                    if p:
                        c = conds[j]
                        k.append(("k_if " if first else "k_elseif ") + "(" + c[2] + ")")
                        r.append(("if " if first else "} else if ") + "(" + c[3] + ") {")
                    else:
                        k.append("k_else"); r.append("} else {")
                    first = False
                    bk, br = self.body(n[1 + j], loops, ind + 1)
                    k += bk; r += br
                k.append("k_endif"); r.append("}")
            ok, orr = self.obs()
            k += ok; r += orr
        return k, r

    def text(self, desc, variants):
        n = self.name
        t = "".join(self.funs)
        t += f"spmd_tmpl_kernel_1d({n}, Q, typename Q::I *d1, typename Q::I *d2, typename Q::I *d3, typename Q::I *d4, typename Q::I *src, typename Q::U *us, typename Q::F *fb, long st)\n"
        t += "  k_int v, x, y; k_uint u; k_bool bb(false);\n  k_unmasked_set(v, k_unmasked_load(src)); k_unmasked_set(u, k_load(us)); k_unmasked_set(x, v); k_set(y, 0);\n  (void)u; (void)d2; (void)d3; (void)fb; (void)st;\n  "
        t += "\n  ".join(self.k)
        t += "\n  k_unmasked_store(d1, x); k_unmasked_store(d4, y);\nspmd_kernel_end\n"
        t += f"static void ref_{n}(long v, Out &s) {{\n  long x = v, y = 0; bool bb = false; (void)bb;\n  [&]() -> void {{\n  " + "\n  ".join(self.r) + "\n  }();\n  s.d1 = x; s.d4 = y;\n}\n"
        # every third program also exists in the form without a template argument
        plain = variants[0] if int(n[1:]) % 3 == len(variants) % 3 else None
        if plain:
            w, u = plain
            body = t[:t.index("static void ref_")].replace("spmd_tmpl_dev_func", "spmd_dev_func").replace("spmd_call_tmpl_dev_func", "spmd_call_dev_func").replace("spmd_tmpl_kernel_1d", "spmd_kernel_1d").replace(", Q, ", ", ")
            t += f"namespace plain_{n} {{\ntypedef QT<{w}> Q;\n{body}}}\nPLAIN({n}, {self.name[1:]}, {self.bits}, \"{desc}\", {w}, {u})\n"
            variants = variants[1:]
        v = " ".join(f"L_{n}<{w}, {u}>::reg();" for w, u in variants)
        if v:
            t += f"PROG({n}, {self.name[1:]}, {self.bits}, \"{desc}\", {v})\n"
        return t


ALLV = [(w, u) for w in (32, 8, 64, 16) for u in (1, 2, 3)]


def programs(sizes, maxbits=8, sel=None):
    out, salt = [], 0
    for n in sizes:
        for b in bodies(n, False):
            salt += 1
            if sel and not sel(n, show(b), salt):
                continue
            g = Gen("k%d" % salt, b, salt)
            if g.bits <= maxbits:
                out.append((show(b), g, salt))
    return out


def write(outdir, tag, ps, per, variants):
    """variants: function program number -> list of (width, unroll)"""
    files = []
    for i in range(0, len(ps), per):
        f = f"{outdir}/spmd_{tag}_{i // per}.cpp"
        with open(f, "w") as h:
            h.write('#include "spmd_kern.h"\nnamespace {\n')
            for d, g, salt in ps[i:i + per]:
                h.write(g.text(d, variants(salt)))
            h.write("}\n")
        files.append(f)
    return files


if __name__ == "__main__":
    for n in range(1, 6):
        print(n, len(bodies(n, False)))
