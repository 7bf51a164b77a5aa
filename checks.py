"""What each property's check builds and runs (see DESIGN.md)."""
import sys
from vf import Obj, Prog, LIVE, W32, H

X86 = "x86-64 only (cpu, sse2, sse42, avx, avx2, avx512_knl, avx512_skylake); ARM, POWER, GPU back ends cannot execute here; the code for 32-bit x86 is selected by macro and executed in the 64-bit ABI"
REFTRUST = "trusted: the reference model in harness/ref.h, the host compiler's IEEE-754 single/double arithmetic and libgcc's _Float16 conversions"
INTS = ["i8,u8", "i16,u16", "i32,u32", "i64,u64"]
FLTS = ["f16", "f32", "f64"]
ARITH = "add,sub,mul,div,neg,abs,min,max,adds,subs,orb,andb,andnotb,xorb,notb,ceil,floor,trunc,round_to_even,fma,fnma,fms,fnms"
LOGIC = "eq,ne,lt,le,gt,ge,if_else1,to_mask,to_logical,loadl,orl,andl,andnotl,xorl,notl,set1l"
CONV = "cvt,upcvt,downcvt,reinterpret,reinterpretl"


def kvprog(c, groups, runs, **kw):
    main = Obj(H + "/kv_main.cpp", std="-std=c++17", internal=True)
    return Prog("kv", c, [main] + [Obj(H + "/kv_kern.cpp", c, f"-DGROUP={g} -DCFG={c} -fPIC -fvisibility=hidden") for g in groups], runs, **kw)


def deep(b, thorough, groups, jobs, shards):
    """large operand spaces through all configurations at once (kv_deep)"""
    cs = LIVE + (W32 if thorough else [])
    if not cs:
        return []
    r = [Prog("kvx", c, [Obj(H + "/kv_kern.cpp", c, f"-DGROUP={g} -DCFG={c} -fPIC -fvisibility=hidden") for g in groups], shared=True) for c in cs]
    so = " ".join(f"{b.dir}/kvx_{c}.so" for c in cs)
    runs = [f"--ops {o} --types {t} --shard {i} {n} {so}" for o, t in jobs for n in [shards(o, t)] for i in range(n)]
    r.append(Prog("kvdeep", cs[0], [Obj(H + "/kv_deep.cpp", std="-std=c++17", internal=True)], runs, lib=False, link="-ldl", timeout=6000 if thorough else 600))
    return r


def lane(c, part, **kw):
    return Prog(f"lane{part}", c, [Obj(H + "/lane_kern.cpp", c, f"-DPART={part}")], **kw)


INT8 = ",".join(INTS).split(",")
FLT3 = ["f16", "f32", "f64"]


def p01(b, thorough):
    r = [kvprog(c, (0, 1), [f"--ops {ARITH},shl,shr,shra --types {t}" for t in INTS]) for c in LIVE + W32]
    jobs = [(o, t) for t in ("i64", "u64", "i32", "u32", "i16", "u16", "i8", "u8") for o in (ARITH + ",shl,shr,shra").split(",") if t[1:] != "8" or o in ("fma", "fnma", "fms", "fnms")]
    return r + deep(b, thorough, (0, 1), jobs, lambda o, t: 8 if thorough else 1)


def p02(b, thorough):
    r = [kvprog(c, (0, 1), [f"--ops {ARITH},rec,rec8,rec11,sqrt,rsqrt8,rsqrt11,copy,set1 --types {t}" for t in FLTS]) for c in LIVE + W32]
    return r + deep(b, thorough, (0, 1), [(o, t) for t in ("f64", "f32", "f16") for o in (ARITH + ",rec,rec8,rec11,sqrt,rsqrt8,rsqrt11").split(",")], lambda o, t: 8 if thorough else 1)


def p03(b, thorough):
    r = [kvprog(c, (1,), [f"--ops {LOGIC} --types {t}" for t in INTS + FLTS]) for c in LIVE] + [lane(c, 0) for c in LIVE + W32]
    jobs = [(o, t) for t in ("i64", "u64", "f64", "i32", "u32", "f32", "i16", "u16", "f16", "i8", "u8") for o in ("eq", "ne", "lt", "le", "gt", "ge", "if_else1", "orl", "andl", "andnotl", "xorl") if o == "if_else1" or t[1:] != "8"]
    return r + deep(b, thorough, (1,), jobs, lambda o, t: 4 if thorough else 1)


def p04(b, thorough):
    return [lane(c, 1) for c in LIVE + W32]


def p06(b, thorough):
    return [lane(c, 2) for c in LIVE + W32]


def half(c, runs):
    return Prog("half", c, [Obj(H + "/half_kern.cpp", c)], runs)


def p07(b, thorough):
    # scalar conversions, classification and distance are extension independent
    r = [half("cpu", [f"--full --shard {i} 32" for i in range(32)])]
    for c in LIVE:
        n = 8 if thorough else 1
        r.append(Prog("halfv", c, [Obj(H + "/half_kern.cpp", c)], [f"--vec {'--full' if thorough else ''} --shard {i} {n}" for i in range(n)]))
    return r


def p05(b, thorough):
    r = [kvprog(c, (2,), [f"--ops {CONV} --types {t}" for t in INTS + FLTS]) for c in LIVE + W32]
    return r + deep(b, thorough, (2,), [(o, t) for t in ("f64", "i64", "u64", "f32", "i32", "u32") for o in CONV.split(",")], lambda o, t: 8 if thorough else 2)


CHECKS = {
    "P01": dict(progs=p01, assumptions=[X86, REFTRUST], bounds=('Every kernel (operation x 8 integer types x scalar/C/C++ API x 9 extension configurations). 8-bit: all operand pairs, all shift counts; 16-bit unary: all values; other pairs: all pairs of a structural alphabet (0, +-1, limits, powers of two and neighbours, runs of ones, patterns); every tuple in every lane with all other lanes holding different tuples. In one lane position each: 8-bit fused operations on all 2^24 triples, 16-bit pairs with one operand arbitrary and the other from the alphabet (both ways), 32/64-bit pairs of the level-2 alphabet (all sums of two powers of two, neighbours of equality), 32/64-bit unary and shifts on all values of the 20/18 leading bits with 8 tails.',
        'all 2^32 operand pairs of 16-bit types, all 2^32 operands of 32-bit unary operations and shifts, 24 leading bits of 64-bit operands, level-3 pair alphabets, level-2 alphabets in every lane.')),
    "P02": dict(progs=p02, assumptions=[X86, REFTRUST], bounds=('f16: all values unary, alphabet pairs; f32/f64: alphabet of every exponent boundary, subnormals, infinities, NaNs, ties; unary f32/f64 additionally every exponent with 7 (4) leading mantissa bits; triples over a smaller alphabet; every tuple in every lane. In one lane position each: f16 pairs with one operand arbitrary and the other from the alphabet, level-2 alphabet pairs and neighbours of equality and cancellation for f32/f64, unary f32/f64 on all values of the 20/18 leading bits with 8 tails, triples with products that nearly cancel the addend.',
        'all 2^32 f32 operands of unary operations and all 2^32 f16 operand pairs, 24 leading bits of f64, level-1 triples, level-2 alphabets in every lane.')),
    "P03": dict(progs=p03, assumptions=[X86, REFTRUST], bounds=('All comparison and selection operand pairs of the structural alphabets (all pairs for 8-bit), in every lane; all 2^L lane masks for reductions, conversions, loads/stores of logicals for L <= 16, structured masks above; mask_for_loop_tail for all (i, n) around multiples of L. In one lane position each: 16-bit pairs with one operand arbitrary, level-2 alphabet pairs and neighbours of equality for wider types.',
        'all 2^32 pairs of 16-bit types, level-3 pair alphabets, level-2 alphabets in every lane.')),
    "P04": dict(progs=p04, assumptions=[X86], bounds=('Every operation x type x configuration with every lane tagged and every pair of lane contents; all lane masks for additions (L <= 16).',
        'as quick, wider alphabets.')),
    "P06": dict(progs=p06, assumptions=[X86], bounds=('Every load/store form x type x alignment offset in two cache lines x distance to a guard page on both sides x all 2^L masks (L <= 16, structured above).',
        'as quick with more masks for L > 16.')),
    "P07": dict(progs=p07, assumptions=[X86], bounds=('All 65536 half encodings; all 2^32 single encodings through f32_to_u16 and isnan/isinf/isnormal; vector conversions over the f32 values with the 16 high bits exhaustive.',
        'vector conversions for all 2^32 encodings.')),
    "P05": dict(progs=p05, assumptions=[X86, REFTRUST], bounds=('All conversions and reinterpretations between all type pairs the library defines; all values of 8/16-bit sources, structural alphabet of 32/64-bit sources incl. every exponent boundary, in every lane; all values of the 20/18 leading bits with 8 tails and all values of the 18 trailing bits.',
        'all 2^32 values of 32-bit sources, 24 leading bits of 64-bit sources.')),
}


def p13(b, thorough):
    return [Prog("rand", c, [Obj(H + "/rand_kern.cpp", c), Obj(H + "/rand_two.cpp", c)], timeout=800) for c in LIVE]


CHECKS["P13"] = dict(progs=p13, assumptions=[X86, "trusted: the model of Philox/Threefry in harness/rand_kern.cpp, which first reproduces seven published known-answer vectors"], bounds=('Every generator with counters/keys over single bits, pairs of bits, 0, ~0, carries; every tuple in every lane.',
        'larger tuple sets.'))


def p14(b, thorough):
    r = []
    for c in [c for c in ("cpu", "sse2", "avx2", "sky") if c in LIVE]:
        for std in ("98", "11", "20"):
            r.append(Prog("alloc" + std, c, [Obj(H + "/alloc_main.cpp", std="-std=c++17", internal=True, flags="-fno-builtin-malloc -fno-builtin-free -fno-builtin-calloc"),
                                             Obj(H + "/alloc_api.cpp", c, std="-std=c++" + std), Obj(f"{b.dir}/src/memory.cpp", c), Obj(f"{b.dir}/src/fp16.cpp", c)], lib=False, timeout=800))
    return r


CHECKS["P14"] = dict(progs=p14, assumptions=["the C allocation functions are replaced by a model of the C library allocator that gives exactly the requested size and alignment and no more"], bounds=('All operation histories up to depth 5 over C functions, C++ helpers, allocator and scoped buffer, with every single allocation failing in turn, sizes including overflow limits; C++98/11/20.',
        'depth 6.'))


def p11(b, thorough):
    sys.path.insert(0, H)
    import gen_spmd as G
    n = len(LIVE)
    small = G.programs([1, 2])
    big = G.programs([3, 4] if thorough else [3])
    r = []
    for ci, c in enumerate(LIVE):
        if thorough:
            sv = lambda s: G.ALLV
            mine = [p for p in big if show_size(p) == 3 or p[2] % n == ci]
        else:
            sv = lambda s, ci=ci: [G.ALLV[(s + ci + k) % 12] for k in (0, 4, 8)]
            mine = [p for p in big if p[2] % n == ci]
        bv = lambda s, ci=ci: [G.ALLV[(s // n + ci) % 12]]
        fs = G.write(b.dir + "/gen", f"{c}_s", small, 8 if not thorough else 4, sv) + G.write(b.dir + "/gen", f"{c}_b", mine, 40, bv)
        main = Obj(H + "/spmd_main.cpp", std="-std=c++17", internal=True, flags=f"-DCFGNAME='\"{c}\"'")
        r.append(Prog("spmd", c, [main] + [Obj(f, c, opt="-O0") for f in fs], [""], timeout=3000 if thorough else 300))
        # every operation inside a kernel
        o = [Obj(H + "/api_main.cpp", std="-std=c++17", internal=True)]
        for i, (t, f) in enumerate([("ONE(i8) ONE(u8) ONE(i16) ONE(u16)", 0), ("ONE(i32) ONE(u32) ONE(i64) ONE(u64)", 0), ("ONE(f16) ONE(f32) ONE(f64)", 1)]):
            if not thorough and c != "cpu":
                t = " ".join(x for k, x in enumerate(t.split()) if (k + i + ci) % 3 == 0)
            o.append(Obj(H + "/api_kern.cpp", c, f"-DSPMD_OPS={2 + ci % 2} {'-DSPMD_THREAD' if c == 'cpu' else ''} -DGROUP={i} -DFLOATS={f} '-DTYPES={t}'", opt="-O0"))
        r.append(Prog("spmdop", c, o + sleef(b, c), [f"--part {i} 3" for i in range(3)], timeout=800))
    return r


def show_size(p):
    return sum(ch.isalpha() for ch in p[0])


CHECKS["P11"] = dict(progs=p11, technique="exhaustive enumeration of all SPMD kernels up to a number of control nodes, each compiled and run on all inputs and lane combinations against its scalar execution", assumptions=[X86], bounds=('All programs with up to 2 control nodes (3 of the 12 width/unroll variants in each of 9 configurations), all with 3 control nodes distributed over configurations and variants; every input vector of the decision bits paired with every partner lane. Every k_ operation on 11 types with whole vectors (unroll 1 and 2 or 3, each type in cpu and a third of the vector configurations) against the base interface and one thread index at a time against the scalar function.',
        'all variants for sizes 1-3, size 4 distributed.'))


def p10(b, thorough):
    sys.path.insert(0, H)
    import gen_tet as G
    n = len(LIVE)
    r = []
    one = {t: G.statements1(t) for t in G.TYPES}
    two = {t: G.statements2(t) for t in G.TYPES}
    for ci, c in enumerate(LIVE):
        jobs = []
        for ti, t in enumerate(G.TYPES):
            for i, s in enumerate(one[t]):
                jobs += [(t, u, s) for u in ((1, 2, 3) if thorough else (1, 2 + (i + ci) % 2) if (i + ci + ti) % 3 == 0 else (1,))]
            for i, s in enumerate(two[t]):
                if thorough or (i + ti) % n == ci:
                    jobs.append((t, 1 + (i // n + ci) % 3, s))
        main = Obj(H + "/tet_main.cpp", std="-std=c++17", internal=True, flags=f"-DCFGNAME='\"{c}\"'")
        r.append(Prog("tet", c, [main] + [Obj(f, c, "-UNDEBUG", opt="-O0") for f in G.write(b.dir + "/gen", c, jobs, 400)], [""], timeout=800))
    return r


CHECKS["P10"] = dict(progs=p10, technique="exhaustive enumeration of all array expressions up to depth 2, each compiled and executed for every length around the vector length against its element-wise evaluation", assumptions=[X86, "named operations get scalars of the operand's type (others do not compile); half-precision intermediates may keep single precision in extensions without half registers"],
    bounds=("Every operation in every operand form (array/array, array/scalar, scalar/array, infix/named, masked output) on all 11 types, 9 configurations, unroll 1 and 2 or 3; every composition of two operations in every operand position, distributed over configurations and unrolls; all lengths 0..L+2, around 2L and 3L, plain arrays, three slicing forms, output in place or separate, arrays ending at a guard page.", "every composition in every configuration, all alias and slice modes for every length."))


def fixfmts():
    s = [(lf, rt) for rt in range(1, 8) for lf in range(1, 17) if lf + 2 * rt <= 16]
    w = []
    for bits, prev in ((32, 16), (64, 32)):
        for rt in range(1, bits // 2):
            for lf in (1, 2, 3, prev - 2 * rt + 1, bits // 2 - rt, bits - 2 * rt - 1, bits - 2 * rt):
                if prev < lf + 2 * rt <= bits and lf >= 1 and (rt in (1, 2, 7, 8, 12, 14, 15, 16, 23, 24, 30, 31) or lf == bits - 2 * rt and rt % 4 == 0) and (lf, rt) not in w:
                    w.append((lf, rt))
    return s, w


def p12(b, thorough):
    s, w = fixfmts()
    r = []
    for ci, c in enumerate(LIVE):
        f = [x for i, x in enumerate(s + w) if thorough or c == "cpu" or x[0] + 2 * x[1] <= 8 or (i + ci) % 6 == 0]
        n = 16 if c == "cpu" else 10 if not thorough else 16
        for k in range(n):
            g = f[k::n]
            if g:
                fm = " ".join(f"FMT({lf},{rt})" for lf, rt in g)
                r.append(Prog(f"fixp{k}", c, [Obj(H + "/fixp_kern.cpp", c, f"'-DFORMATS={fm}'" + (" -DWITH_SCALARS" if c == "cpu" else ""), opt="-O2" if thorough else "-O0")], timeout=800))
    return r


CHECKS["P12"] = dict(progs=p12, assumptions=[X86, "trusted: 128-bit integer arithmetic of the compiler as the exact model"], bounds=("All 56 formats lf+2rt <= 16 and the boundary formats of 32- and 64-bit storage; every operation of the scalar and pack forms; all raw values (all pairs up to 8 value bits; all values against a boundary set up to 12 value bits), a structural alphabet beyond; several lane rotations; every format on cpu and in at least one vector configuration.",
    "every format in every configuration, all pairs up to 10 value bits, all values against a 64-element set up to 16 value bits, every lane."))


def sleef(b, c):
    """the bundled SLEEF the way scripts/build.nsconfig compiles it for a configuration"""
    base = f"gcc -fPIC -O2 -DNDEBUG -DDORENAME=1 -w -I{b.dir}/src -I{b.dir}/include"
    o = [Obj(f"{b.dir}/src/{f}.c", raw=base) for f in ("rempitab", "sleefsp", "sleefdp")]
    ext, fl = {"cpu": ("", ""), "sse2": ("SSE2", "-DENABLE_SSE2=1 -msse2"), "sse42": ("SSE42", "-DENABLE_SSE4=1 -msse4.2"),
               "avx": ("AVX", "-DENABLE_AVX=1 -mavx"), "avxf": ("AVX", "-DENABLE_AVX=1 -mavx"),
               "avx2": ("AVX2", "-DENABLE_AVX2=1 -mavx2 -mfma"), "avx2p": ("AVX2", "-DENABLE_AVX2=1 -mavx2 -mfma"),
               "knl": ("AVX512_KNL", "-DENABLE_AVX512F=1 -mavx512f"), "sky": ("AVX512_SKYLAKE", "-DENABLE_AVX512F=1 -mavx512f")}[c]
    if ext:
        o += [Obj(f"{b.dir}/src/sleefsimd{p}.c", raw=f"{base} {fl} -DNSIMD_{ext}") for p in ("sp", "dp")]
    return o


def mathops():
    import re
    t = open(H + "/math_list.h").read()
    return re.findall(r"X\((\w+_?\w*)\)", t.split("MATH2")[0]), re.findall(r"X\((\w+)\)", t.split("MATH2")[1])


def p08(b, thorough):
    r = []
    for c in LIVE:
        r.append(Prog("math", c, [Obj(H + "/math_kern.cpp", c, f"-fPIC -fvisibility=hidden -DCFG={c}")] + sleef(b, c), shared=True))
    so = lambda t: " ".join(f"{b.dir}/math_{c}.so" for c in LIVE if t == 0 or c not in ("avxf", "avx2p"))
    one, two = mathops()
    runs = []
    for t in (2, 1, 0):
        for op in two + one:
            n = 1 if not thorough or t == 0 else 16
            runs += [f"--op {op} --type {t} --shard {i} {n} {so(t)}" for i in range(n)]
    r.append(Prog("mathdrv", LIVE[0], [Obj(H + "/math_main.cpp", std="-std=c++17", internal=True)], runs, lib=False, link="-ldl", timeout=3000 if thorough else 600))
    return r


CHECKS["P08"] = dict(progs=p08, technique="exhaustive enumeration of operands (all 16-bit values; all exponents with leading mantissa bits of wider types; all pairs of alphabets), every function of every configuration executed and compared with a reference of higher precision", assumptions=[X86, "trusted: the C library's double (for f16, f32) and x87 extended (for f64) functions as the reference"],
    bounds=("Every elementary function x f16/f32/f64 x configuration: all 65536 f16 values; all f32 signs and exponents with 12 leading mantissa bits and f64 with 8 (14 for exponents -12..11), lower bits zero, one or patterned; neighbourhoods of multiples of pi/4, of 1/2, of thresholds; binary functions on all pairs of 1000 (f16) / 1800 values; each in two lane arrangements.",
    "all 2^32 f32 values of unary functions; f64 with 16 (21) bits; pairs of 12000 values; all f16 values against 1000."))


def p09(b, thorough):
    groups = [("ONE(i8) ONE(u8) ONE(i16) ONE(u16)", 0), ("ONE(i32) ONE(u32) ONE(i64) ONE(u64)", 0), ("ONE(f16) ONE(f32) ONE(f64)", 1)]
    r = []
    for ci, c in enumerate(LIVE):
        std = ("-std=c++11", "-std=c++20")[ci % 2]
        o = [Obj(H + "/api_main.cpp", std="-std=c++17", internal=True)]
        for i, (t, f) in enumerate(groups):
            fl = f"-DGROUP={i} -DFLOATS={f} '-DTYPES={t}'"
            o += [Obj(H + "/api_kern.cpp", c, fl, std=std, opt="-O0"), Obj(H + "/capi_kern.c", c, fl, std="-std=c11", cc="gcc", opt="-O0")]
        r.append(Prog("api", c, o + sleef(b, c), [f"--part {i} 3" for i in range(3)], timeout=800))
    return r


CHECKS["P09"] = dict(progs=p09, technique="exhaustive enumeration of operand tuples through every programming interface, each execution compared lane by lane with the C++ base interface", assumptions=[X86],
    bounds=("Every operation (arithmetic, logic, shifts, comparisons, selection, conversions, mathematical functions, memory and horizontal operations) x 11 types x 9 configurations through the C macros, the C11 generic macros and packs of 1, 2, 3 registers (named, operator, compound assignment, vector/scalar, scalar/vector; C++11 or C++20); all pairs (triples of a sub-alphabet) of the structural alphabet in every lane (64 rotations above 64 lanes); all masks for up to 8 lanes, single-bit, prefix and alternating masks beyond.",
    "level-1 alphabet pairs, full triples, every rotation, all masks up to 14 lanes."))


def p15(b, thorough):
    groups = [("ONE(i8) ONE(u8) ONE(i16) ONE(u16)", 0), ("ONE(i32) ONE(u32) ONE(i64) ONE(u64)", 0), ("ONE(f16) ONE(f32) ONE(f64)", 1)]
    r = []
    for c in LIVE:
        o = [Obj(H + "/reent_main.cpp", std="-std=c++17", internal=True, flags="-mno-red-zone"), Obj(H + "/reent_kern.cpp", c, opt="-O0")]
        for i, (t, f) in enumerate(groups):
            o.append(Obj(H + "/api_kern.cpp", c, f"-DBASE_ONLY -DGROUP={i} -DFLOATS={f} '-DTYPES={t}'", opt="-O0"))
        if c == "cpu":  # the scalar functions are the same everywhere
            o += [Obj(H + "/kv_kern.cpp", c, f"-DGROUP={i}", opt="-O0") for i in range(3)]
        n = 8 if thorough else 2
        r.append(Prog("reent", c, o + sleef(b, c), [f"--part {i} {n}" for i in range(n)], link="-static", timeout=3000 if thorough else 800))
    return r


CHECKS["P15"] = dict(progs=p15, technique="exhaustive enumeration of preemption points: every operation's machine code is stopped before each instruction (single stepping and breakpoints) and other operations run to completion there; all ordered pairs of calls",
    assumptions=[X86, "a preemption is followed by complete calls of other operations (one level); results are judged against the same operation alone in a fresh process"],
    bounds=("Every operation of the base interface, scalar functions, half conversions, generators, fixed point, array expressions and an SPMD kernel (about 1200 per configuration, 9 configurations), three operand sets: all ordered pairs of calls; every instruction of the call (first 2 executions of each instruction in a loop) preempted by complete calls of the same operation on other operands and 6 others in rotation; three fillings of registers and dead stack; floating-point control words compared.",
    "64 executions of each instruction, 40 other operations per preemption."))


EXTNAME = {"knl": "avx512_knl", "sky": "avx512_skylake", "avxf": "avx", "avx2p": "avx2"}


def p16(b, thorough):
    return [Prog("put", c, [Obj(H + "/put_kern.cpp", c), Obj(f"{b.dir}/src/api_{EXTNAME.get(c, c)}.cpp", c)], timeout=800) for c in LIVE]


CHECKS["P16"] = dict(progs=p16, technique="exhaustive fault injection: each print of an enumerated vector is repeated with the stream failing at every byte; text and returned length compared with an independent model", assumptions=[X86, "trusted: the C library's formatted output"],
    bounds=("11 element types and their logicals x 9 configurations x 4 forms x default and 7 formats; every power of two, neighbour, complement and pattern in every lane; three buffering modes; a write failure at every byte of the text for every 16th (40th) vector.",
    "failures at every byte for every vector."))
