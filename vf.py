#!/usr/bin/env python3
"""Check runner: python3 vf.py <property> [--thorough] [--only KEY --config CFG] [--keep]

Stages /repo's current working tree (egg, include, src) into a scratch
directory, runs the code generator there, compiles the harness of the property
against it in every SIMD configuration this machine can execute, runs the
exhaustive explorations and decides the property.  Exit 0: held on everything
explored.  Exit 1 + VIOLATION line: violated (confirmed by a replay).
Exit 2: the check itself could not run."""
import sys, os, re, subprocess, tempfile, shutil, json, time, hashlib, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
H = VERIF + "/harness"
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
NPROC = max(2, os.cpu_count() or 4)
AVX512F = "avx512f avx512cd fma f16c"
CONFIGS = {  # name: (flags, cpu features)
    "cpu": ("-DCPU", ""),
    "sse2": ("-DSSE2 -msse2", "sse2"),
    "sse42": ("-DSSE42 -msse4.2", "sse4_2"),
    "avx": ("-DAVX -mavx", "avx"),
    "avxf": ("-DAVX -mavx -DFP16 -mf16c", "avx f16c"),
    "avx2": ("-DAVX2 -mavx2 -mfma -DFP16 -mf16c -DFMA", "avx2 fma f16c"),
    "avx2p": ("-DAVX2 -mavx2", "avx2"),
    "knl": ("-DAVX512_KNL -mavx512f -mavx512pf -mavx512er -mavx512cd -mfma -DFP16 -mf16c", AVX512F),
    "sky": ("-DAVX512_SKYLAKE -mavx512f -mavx512dq -mavx512cd -mavx512bw -mavx512vl -mfma -DFP16 -mf16c", AVX512F + " avx512dq avx512bw avx512vl"),
}
# the code of 32-bit x86, where emulations of 64-bit elements differ (w32.h)
for c in ("sse2", "sse42", "avx", "avx2p", "knl", "sky"):
    CONFIGS[c.rstrip("p") + "w"] = (CONFIGS[c][0] + f" -fsanitize=bounds -fsanitize-undefined-trap-on-error -include {H}/w32.h", CONFIGS[c][1])
CPUFEAT = set()
try:
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            CPUFEAT = set(l.split(":")[1].split())
            break
except OSError:
    pass
RUNS = [c for c, (f, need) in CONFIGS.items() if all(n in CPUFEAT for n in need.split())]
LIVE = [c for c in RUNS if c[-1] != "w"]
W32 = [c for c in RUNS if c[-1] == "w"]
if not LIVE:
    LIVE = ["cpu", "sse2"]


# gcc 13.3's ipa-modref drops live stores around nested aggregates of vectors
# (see DESIGN.md); the pass is switched off for code that includes nsimd
NOMODREF = "-fno-ipa-modref"


class CheckError(Exception):
    pass


class Obj:
    """one translation unit"""
    def __init__(self, src, cfg=None, flags="", std="-std=c++11", cc="g++", opt="-O2", internal=False, raw=None):
        self.src, self.cfg, self.flags, self.std, self.cc, self.opt, self.internal, self.raw = src, cfg, flags, std, cc, opt, internal, raw

    def cmd(self, b, out):
        cf = CONFIGS[self.cfg][0] if self.cfg else "-DCPU"
        if self.raw:
            return f"{self.raw} -c {self.src} -o {out}"
        if self.internal:  # driver side: never includes nsimd
            return f"{self.cc} {self.opt} {self.std} -ffp-contract=off -w -I{H} {self.flags} -c {self.src} -o {out}"
        return f"{self.cc} {self.opt} {NOMODREF} -DNDEBUG {self.std} -w -I{b.dir}/include -I{H} -I{b.dir}/gen {cf} {self.flags} -c {self.src} -o {out}"


class Prog:
    def __init__(self, name, cfg, objs, args="", lib=True, link="", timeout=700, env=None, shared=False):
        self.name, self.cfg, self.objs, self.args, self.lib, self.link, self.timeout, self.env = name, cfg, objs, args, lib, link, timeout, env
        self.runs = args if isinstance(args, list) else [args]
        self.shared = shared
        if shared:
            self.runs = []


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf_", dir=os.environ.get("VF_TMP", "/var/tmp"))
        self.ex = ThreadPoolExecutor(NPROC)
        self.objs = {}

    def clean(self):
        self.ex.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def stage(self):
        for d in ("egg", "include", "src"):
            shutil.copytree(f"{REPO}/{d}", f"{self.dir}/{d}", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        os.makedirs(self.dir + "/gen", exist_ok=True)
        r = subprocess.run(["python3", "-B", "egg/hatch.py", "-lf"], cwd=self.dir, env=dict(os.environ, PYTHONHASHSEED="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode:
            raise CheckError("code generation failed:\n" + r.stdout.decode(errors="replace")[-2000:])

    def libobjs(self):
        return [Obj(f"{self.dir}/src/{f}.cpp", opt="-O2 -fPIC") for f in ("gpu", "ufp", "fp16", "memory")]

    def compile_all(self, progs):
        jobs = {}
        for p in progs:
            if p.lib:
                p.objs = p.objs + self.libobjs()
            p.files = []
            for o in p.objs:
                c = o.cmd(self, "@OUT@")
                out = f"{self.dir}/o_{hashlib.sha1(c.encode()).hexdigest()[:16]}.o"
                jobs[out] = c.replace("@OUT@", out)
                p.files.append(out)
        # biggest sources first
        order = sorted(jobs.items(), key=lambda kv: ("kern" not in kv[1], kv[1]))
        fails = []

        def one(kv):
            out, c = kv
            for attempt in (0, 1):
                try:
                    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                    if r.returncode == 0:
                        return None
                    msg = r.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    msg = "compiler timeout"
            return (c, msg)
        for f in self.ex.map(one, order):
            if f:
                fails.append(f)
        if fails:
            return fails
        lfails = []

        def link(p):
            p.exe = f"{self.dir}/{p.name}_{p.cfg}" + (".so" if p.shared else "")
            c = f"g++ {'-shared -Wl,-Bsymbolic -Wl,-z,defs' if p.shared else ''} {' '.join(p.files)} -o {p.exe} {p.link}"
            r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return (c, r.stdout.decode(errors="replace"))
        for f in self.ex.map(link, progs):
            if f:
                lfails.append(f)
        return lfails


def parse(out):
    r = {"bad": [], "samples": [], "cnt": {}, "end": False}
    for l in out.splitlines():
        if l.startswith("BAD case="):
            k = l[9:].split(" ", 1)
            r["bad"].append((k[0], k[1] if len(k) > 1 else ""))
        elif l.startswith("SAMPLE "):
            r["samples"].append(l[7:])
        elif l.startswith("COUNT "):
            r["end"] = True
            for kv in l.split()[1:]:
                k, v = kv.split("=")
                r["cnt"][k] = r["cnt"].get(k, 0) + int(v)
    return r


def run_prog(p, args, extra="", timeout=None):
    c = f"{p.exe} {args} {extra}"
    env = dict(os.environ)
    env.update(p.env or {})
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout or p.timeout, env=env, cwd=os.path.dirname(p.exe))
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")


def known(prop):
    d = {}
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"KNOWN-FINDING: property=(\w+) case=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                d[m.group(2)] = m.group(3)
    except OSError:
        pass
    return d


def violation(prop, text, detail):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    path = f"{VERIF}/evidence/replay-{prop}.txt"
    with open(path, "w") as f:
        f.write(text + "\n\n" + detail + "\n")
    print(text)
    print(f"VIOLATION property={prop} replay={path}")


def main():
    sys.modules["vf"] = sys.modules["__main__"]
    import checks
    t0 = time.time()
    a = sys.argv[1:]
    prop = a[0]
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    only = a[a.index("--only") + 1] if "--only" in a else None
    ocfg = a[a.index("--config") + 1] if "--config" in a else None
    if ocfg:
        W32[:] = [c for c in W32 if c == ocfg]
        LIVE[:] = [c for c in LIVE if c == ocfg] or ([] if W32 else LIVE)
    tier = "thorough" if thorough else "quick"
    spec = checks.CHECKS[prop]
    b = Build()
    viol, cnt, samples, runs, skipped, kf = [], {}, [], 0, [], {}
    notes = []
    try:
        b.stage()
        t1 = time.time()
        progs = spec["progs"](b, thorough)
        fails = b.compile_all(progs)
        if fails:
            for c, m in fails:
                print(m[-1500:], file=sys.stderr)
            diag = [(c, m) for c, m in fails if re.search(r"\berror:|undefined reference", m)]
            if not diag:
                raise CheckError("cannot compile the harness: " + fails[0][0])
            c, m = diag[0]
            e = next((l for l in m.splitlines() if "error:" in l or "undefined reference" in l), "")
            violation(prop, f"a program using only the documented interface no longer compiles: {e.strip()[:300]}", f"command: {c}\n\n{m[-6000:]}")
            viol.append(("compile", e))
        else:
            t2 = time.time()
            known_map = known(prop)
            work = [(p, r) for p in progs for r in p.runs]
            fut = [(p, r, b.ex.submit(run_prog, p, r, f"--only '{only}'" if only else ("--thorough" if thorough else ""))) for p, r in work]
            for p, r, f in fut:
                rc, out, err = f.result()
                res = parse(out)
                for k, v in res["cnt"].items():
                    cnt[k] = cnt.get(k, 0) + v
                runs += 1
                for s in res["samples"][:3]:
                    samples.append(f"{p.name}/{p.cfg}: {s}")
                if rc == 44:
                    skipped.append(f"{p.name}/{p.cfg}")
                    continue
                if rc == "timeout" and not res["bad"]:
                    notes.append(f"{p.name}/{p.cfg} {r}: time limit {p.timeout}s reached")
                    rc2, out2, err2 = run_prog(p, r, "--thorough" if thorough else "", timeout=p.timeout)
                    if rc2 == "timeout":
                        raise CheckError(f"{p.name}/{p.cfg} did not finish within {p.timeout}s")
                    rc, res = rc2, parse(out2)
                if rc not in (0, 43, "timeout") or (rc == 0 and not res["end"]):
                    # unexpected exit: one more try decides
                    rc2, out2, err2 = run_prog(p, r, "--thorough" if thorough else "")
                    res = parse(out2)
                    if rc2 == 0 and not res["end"]:
                        res["bad"].append(("crash", f"the program ended before its last step: {out2[-200:]} {err2[-200:]}"))
                    elif rc2 not in (0, 43):
                        if isinstance(rc2, int) and rc2 < 0 and rc2 != -9:
                            res["bad"].append(("crash", f"process ended by signal {-rc2}: {err2[-300:]}"))
                        else:
                            raise CheckError(f"{p.name}/{p.cfg} exit {rc2}: {err2[-800:]}")
                    rc = rc2
                seen = {}
                for k, dsc in res["bad"]:
                    seen.setdefault(k, dsc)
                for k, dsc in seen.items():
                    if k in known_map:
                        kf[k] = known_map[k]
                        continue
                    if len(viol) >= 5:
                        continue
                    # replay the single case in isolation
                    if k != "crash":
                        rc3, out3, err3 = run_prog(p, r, ("--thorough " if thorough else "") + f"--only '{k}'")
                        rb = [x for x in parse(out3)["bad"] if x[0] == k]
                        if not rb:
                            notes.append(f"{p.name}/{p.cfg} case {k} not reproduced in isolation")
                            rc4, out4, err4 = run_prog(p, r, "--thorough" if thorough else "")
                            if not [x for x in parse(out4)["bad"] if x[0] == k]:
                                continue
                    viol.append((k, dsc))
                    if len(viol) == 1:
                        violation(prop, f"{p.name}/{p.cfg} case {k}: {dsc}",
                                  f"replay: python3 {VERIF}/vf.py {prop} {'--thorough ' if thorough else ''}--config {p.cfg} --only '{k}'\n\n" + "\n".join(f"{x} {y}" for x, y in res["bad"][:40]))
            extra = spec.get("post")
            if extra and not only:
                extra(b, thorough, cnt, samples, viol, prop)
        for k, v in kf.items():
            print(f"KNOWN-FINDING: property={prop} {v} [case {k}]")
        if not viol and not fails and cnt.get("traces", 0) == 0 and not only:
            raise CheckError("nothing was explored")
    except CheckError as e:
        print("check error:", e, file=sys.stderr)
        return 2
    finally:
        b.clean()
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
        "coverage": {
            "states": cnt.get("states", 0), "transitions": cnt.get("trans", 0),
            "traces_validated_against_impl": cnt.get("traces", 0),
            "distinct_outcomes": cnt.get("distinct", 0),
            "exhaustive": not skipped and not notes,
            "bounds": spec["bounds"][1 if thorough else 0],
            "counting": "states: operand tuples / programs / histories of the reference model enumerated (per configuration); transitions: implementation steps executed and compared; traces: separate runs of the real code compared with the model; distinct_outcomes: distinct expected results seen (capped per process)",
            "configurations": LIVE + [c for c in W32 if any(p.cfg == c for p in progs)], "programs_run": runs, "skipped": skipped, "notes": notes,
            "samples": samples[:12],
        },
        "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": len(viol),
    }
    if not only and not ocfg:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: states={cnt.get('states',0)} transitions={cnt.get('trans',0)} traces={cnt.get('traces',0)} outcomes={cnt.get('distinct',0)} configs={','.join(LIVE + [c for c in W32 if any(p.cfg == c for p in progs)])} violations={len(viol)} wall={wall:.1f}s")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
