"""Build the checkers from the current /repo sources in a scratch directory, run obligations in parallel,
report violations with replay files, write evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
T = REPO + "/src/thunder"
CAS = "/opt/thunder_deps/py/casadi"
JOBS = int(os.environ.get("VF_JOBS", "8"))
LINK = ["-lcasadi", "-Wl,-rpath," + CAS, "-lyaml-cpp", "-lgmpxx", "-lgmp", "-ldl"]
REPO_SRC = sorted(f[:-4] for f in os.listdir(T + "/src") if f.endswith(".cpp"))

class BuildError(Exception):
    """kind "repo": a source of the repository does not compile on its own; "harness": the checker cannot be built against it"""
    def __init__(self, msg, kind="harness"): super().__init__(msg); self.kind = kind

class Scratch:
    def __init__(self, tag):
        self.d = tempfile.mkdtemp(prefix="vf-%s-" % tag, dir="/tmp")
        self.env = dict(os.environ)
        for k, v in (("CPLUS_INCLUDE_PATH", CAS + "/include"), ("LIBRARY_PATH", CAS)):
            self.env[k] = v + (":" + self.env[k] if self.env.get(k) else "")
        self.t0 = time.time()
        self.log = {}; self.symfail = []
        self.pool = cf.ThreadPoolExecutor(JOBS); self.wide = cf.ThreadPoolExecutor(64); self.sem = threading.Semaphore(JOBS)
    def path(self, *a): return os.path.join(self.d, *a)
    def write(self, rel, text):
        p = self.path(rel); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(text); return p
    def run(self, cmd, timeout=600, cwd=None, inp=None, env=None):
        e = dict(self.env); e.update(env or {})
        p = subprocess.Popen(cmd, cwd=cwd or self.d, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, er = p.communicate(inp.encode() if inp is not None else None, timeout=timeout)
            return p.returncode, o.decode(errors="replace"), er.decode(errors="replace")
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            o, er = p.communicate()
            return None, o.decode(errors="replace"), er.decode(errors="replace")
    def compile(self, src, obj, flags=(), opt="-O1"):
        inc = [] if any(f.startswith("-I") for f in flags) else ["-I" + T + "/library"]
        cmd = ["g++", "-std=c++17", opt, "-w", *flags, *inc, "-c", src, "-o", self.path(obj)]
        os.makedirs(os.path.dirname(self.path(obj)), exist_ok=True)
        rc, o, e = self.run(cmd)
        if rc != 0: raise BuildError("%s does not compile:\n%s" % (src, e[-4000:]), "repo" if src.startswith(REPO + "/") and "-include" not in flags else "harness")
        return self.path(obj)
    def link(self, objs, exe, extra=()):
        rc, o, e = self.run(["g++", *extra, *[self.path(x) for x in objs], "-o", self.path(exe), *LINK])
        if rc != 0: raise BuildError("%s does not link:\n%s" % (exe, e[-4000:]))
        return self.path(exe)
    def parallel(self, thunks):
        fs = [self.pool.submit(t) for t in thunks]
        err = None
        for f in fs:
            try: f.result()
            except BuildError as ex: err = err or ex
        if err: raise err
    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True); self.wide.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VF_KEEP"): shutil.rmtree(self.d, ignore_errors=True)
        else: print("kept " + self.d, file=sys.stderr)

def eng(s, names=("vf", "report", "vf_casadi")):
    return [lambda n=n: s.compile(VERIF + "/engine/%s.cpp" % n, "e/%s.o" % n, opt="-O2") for n in names]
def native(s, names=REPO_SRC):
    return [lambda n=n: s.compile(T + "/src/%s.cpp" % n, "r/%s.o" % n) for n in names]

def build_vmodel(s):
    s.parallel([lambda: s.compile(VERIF + "/harness/model.cpp", "model.o"), lambda: s.compile(VERIF + "/harness/inv_stub.cpp", "inv_stub.o")] + native(s) + eng(s))
    s.link(["model.o", "inv_stub.o"] + ["e/%s.o" % n for n in ("vf", "report", "vf_casadi")] + ["r/%s.o" % n for n in REPO_SRC], "vmodel", ["-rdynamic"])

POISON = "-ftrivial-auto-var-init=pattern"
class SymUnavailable(Exception): pass
def sym_prepare(s):
    """precompiled prelude (outside headers, then `double` replaced) and the engine"""
    if getattr(s, "symready", False): return
    os.makedirs(s.path("pch"), exist_ok=True)
    for f in ("prelude.hpp", "sym.hpp"): shutil.copy(VERIF + "/engine/" + f, s.path("pch", f))
    def pch():
        rc, o, e = s.run(["g++", "-std=c++17", "-O0", "-w", POISON, "-x", "c++-header", s.path("pch/prelude.hpp"), "-o", s.path("pch/prelude.hpp.gch")])
        if rc != 0: raise BuildError("prelude: " + e[-2000:])
    s.parallel([pch] + eng(s, ("vf", "report", "vf_casadi", "sym")) + [lambda: s.compile(VERIF + "/engine/scen_native.cpp", "e/scen_native.o", flags=("-I" + VERIF + "/engine",)),
               lambda: s.compile(VERIF + "/engine/poison.cpp", "e/poison.o")])
    s.symready = True
def sym_objs(s, src, obj, flags=()):
    """the two builds of one source: symbolic (S_) and native (N_)"""
    inc = ("-I" + T + "/library", "-I" + VERIF + "/harness", "-I" + VERIF + "/engine")
    def S():
        try: s.compile(src, "s/S_%s.o" % obj, (*flags, *inc, POISON, "-include", s.path("pch/prelude.hpp")), opt="-O0")
        except BuildError as ex: s.symfail.append(str(ex))
    return [S, lambda: s.compile(src, "s/N_%s.o" % obj, (*flags, *inc, POISON), opt="-O1")]
def sym_link(s, objs, exe):
    """S_<exe> and N_<exe>; raises SymUnavailable when only the ordinary build works"""
    if not s.symfail:
        try: s.link(["s/S_%s.o" % o for o in objs] + ["e/%s.o" % n for n in ("sym", "vf", "report", "vf_casadi", "poison")], "S_" + exe, ["-Wl,--wrap=malloc"])
        except BuildError as ex: s.symfail.append(str(ex))
    s.link(["s/N_%s.o" % o for o in objs] + ["e/scen_native.o", "e/poison.o"], "N_" + exe, ["-Wl,--wrap=malloc"])
    if s.symfail: raise SymUnavailable(s.symfail[0])
def sym_task(s, exe, label, args, files=(), **k):
    return Task(label, [s.path("S_" + exe), *args], files=files, env={"VF_NATIVE": s.path("N_" + exe), "VF_DATA": s.path("cfg"), "VF_LABEL": label}, crash_is_violation=False, **k)
def build_rigid_gen(s):
    """the copy of the rigid-body helpers kept by the URDF tool"""
    g = REPO + "/src/genYAML"
    sym_prepare(s)
    fl = ("-I" + g + "/library",)
    src = sorted(f[:-4] for f in os.listdir(g + "/src") if f.endswith(".cpp"))
    s.parallel([t for n in src for t in sym_objs(s, g + "/src/%s.cpp" % n, "urdf_" + n, fl)] + sym_objs(s, VERIF + "/harness/rigid_gen.cpp", "rigid_gen", fl))
    sym_link(s, ["urdf_" + n for n in src] + ["rigid_gen"], "rigid_gen")
def build_urdf_tool(s):
    """the URDF tool with its main"""
    g = REPO + "/src/genYAML"; sym_prepare(s)
    fl = ("-I" + g + "/library", "-I" + g, '-DVF_MAIN_YAML="%s/main_YAML.cpp"' % g)
    src = sorted(f[:-4] for f in os.listdir(g + "/src") if f.endswith(".cpp"))
    s.parallel([t for n in src for t in sym_objs(s, g + "/src/%s.cpp" % n, "urdf_" + n, fl)] + sym_objs(s, VERIF + "/harness/urdf_tool.cpp", "urdf_tool", fl))
    sym_link(s, ["urdf_" + n for n in src] + ["urdf_tool"], "urdf_tool")
def build_robot(s):
    sym_prepare(s)
    s.parallel([t for n in REPO_SRC for t in sym_objs(s, T + "/src/%s.cpp" % n, n)] + sym_objs(s, VERIF + "/harness/robot_scen.cpp", "robot_scen"))
    sym_link(s, REPO_SRC + ["robot_scen"], "robot")

def build_cli(s):
    """the command line tool and the text handling of utils.cpp on symbolic strings: S_cli, N_cli, S_text, N_text"""
    c = VERIF + "/harness/cli/"; fail = []
    def comp(src, obj, flags):
        try: s.compile(c + src, obj, flags)
        except BuildError as ex: fail.append(str(ex))
    inc = ["-I" + T + "/library", "-I" + c, "-I" + VERIF + "/engine"]
    m = ['-DVF_MAIN="%s/thunder_main.cpp"' % T]; u = ['-DVF_UTILS="%s/src/utils.cpp"' % T, '-DVF_TEMPLATE="%s/thunder_robot_template"' % T, "-I" + c + "stub"]
    j = [("cli_main.cpp", "S_cli.o", m + inc), ("cli_main.cpp", "N_cli.o", m + inc + ["-DVF_NATIVE_STR"]), ("cli_text.cpp", "S_text.o", u + inc), ("cli_text.cpp", "N_text.o", u + inc + ["-DVF_NATIVE_STR"])]
    s.parallel(eng(s, ("vf", "report")) + [lambda a=a: comp(*a) for a in j])
    done = []
    for x in ("cli", "text"):
        try:
            s.link(["S_%s.o" % x, "e/vf.o", "e/report.o"], "S_" + x); s.link(["N_%s.o" % x], "N_" + x); done.append(x)
        except BuildError as ex: fail.append(str(ex))
    return done, fail

class GenFailure(Exception):
    """the generator fails, or what it generates does not compile, for a valid configuration"""
def build_vgen(s):
    s.parallel([lambda: s.compile(VERIF + "/harness/vgen.cpp", "vgen.o")] + native(s))
    s.link(["vgen.o"] + ["r/%s.o" % n for n in REPO_SRC], "vgen")
def generate(s, label, text, name, py=False, user=True):
    """runs the real generator; returns the function names"""
    d = "cfg/gen_" + label
    y = s.write("cfg/%s_gen.yaml" % label, text)
    rc, o, e = s.run([s.path("vgen"), y, name, s.path(d), T + "/thunder_robot_template", "1" if py else "0", str(int(user))], timeout=200)
    if rc != 0: raise GenFailure("the generator fails (%s): %s" % (rc, (o + e)[-800:]))
    return [l.split()[1] for l in open(s.path(d, "table.txt")) if l.startswith("fun ")]
def wrapgen(s, label, name, funs, names=()):
    L = ['#include "thunder_%s.h"' % name, "typedef thunder_%s Cls;" % name, "#define WRAP_FUNS(X) " + " ".join("X(%s)" % f for f in funs), "#define CPRE(n, suf) %s_##n##_fun##suf" % name, 'extern "C" {']
    for f in funs:
        b = "%s_%s_fun" % (name, f); w = " __attribute__((weak));"
        L += ["int %s(const double**, double**, long long*, double*, int)%s" % (b, w), "int %s_work(long long*, long long*, long long*, long long*)%s" % (b, w)]
        L += ["const long long* %s_sparsity_%s(long long)%s" % (b, k, w) for k in ("in", "out")] + ["long long %s_n_%s(void)%s" % (b, k, w) for k in ("in", "out")]
    L += ["}", "#define WRAP_NAMES(X) " + " ".join("X(%s)" % n for n in names)]
    s.write("cfg/gen_%s/wrapgen.hpp" % label, "\n".join(L) + "\n")
def build_wrap(s, label, name, text, py=False, model=False, fork_abs=False, priv=False, light=False):
    """generated library, generated class and scenarios of one robot: S_w_<label>, N_w_<label>"""
    d = s.path("cfg/gen_" + label); funs = generate(s, label, text, name, py, 2 if light else 1)
    C11 = () if fork_abs else ("-D__STDC_VERSION__=201112L",)
    inc = ("-I" + d, "-I" + T + "/library", "-I" + VERIF + "/harness", "-I" + VERIF + "/engine") + (("-I" + VERIF + "/harness/stub", "-DWRAP_PY") if py else ()) + (("-DWRAP_MODEL",) if model else ()) + (("-DWRAP_PRIV",) if priv else ()) + (("-DWRAP_LIGHT",) if light else ())
    o = {k: "w_%s_%s" % (label, k) for k in ("gen", "cls", "scen")}; fail = []
    def comp(src, obj, flags, sym, what):
        with s.sem:
            try: s.compile(src, "s/%s_%s.o" % ("S" if sym else "N", obj), (*flags, *inc, POISON, *(("-include", s.path("pch/prelude.hpp")) if sym else ())), opt="-O0")
            except BuildError as ex: fail.append((what, sym, str(ex)))
    gen, cls, scen = d + "/%s_gen.cpp" % name, d + "/thunder_%s.cpp" % name, VERIF + "/harness/wrap.cpp"
    wrapgen(s, label, name, funs)
    go = lambda *a: ts.append(s.wide.submit(comp, *a)); ts = []
    go(gen, o["gen"], C11, False, "gen"); go(cls, o["cls"], (), False, "cls")
    if not py: go(scen, o["scen"], (), True, "scen"); go(scen, o["scen"], (), False, "scen")
    else: go(VERIF + "/harness/pynames.cpp", "w_%s_names" % label, (), False, "stub")
    first = list(ts)
    go(gen, o["gen"], C11, True, "gen"); go(cls, o["cls"], (), True, "cls")
    for t in first: t.result()
    if py and not fail:   # names exposed to Python, as registered by the real module code
        try:
            s.link(["s/N_%s.o" % x for x in (o["gen"], o["cls"], "w_%s_names" % label)], "names_" + label, [])
            rc, out, e = s.run([s.path("names_" + label)], timeout=60)
            if rc != 0: raise BuildError("names: %s %s" % (rc, e[-500:]))
            wrapgen(s, label, name, funs, [n for n in out.split() if re.fullmatch(r"[A-Za-z_]\w*", n)])
            go(scen, o["scen"], (), True, "scen"); go(scen, o["scen"], (), False, "scen")
        except BuildError as ex: fail.append(("stub", False, str(ex)))
    for t in ts: t.result()
    bad = [f for f in fail if f[0] in ("gen", "cls") and not f[1]]
    if bad: raise GenFailure("the generated code does not compile: " + bad[0][2])
    if fail: raise SymUnavailable(fail[0][2])
    objs = list(o.values()) + (list(REPO_SRC) if model else [])
    try:
        s.link(["s/S_%s.o" % x for x in objs] + ["e/%s.o" % n for n in ("sym", "vf", "report", "vf_casadi", "poison")], "S_w_" + label, ["-Wl,--wrap=malloc"])
        s.link(["s/N_%s.o" % x for x in objs] + ["e/scen_native.o", "e/poison.o"], "N_w_" + label, ["-Wl,--wrap=malloc"])
    except BuildError as ex: raise SymUnavailable(str(ex))
    return funs

CONC_WRAP = ["-Wl,--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_guard_acquire", "__cxa_guard_release")]
def build_conc(s, label, name, text):
    """the class and library of one robot with recorded memory accesses: conc_<label>"""
    d = s.path("cfg/gen_" + label); funs = generate(s, label, text, name); wrapgen(s, label, name, funs)
    inc = ("-I" + d, "-I" + T + "/library"); fail = []
    def comp(src, obj, flags, what):
        with s.sem:
            try: s.compile(src, "s/%s_%s.o" % (obj, label), (*flags, *inc))
            except BuildError as ex: fail.append((what, str(ex)))
    ts = [s.wide.submit(comp, *a) for a in ((d + "/%s_gen.cpp" % name, "ct_gen", ("-fsanitize=thread",), "gen"), (d + "/thunder_%s.cpp" % name, "ct_cls", ("-fsanitize=thread",), "cls"), (VERIF + "/harness/conc.cpp", "ct_main", (), "main"))]
    for t in ts: t.result()
    bad = [f for f in fail if f[0] != "main"]
    if bad: raise GenFailure("the generated code does not compile: " + bad[0][1])
    if fail: raise SymUnavailable(fail[0][1])
    try: s.link(["s/ct_cls_%s.o" % label, "s/ct_gen_%s.o" % label, "s/ct_main_%s.o" % label, "e/conc_rt.o"] + ["e/%s.o" % n for n in ("report", "vf")], "conc_" + label, [*CONC_WRAP, "-pthread"])
    except BuildError as ex: raise SymUnavailable(str(ex))

class Task:
    """one harness process; prints JSON lines"""
    def __init__(self, label, cmd, timeout=120, files=(), weight=1, env=None, crash_is_violation=True):
        self.wrap = self.conc = None; self.label, self.cmd, self.timeout, self.files, self.weight, self.env, self.crash = label, cmd, timeout, list(files), weight, env, crash_is_violation

class Result:
    SUMS = ("obligations", "discharged", "violated", "inconclusive", "elements", "validated", "witnesses", "queries", "unsat", "sat", "unknown", "solver_s", "query_bytes")
    def __init__(self):
        self.sum = {k: 0 for k in self.SUMS}; self.functions = set(); self.viol = []; self.incon = []; self.notes = []; self.done = 0; self.tasks = 0; self.skipped = []; self.samples = []
    def add(self, task, rc, out, err):
        self.tasks += 1
        seen = set(); summ = None
        for l in out.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if not isinstance(j, dict): continue
            k = j.get("kind")
            if k == "summary":
                if summ is None: summ = j
                else:
                    for x in self.SUMS: summ[x] = summ.get(x, 0) + j.get(x, 0)
                    summ["functions"] = summ.get("functions", []) + j.get("functions", [])
            elif k == "violation":
                key = (j.get("config"), j.get("name"))
                if key not in seen: seen.add(key); j["task"] = task; self.viol.append(j)
            elif k == "inconclusive": self.incon.append({"task": task.label, "name": j.get("name"), "why": j.get("why")})
            elif k == "note": self.notes.append(j)
        if summ:
            self.done += 1
            for k in self.SUMS: self.sum[k] += summ.get(k, 0)
            self.functions.update(summ.get("functions", []))
            if len(self.samples) < 12: self.samples.append({"task": task.label, "obligations": summ.get("obligations"), "discharged": summ.get("discharged")})
        elif rc is None: self.incon.append({"task": task.label, "name": "task", "why": "time limit of %ds" % task.timeout})
        elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) and task.crash:
            self.viol.append({"config": task.label, "name": "crash", "what": "the code crashes on a valid input", "detail": "signal %d: %s" % (-rc, err[-600:]), "task": task})
        else: self.incon.append({"task": task.label, "name": "task", "why": "ended with %s: %s" % (rc, err[-300:])})

def run_tasks(s, tasks, res, deadline):
    tasks = sorted(tasks, key=lambda t: -t.weight)
    def one(t):
        left = deadline - time.time()
        if left < 5: return t, "skip", "", ""
        return (t,) + s.run(t.cmd, timeout=min(t.timeout, left), env=t.env)
    for f in [s.pool.submit(one, t) for t in tasks]:
        t, rc, o, e = f.result()
        if rc == "skip": res.skipped.append(t.label)
        else: res.add(t, rc, o, e)

def known_findings():
    p = VERIF + "/known-findings.jsonl"; o = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                j = json.loads(l)
                if j.get("status", "open") == "open": o.append(j)
    return o
def match(k, prop, v):
    if k["property"] != prop: return False
    for f, rx in k.get("match", {}).items():
        if not re.search(rx, str(v.get(f, ""))): return False
    return True

def finish(prop, tier, res, meta, wall):
    """prints the verdict, writes replay files and evidence; returns the exit code"""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings(); hit = {}; new = []
    for v in res.viol:
        k = next((x for x in known if match(x, prop, v)), None)
        if k is not None: hit[k["id"]] = k
        else: new.append(v)
    for k in known:
        if k["property"] == prop and k["id"] in hit: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    lines = []
    for i, v in enumerate(new[:20]):
        t = v.pop("task", None)
        rp = VERIF + "/evidence/replay/%s-%d.json" % (prop, i)
        d = dict(v); d["property"] = prop
        if t is not None:
            for k in ("wrap", "conc"):
                if getattr(t, k, None): d[k] = getattr(t, k)
            d["command"] = [os.path.basename(t.cmd[0])] + [str(c) for c in t.cmd[1:]]
            if t.env and any(k in t.env for k in ("VF_TOL", "VF_ENTRY")): d["env"] = t.env
            d["files"] = {os.path.basename(f): open(f).read() for f in t.files if os.path.exists(f)}
        d["how"] = "python3 /verif/check.py %s --replay %s" % (prop, rp)
        json.dump(d, open(rp, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        print("%s: %s [%s] %s" % (v.get("config"), v.get("name"), v.get("what"), str(v.get("detail"))[:300]))
    for l in lines: print(l)
    c = res.sum
    cov = {"explanation": "Solver-discharged obligations over the real code's symbolic execution. " + meta["explanation"],
           "obligations": c["obligations"], "discharged": c["discharged"], "inconclusive": len(res.incon), "matrix_elements": c["elements"],
           "solver_queries": c["queries"], "unsat": c["unsat"], "sat": c["sat"], "unknown": c["unknown"], "solver_seconds": round(c["solver_s"], 3), "query_bytes": c["query_bytes"],
           "encoding_validations": c["validated"], "vacuity_witnesses": c["witnesses"], "tasks": res.tasks, "tasks_completed": res.done, "tasks_not_started": res.skipped[:50],
           "functions_encoded": sorted(res.functions)[:200], "bounds": meta["bounds"], "samples": res.samples,
           "inconclusive_list": res.incon[:40], "known_findings_seen": sorted(hit)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(wall, 2), "violations": len(new)}
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d obligations, %d discharged, %d inconclusive, %d violations (%d known findings), %d solver queries (%.1f s), %d tasks, %.1f s" %
          (prop, tier, c["obligations"], c["discharged"], len(res.incon), len(new), len(hit), c["queries"], c["solver_s"], res.tasks, wall))
    return 1 if new else 0
