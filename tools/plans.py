"""Which configurations and bounds each check explores."""
import copy, itertools, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from configs import Robot, seqs
from runner import *

KIN = ["par_DHtable", "par_world2L0", "par_Ln2EE"]
DYNG = ["par_gravity", "par_DYN"]
ALL = ["par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity", "par_DYN", "par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

def name_of(types): return "".join({"R": "R", "P": "P", "R_SEA": "r", "P_SEA": "p"}[t] for t in types)

class Cfgs:
    """named configurations: (label, Robot, cost)"""
    def __init__(self): self.l = []
    def add(self, label, rob, cost=1, timeout=120): self.l.append((label, rob, cost, timeout)); return self

def full(types, **k): return Robot(types, seed=SEED, **k).select(ALL)
def dyn(types, seed=0, **k): return Robot(types, seed=SEED + seed, **k).select(DYNG)
R4 = ("R", "P", "R_SEA", "P_SEA")

def long_types(n, s): r = random.Random(SEED * 77 + s * 13 + n); return [r.choice(["R", "R", "P"]) for _ in range(n)]

def long_chain(n, rev, s, alphabet=("R", "P")):
    r = random.Random(SEED * 7919 + 31 * s + n); at = set(r.sample(range(n), rev))
    return [r.choice([a for a in alphabet if a[0] == ("R" if i in at else "P")]) for i in range(n)]

def model_cfgs(prop, thorough):
    c = Cfgs()
    kin_only = prop in ("P01", "P02", "P03")
    # every joint-type sequence up to 2 joints (rigid and elastic), every parameter free
    for n in (1, 2):
        for t in seqs(n, R4): c.add("full_" + name_of(t), full(t), n)
    # three joints
    for t in seqs(3):
        if prop in ("P01", "P02", "P04", "P05", "P06", "P07"): c.add("full_" + name_of(t), full(t), 9)
        elif prop == "P03": c.add("full_" + name_of(t), full(t), 12)
        elif prop == "P08" and thorough: c.add("full_" + name_of(t), full(t), 200, 700)
        c.add("dyn_" + name_of(t), dyn(t, angles="quarter"), 1)
    mx = 9 if thorough else 7
    for n in range(4, mx + 1):
        for s in range(4 if thorough else 2):
            if prop == "P08" and n > (7 if thorough else 5): continue
            t = long_types(n, s); c.add("dyn_%s_%d" % (name_of(t), s), dyn(t, seed=s), n * (6 if prop == "P08" else 1), 700 if thorough else 120)
    # more than ten joints, mostly prismatic so that the trigonometric degree stays low
    for k in range(3 if thorough else 1):
        for nr in [x for x in ((1, 2, 3, 4, 5, 6) if thorough else (2, 4, 5)) if prop != "P08" or x < (6 if thorough else 5)]:
            t = long_chain(11 + k, nr, k, R4); c.add("long_%s" % name_of(t), dyn(t, seed=20 + k), 12, 700 if thorough else 200)
    if thorough:
        for t in seqs(4): c.add("dynall_" + name_of(t), dyn(t, seed=5), 4, 300)
        for t in seqs(3, R4)[::3]: c.add("dyn3_" + name_of(t), dyn(t, seed=6), 2)
        if prop in ("P01", "P02"):
            for t in seqs(4): c.add("kin_" + name_of(t), Robot(t, seed=SEED).select(KIN + ["par_DYN"]), 40 if prop == "P02" else 3, 800)
    return c

def friction_cfgs(thorough):
    c = Cfgs()
    for n in ((1, 2, 3, 4, 5) if thorough else (1, 2, 3)):
        for o in ((0, 1, 2, 3, 4, 5, 6, 7) if thorough else (0, 1, 2, 3, 4)):
            t = long_types(n, o); c.add("fr_%s_%d" % (name_of(t), o), Robot(t, Dl=o, seed=SEED).select(["par_Dl"]), o)
    for k in range(12 if thorough else 4):
        t = long_types(3, k); c.add("frp_%s_%d" % (name_of(t), k), Robot(t, Dl=3, seed=SEED + k).select_random(0.5, ["par_Dl"]))
    for k in range(3 if thorough else 1): c.add("fr_long_%d" % k, Robot(long_chain(11 + 4 * k, 3, k), Dl=2 + k, seed=SEED).select(["par_Dl"]), 2)
    c.add("frn", Robot(["R", "P"], Dl=2, seed=SEED))
    return c

def elastic_cfgs(thorough):
    c = Cfgs()
    G = ["par_K", "par_D", "par_Dm", "par_Mm"]
    for n in ((1, 2, 3, 4) if thorough else (1, 2, 3)):
        for t in seqs(n, ("R", "R_SEA") if n > 2 else R4):
            if not any(x.endswith("SEA") for x in t): continue
            c.add("el_" + name_of(t), Robot(t, K=2, D=2, Dm=2, seed=SEED).select(G))
    for o in itertools.product((0, 1, 3) if not thorough else (0, 1, 2, 3, 4), repeat=3):
        c.add("elo_%d%d%d" % o, Robot(["R_SEA", "R", "P_SEA"], K=o[0], D=o[1], Dm=o[2], seed=SEED).select(G))
    for k in range(3 if thorough else 1): c.add("el_long_%d" % k, Robot(long_chain(12 + k, 4, k, R4), K=2 + k, D=1, Dm=2, seed=SEED).select(G), 2)
    for k in range(16 if thorough else 6):
        c.add("elp_%d" % k, Robot(["R", "R_SEA", "P_SEA"], K=2, D=2, Dm=2, Dl=1, seed=SEED + k).select_random(0.5))
    return c

def mask_cfgs(thorough, groups=None):
    """random and one-at-a-time selections"""
    c = Cfgs(); r = random.Random(SEED)
    for k in range(40 if thorough else 10):
        n = 1 + k % 3; t = [r.choice(["R", "P"]) for _ in range(n)]
        c.add("mask_%s_%d" % (name_of(t), k), Robot(t, Dl=k % 3, seed=SEED + k).select_random([0.15, 0.5, 0.85][k % 3], groups), 3 * n, 300)
    return c

def kreg_cfgs(thorough):
    c = Cfgs()
    for n in (1, 2):
        for t in seqs(n): c.add("full_" + name_of(t), full(t), n)
    for t in seqs(3): c.add("kin_" + name_of(t), Robot(t, seed=SEED).select_random(0.4, KIN), 5)
    if thorough:
        for t in seqs(3): c.add("full_" + name_of(t), full(t), 40, 700)
    # a single selected element, at every position
    t = ["R", "P"]
    for g, sz in (("par_DHtable", 8), ("par_world2L0", 6), ("par_Ln2EE", 6)):
        for i in range(sz):
            r = Robot(t, seed=SEED); r.m[g][i] = 1; c.add("one_%s_%d" % (g[4:], i), r)
    c.add("none", Robot(t, seed=SEED).select(["par_DYN"]))
    for k in range(30 if thorough else 8): c.add("kmask_%d" % k, Robot([["R", "P"], ["P", "R"], ["R", "R", "P"]][k % 3], seed=SEED + k).select_random(0.5, KIN), 3, 300)
    for k in range(30 if thorough else 10): n = 3 + k % 5; c.add("klong%d_%d" % (n, k), Robot([R4[R4.index(x) + 2 * ((k + i) % 3 == 0)] for i, x in enumerate(long_types(n, k))], seed=SEED + k, angles="quarter", K=1, D=0, Dm=0).select_random((0.3, 0.2, 0.15, 0.1, 0.08)[k % 5], KIN), 2, 300)
    for k in range(6 if thorough else 2): c.add("kchain_%d" % k, Robot(long_chain(11 + k // 2, 2 + k % 3, k, R4), seed=SEED + k, angles="quarter").select_random(0.08, KIN), 3, 300)
    return c

def select_cfgs(thorough):
    c = mask_cfgs(thorough)
    for t in seqs(2): c.add("full_" + name_of(t), full(t, Dl=2), 3)
    c.add("none_RP", Robot(["R", "P"], Dl=2, seed=SEED)); c.add("nomasks_RP", nomask(["R", "P"], Dl=2))
    # exactly one parameter of one group selected
    for g, i in (("par_DYN", 0), ("par_DYN", 13), ("par_DYN", 19), ("par_gravity", 1), ("par_Dl", 0), ("par_Dl", 3), ("par_DHtable", 6), ("par_world2L0", 4), ("par_Ln2EE", 2)):
        r = Robot(["R", "P"], Dl=2, seed=SEED); r.m[g][i] = 1; c.add("one_%s_%d" % (g[4:], i), r)
    # each group on its own
    for g in ALL[:6]: c.add("only_" + g[4:], Robot(["P", "R"], Dl=2, seed=SEED).select([g]), 2)
    for k in range(20 if thorough else 5): c.add("mixed_%d" % k, Robot([["R", "P", "R"], ["P", "R_SEA", "P_SEA"]][k % 2], Dl=1, K=2, D=1, Dm=2, seed=SEED + k).select_random(0.6, [g for g in ALL if g not in KIN] if k % 3 else None).unmask_random(0.4, k), 2)
    for k in range(12 if thorough else 4): c.add("elmask_%d" % k, Robot(["R_SEA", "P", "R_SEA"], K=2, D=1, Dm=2, Dl=1, seed=SEED + k).select_random(0.5, ["par_K", "par_D", "par_Dm", "par_Mm", "par_Dl", "par_DYN"]), 2)
    for k in range(18 if thorough else 6):
        n = 4 + k % 3; kin = k % 2
        c.add("selong%d_%d" % (n, k), Robot(long_types(n, k), Dl=k % 4, seed=SEED + k, angles="quarter").select_random(0.08 if kin else 0.3, None if kin else [g for g in ALL if g not in KIN]), 5, 300)
    for k in range(6 if thorough else 2): c.add("selchain_%d" % k, Robot(long_chain(11 + k // 2, 2, k, R4), Dl=2, K=1, D=2, Dm=1, seed=SEED + k, angles="quarter").select_random(0.3 if k % 2 else 0.05, [g for g in ALL if g not in KIN] if k % 2 else None), 5, 300)
    for k in range(8 if thorough else 2): c.add("ragged_%d" % k, ragged(Robot([["R", "P_SEA"], ["P", "R", "R_SEA"]][k // 2 % 2], Dl=2, K=2, D=1, Dm=3, seed=SEED + k).select_random(0.3), k), 2)
    return c
def ragged(r, k): r.ragged = ["short", "long"][k % 2]; return r
def nomask(t, **k): r = Robot(t, seed=SEED, **k); r.drop = {"masks"}; return r

class Shipped:
    """a robot that comes with the repository, as it is"""
    def __init__(self, file): self.file = file
    def text(self): return open(self.file).read()
SMALL = ("RRR/RRR", "RRR_sea/seaRRR", "testRobots/R3", "testRobots/R5"); SEVEN = ("franka/franka", "testRobots/R7"); NINE = ("testRobots/R9", "testRobots/R9_noDynSymb"); TOLD = ("frankaWrist/frankaWrist", "ego/egoRightArm"); EIGHT = ("bifrank/lewis", "bifrank/richard")
def shipped_tasks(s, prop, th):
    n = {"P08": SMALL, "P09": ("RRR_sea/seaRRR",) + SEVEN[:1] + TOLD, "P10": ("RRR_sea/seaRRR",) + TOLD}.get(prop, SMALL + SEVEN)
    if prop in ("P01", "P02", "P03", "P06"): n += NINE
    elif th and prop in ("P04", "P05"): n += NINE[1:]
    if prop in ("P01", "P02"): n += TOLD
    if prop == "P01": n += EIGHT
    o = []
    for x in n:
        f = REPO + "/src/thunder/robots/%s.yaml" % x
        if not os.path.exists(f): continue
        c = Cfgs().add("shipped_" + os.path.basename(x), Shipped(f), 15, 600 if th else 200); t = vmodel_tasks(s, prop, c)
        if prop in ("P01", "P02") and x in TOLD + EIGHT: t[0].env = {"VF_TOL": "1"}
        o += t
    return o

def vmodel_tasks(s, prop, cfgs, exe_prop=None, extra=()):
    tasks = []
    for label, rob, cost, to in cfgs.l:
        f = s.write("cfg/%s.yaml" % label, rob.text())
        tasks.append(Task(label, [s.path("vmodel"), exe_prop or prop, "cfg/%s.yaml" % label, *extra], timeout=to, files=[f], weight=cost))
    return tasks

TRUST = ["real numbers stand for floating point: rounding is outside the claim",
         "CasADi's symbolic operators and Eigen containers behave as documented (external dependencies)",
         "the term algebra that encodes the operations (validated against the real code at concrete points on every run)",
         "z3 5.3.2 decides the queries"]
MODEL_BOUND = "all sequences of 1-2 joints over {R,P,R_SEA,P_SEA} and of 3 joints over {R,P}, every value of all kinematic, gravity and inertial parameters, positions, rates; "

def run_model(prop, tier, s, res, deadline):
    th = tier == "thorough"
    build_vmodel(s)
    if prop == "P09": c = friction_cfgs(th)
    elif prop == "P10": c = elastic_cfgs(th)
    elif prop == "P11": c = kreg_cfgs(th)
    elif prop == "P13": c = select_cfgs(th)
    else: c = model_cfgs(prop, th)
    tasks = vmodel_tasks(s, prop, c)
    if prop in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10"): tasks += shipped_tasks(s, prop, th)
    if prop in ("P01", "P02", "P03", "P04", "P06"):
        g = Cfgs()
        for k in range(24 if th else 8):
            t = long_types(1 + k % {"P01": 4, "P06": 4, "P02": 3}.get(prop, 2), k); r = Robot(t, seed=SEED + 11 * k, angles="small"); g.add("generic_%s_%d" % (name_of(t), k), r if prop in ("P01", "P02", "P03") else r.select(["par_DYN", "par_gravity"]), 2)
        gt = vmodel_tasks(s, prop, g)
        for t in gt: t.env = {"VF_TOL": "1"}
        tasks += gt
    # the steps of the computation requested one by one, in another order, or twice
    e = Cfgs(); R2 = [["R", "P"], ["P", "R_SEA"], ["R", "P", "R"], ["R_SEA", "P_SEA", "R"]] if prop != "P10" else [["R", "P_SEA"], ["P", "R_SEA", "R_SEA"], ["R_SEA", "R", "P_SEA"], ["P_SEA"]]
    for k in range(16 if th else 8):
        t = R2[k // 4]; e.add("steps%d_%s" % (1 + k % 4, name_of(t)), full(t, Dl=2, K=1, D=2, Dm=1) if prop in ("P11", "P13") and k % 2 and len(t) < 3 else Robot(t, Dl=2, K=1, D=2, Dm=1, seed=SEED + k, angles="quarter").select_random(0.3 if prop == "P08" else 0.5, None if prop in ("P11", "P13") else DYNG + ["par_Dl", "par_K", "par_D", "par_Dm", "par_Mm"]), 2, 200)
    et = vmodel_tasks(s, prop, e)
    for t in et: t.env = {"VF_ENTRY": t.label.split("_")[0]}
    tasks += et
    if prop == "P03":
        f = s.write("cfg/pinv.yaml", Robot(["R"] * 12, seed=SEED).select(KIN).text())
        for k in ((1, 2, 3, 4, 5, 6, 7) if th else (1, 2, 3, 4, 5, 6)):
            n = 12 if k < 7 else 18
            f = s.write("cfg/pinv%d.yaml" % k, Robot(["R"] * n, seed=SEED).select(KIN).text())
            tasks.append(Task("pinv%d" % k, [s.path("vmodel"), "P03pinv", "cfg/pinv%d.yaml" % k, str(k)], files=[f], weight=20, timeout=200))
    run_tasks(s, tasks, res, deadline)
    return len(c.l)

BOUNDS = {
 "P01": MODEL_BOUND + "4-7 joints (quick) or 4-9 (thorough) with fixed quarter-turn geometry and free positions; chains of 11 (thorough 11-13) joints of which 2, 4 and 5 (thorough 1-6) turn",
 "P02": MODEL_BOUND + "4-7 joints (quick) or 4-9 (thorough) with fixed quarter-turn geometry and free positions and inertial parameters; chains of 11 (thorough 11-13) joints of which 2, 4 and 5 (thorough 1-6) turn",
 "P03": MODEL_BOUND + "4-7 (quick) or 4-9 (thorough) joints with fixed quarter-turn geometry; pseudo-inverse for every 6 x k Jacobian, k up to 6 (quick) or 7 (thorough); chains of 11 (thorough 11-13) joints of which 2, 4 and 5 (thorough 1-6) turn",
 "P04": MODEL_BOUND + "4-7 (quick) or 4-9 (thorough) joints with fixed quarter-turn geometry, free inertial parameters; chains of 11 (thorough 11-13) joints of which 2, 4 and 5 (thorough 1-6) turn",
 "P05": MODEL_BOUND + "4-7 (quick) or 4-9 (thorough) joints with fixed quarter-turn geometry, free inertial parameters; chains of 11 (thorough 11-13) joints of which 2, 4 and 5 (thorough 1-6) turn",
 "P06": MODEL_BOUND + "4-7 (quick) or 4-9 (thorough) joints with fixed quarter-turn geometry, free inertial parameters and gravity; chains of 11 (thorough 11-13) joints of which 2, 4 and 5 (thorough 1-6) turn",
 "P07": MODEL_BOUND + "4-7 (quick) or 4-9 (thorough) joints with fixed quarter-turn geometry, free inertial parameters and gravity; chains of 11 (thorough 11-13) joints of which 2, 4 and 5 (thorough 1-6) turn",
 "P08": "all sequences of 1-2 joints over {R,P,R_SEA,P_SEA} with every parameter free; 3 joints over {R,P} with free inertial parameters and gravity (thorough: every parameter free); 4-5 (thorough 4-7) joints with fixed quarter-turn geometry; chains of 11 (thorough 11-13) joints of which 2 and 4 (thorough 1-5) turn",
 "P09": "1-3 joints, orders 0-4 (quick) or 1-5 joints, orders 0-7 (thorough), every velocity and coefficient; sampled partial selections; a chain of 11 joints (thorough to 19)",
 "P10": "every rigid/elastic mix of 1-3 joints (thorough 1-4), orders {0,1,3}^3 (thorough 0-4) on a mixed robot, every coordinate and coefficient; sampled partial selections; a chain of 12 (thorough 12-14) joints of all types",
 "P11": "1-2 joints with every kinematic parameter selected (thorough 3), each single selected element of a two-joint robot, sampled selections of 2-7 joints (rigid and elastic) and of chains of 11 (thorough 11-13); every position, rate and wrench",
 "P13": "sampled selections of 1-3 joints (10 quick, 40 thorough), of 4-6 joints and of chains of 11 (thorough 11-13) joints, single-element and single-group selections, none, all and absent masks; every value of the selected parameters and of the state",
}

for p in BOUNDS: BOUNDS[p] += "; on small robots also with the computation steps requested one by one, in another order, and twice"

SHIP = {p: "; the robots shipped with the repository (" + t + ") with their own values and selections" for p, t in {"P01": "3-9 joints", "P02": "3-9 joints but bifrank", "P03": "3-9 joints of quarter-turn geometry", "P06": "3-9 joints of quarter-turn geometry", "P04": "3-7, thorough 3-9, joints of quarter-turn geometry", "P05": "3-7, thorough 3-9, joints of quarter-turn geometry", "P07": "3-7 joints of quarter-turn geometry", "P08": "3-5 joints of quarter-turn geometry", "P09": "those with friction", "P10": "those with elastic joints"}.items()}
for p, t in SHIP.items(): BOUNDS[p] += t
MODEL_EXPL = {
 "P01": "Each frame function of the model built by the real code is executed symbolically (CasADi's own instruction graph) and compared with the modified-DH product.",
 "P02": "Each Jacobian is compared with the derivative of the reference pose (position rows) and of the rotation (angular rows).",
 "P03": "Jacobian derivatives are compared with the total derivative of the reference Jacobian; the damped inverse is checked for an arbitrary Jacobian with CasADi's matrix inverse replaced by a stand-in that returns arbitrary values for the inverse of the recorded argument.",
 "P04": "M is compared with the kinetic-energy reference, checked symmetric, and checked positive semidefinite through an energy decomposition.",
 "P05": "C and C_std are compared with the Christoffel matrix of the reference M; Mdot - 2C is checked skew-symmetric.",
 "P06": "G is compared with the gradient of the reference potential energy.",
 "P07": "Regressors are compared column by column with the reference dynamics of unit bodies, and the identity Yr par = M ddqr + C dqr + G is checked.",
 "P08": "Derivative functions are compared with total derivatives of the reference M, C, G.",
 "P09": "Friction torque, per-order matrices and regressor are compared with the polynomial law; oddness and dissipation are separate obligations.",
 "P10": "Coupling and motor terms of each elastic joint are compared with the law of that joint; dissipation is a separate obligation.",
 "P11": "Kinematic regressors are compared with the derivatives of the reference J dq and J^T w.",
 "P13": "For each selection, every function's argument list is checked and its value compared with the fully symbolic reference with unselected parameters fixed."}
# ------------------------------------------------------------------ the model object (symbolic execution of robot.cpp, utils.cpp, genYaml.cpp, FrameOffset.cpp)
def robot_cfgs(th):
    """(label, Robot, computed?) : values written in the file are arbitrary where marked"""
    o = []
    def add(label, mk, both=True, which="all"):
        r = mk(); o.append((label + "_raw", r.tokens(which), 0))
        if both: r = mk(); o.append((label + "_model", r.tokens("selected"), 1))
    def sel(t, k=None, **a):
        r = Robot(t, seed=SEED, **a); return r.select(ALL) if k is None else r.select_random(k)
    add("RP", lambda: sel(["R", "P"], Dl=2)); add("R", lambda: sel(["R"], Dl=1)); add("P", lambda: sel(["P"]))
    add("rp", lambda: sel(["R_SEA", "P_SEA"], Dl=1, K=1, D=2, Dm=1))
    add("rPr", lambda: sel(["R_SEA", "P", "R_SEA"], 0.5, Dl=2, K=2, D=1, Dm=3)); add("Rp0", lambda: sel(["R", "P_SEA"], 0.5, K=0, D=0, Dm=0)); add("prK", lambda: sel(["P_SEA", "R_SEA"], 0.5, K=3, D=0, Dm=1))
    for k, d in enumerate((["gravity"], ["friction"], ["masks"], ["gravity", "friction", "masks"])):
        for j, t in enumerate((["R", "P"], ["P", "R_SEA", "P_SEA"])):
            def mk(extra=True):
                r = Robot(t, Dl=2, K=2, D=1, Dm=1, seed=SEED + k + j); r.drop = set(d); r.select_random(0.5); r.extra_links = (k + j) % 3; r.order = 2 * k + j + 1; return r
            add("drop%d%s" % (k, name_of(t)), mk)
            def z():
                r = mk()
                for g in r.v: r.v[g] = [0.0 if (i + k) % 2 and not (g == "par_DYN" and i % 10 == 0) else x for i, x in enumerate(r.v[g])]
                return r
            add("zero%d%s" % (k, name_of(t)), z, which="none")
    # masks present in some sections only
    for k, t in enumerate((["R", "P", "R"], ["R_SEA", "R", "P_SEA"], ["P", "R_SEA"])):
        add("mixmask%d" % k, lambda: sel(t, Dl=2, K=2, D=1, Dm=1).unmask("link%d" % (1 + k % 2), "fric%d" % (k % 2), "K1", ["kin", "gravity", "ee"][k]))
    # long chains: more than ten joints, elastic joints among them, higher orders
    for k in range(4 if th else 1):
        n = 12 + 3 * k; t = [R4[(i * i + k) % 4] if i % 3 else "R" for i in range(n)]
        def mk(): r = Robot(t, Dl=5, K=4, D=3, Dm=2, seed=SEED + 90 + k); r.select_random(0.5); r.extra_links = k % 2; r.order = k; return r
        add("long%d" % n, mk, both=False)
    # elastic joint types without the elastic model, the elastic model without elastic joints, sections of features that are off
    def idle(r): r.idle = True; return r
    add("rPoff", lambda: sel(["R_SEA", "P"], elastic=False, Dl=1)); add("RpRoff", lambda: idle(sel(["R", "P_SEA", "R"], 0.5, elastic=False)))
    add("PRon", lambda: sel(["P", "R"], elastic=True, K=1, D=1, Dm=2)); add("RPoff", lambda: idle(sel(["R", "P"])))
    add("RPRrR", lambda: sel(["R", "P", "R", "R_SEA", "R"], 0.5, Dl=1, K=1, D=1, Dm=1))
    # masks that are shorter or longer than their section
    for k in range(4 if th else 2): add("ragged%d" % k, lambda: ragged(sel([["R", "P_SEA"], ["P", "R"]][k // 2], 0.3, Dl=2, K=2, D=1, Dm=3), k))
    R = random.Random(SEED * 31)
    for k in range(40 if th else 6):
        n = 1 + k % (5 if th else 3); t = [R.choice(R4) for _ in range(n)]; o1, o2, o3, o4 = [R.randrange(0, 4) for _ in range(4)]
        def mk():
            r = Robot(t, Dl=o1, K=o2, D=o3, Dm=o4, seed=SEED + 50 + k); r.select_random([0.2, 0.5, 0.8][k % 3]); r.unmask_random(0.3 * (k % 2), k); r.extra_links = k % 2; r.order = k; return r
        add("rnd%d%s" % (k, name_of(t)), mk)
    return o

def run_robot(prop, tier, s, res, deadline):
    th = tier == "thorough"
    try: build_robot(s)
    except SymUnavailable as ex: res.incon.append({"task": "build", "name": "symbolic build", "why": str(ex)[:1500]}); return
    tasks = []; sc = prop.lower(); last = None
    if prop in ("P12", "P21"):
        try: build_urdf_tool(s); tasks += [sym_task(s, "urdf_tool", "urdf_tool_%s%s" % (m, g), ["tool", g, m]) for g in "01" for m in [{"P12": "reg", "P21": "dyn"}[prop]]]
        except SymUnavailable as ex: res.incon.append({"task": "build", "name": "symbolic build of the URDF tool with its main", "why": str(ex)[:1500]})
        s.symfail = []
    if prop == "P21":
        tasks.append(sym_task(s, "robot", "rigid", ["p21"]))
        try: build_rigid_gen(s); tasks.append(sym_task(s, "rigid_gen", "rigid_urdf_tool", ["p21"]))
        except SymUnavailable as ex: res.incon.append({"task": "build", "name": "symbolic build of the URDF tool", "why": str(ex)[:1500]})
    else:
        for label, r, comp in robot_cfgs(th):
            f = s.write("cfg/%s.yaml" % label, r.text()); m = s.write("cfg/%s.meta" % label, r.meta())
            if prop == "P22" and not th and r.n > 2 and comp: continue
            a = [label + ".yaml", label + ".meta"]
            extra = []
            if prop == "P15":   # another file of the same robot, other values
                r2 = copy.deepcopy(r)
                for g in r2.v: r2.v[g] = [x + 0.75 for x in r2.v[g]] if r2.t[g] else r2.v[g]
                for g in ("par_DHtable", "par_world2L0", "par_Ln2EE", "par_gravity"): r2.v[g] = r.v[g]
                r2.prefix = "other_"
                s.write("cfg/%s_b.yaml" % label, r2.text()); s.write("cfg/%s_b.meta" % label, r2.meta()); extra = [label + "_b.yaml", label + "_b.meta"]
                f2 = [s.path("cfg/%s_b.yaml" % label), s.path("cfg/%s_b.meta" % label)]
            else: f2 = []
            tasks.append(sym_task(s, "robot", label, [sc, *a, str(comp), *extra], files=[f, m] + f2, weight=r.n * (4 if comp else 1)))
            if prop == "P12": tasks.append(sym_task(s, "robot", label + "_gen", ["p12gen", *a], files=[f, m]))
    run_tasks(s, tasks, res, deadline)

# ------------------------------------------------------------------ the generated library, class and Python module of a robot
WNAMES = ["rb", "my_robot2", "robot7_robot", "Panda", "r", "x_robot_y", "a1"]
LIGHT = ("P12", "P14", "P15", "P16", "P17", "P19", "P22")   # also over a long robot of which only functions without the model are generated
def wrap_cfgs(prop, th):
    """(label, name, Robot)"""
    o = []
    def add(label, rob): o.append((label, WNAMES[len(o) % len(WNAMES)], rob))
    def part(t, sd, p=0.5, **a): return Robot(t, seed=SEED + sd, **a).select_random(p)
    add("RP_full", Robot(["R", "P"], Dl=1, seed=SEED).select(ALL))
    add("rP_part", part(["R_SEA", "P"], 3, Dl=2, K=2, D=1, Dm=2))
    r = Robot(["P", "R"], Dl=0, seed=SEED); r.drop = {"masks", "gravity"}; add("PR_nomask", r)
    add("RPR_dyn", Robot(["R", "P", "R"], Dl=3, seed=SEED).select(["par_DYN", "par_Dl"]))
    add("P_none", Robot(["P"], Dl=1, seed=SEED))
    r = part(["R", "P_SEA", "R_SEA"], 7, 0.4, Dl=1, K=0, D=2, Dm=0); r.extra_links = 1; r.order = 3; r.ragged = "short"; add("Rpr_zero", r.unmask("link1", "fric0", "D0", "base"))
    add("R_full", Robot(["R"], Dl=2, seed=SEED).select(ALL))
    r = part(["P", "R", "R_SEA", "R"], 11, 0.3, Dl=4, K=1, D=3, Dm=1); r.order = 2; r.ragged = "long"; add("PRrR_part", r)
    r = Robot(["P_SEA", "R"], Dl=1, elastic=False, seed=SEED + 21).select_random(0.5)
    if th or prop in ("P14", "P15", "P18"): add("pR_off", r)
    r = Robot(long_chain(11, 1, 3, R4), seed=SEED + 31, Dl=2, K=1, D=2, Dm=1).select_random(0.4); r.order = 5; r.light = True
    if prop in LIGHT: add("long11", r)
    if th:
        add("RP_on", part(["R", "P"], 23, elastic=True, Dl=0, K=1, D=2, Dm=1))
        R = random.Random(SEED * 97)
        r = part(["R", "P", "R", "R_SEA", "R"], 11, 0.3, Dl=1, K=1, D=1, Dm=1); r.order = 4; add("RPRrR_part", r)
        for k in range(14):
            t = [R.choice(R4) for _ in range(1 + k % 4)]; r = part(t, 60 + k, [0.2, 0.5, 0.8][k % 3], Dl=R.randrange(4), K=R.randrange(4), D=R.randrange(4), Dm=R.randrange(4)); r.order = k; r.extra_links = k % 3
            if k % 5 == 4: r.drop = {"gravity"} if k % 2 else {"friction"}
            add("rnd%d%s" % (k, name_of(t)), r)
    if prop == "P21": return [x for x in o if x[0] == "P_none"]
    if not th and prop in ("P12", "P15", "P16", "P17", "P20", "P22"): o = [x for x in o if x[0] in ("RP_full", "rP_part", "PR_nomask", "Rpr_zero", "PRrR_part", "pR_off", "long11")]
    return o

def run_wrap(prop, tier, s, res, deadline):
    th = tier == "thorough"; py = prop == "P19"; model = prop == "P16"
    sym_prepare(s); build_vgen(s)
    if model: s.parallel([t for n in REPO_SRC for t in sym_objs(s, T + "/src/%s.cpp" % n, n)])
    tasks = []; lock = threading.Lock()
    def one(label, name, r):
        g = copy.deepcopy(r).tokens("none"); l = copy.deepcopy(r).tokens("all")
        f = [s.write("cfg/w_%s.yaml" % label, l.text()), s.write("cfg/w_%s.meta" % label, l.meta())]; a = ["gen_" + label, "w_%s.yaml" % label, "w_%s.meta" % label]
        if prop == "P15":
            l2 = copy.deepcopy(l); l2.prefix = "other_"; f += [s.write("cfg/w_%s_b.yaml" % label, l2.text()), s.write("cfg/w_%s_b.meta" % label, l2.meta())]; a += ["w_%s_b.yaml" % label, "w_%s_b.meta" % label]
        spec = {"label": label, "name": name, "py": py, "model": model, "fork_abs": prop == "P18" and label == "R_full", "priv": prop == "P21", "light": getattr(r, "light", False), "text": g.text()}
        try: funs = build_wrap(s, **spec)
        except GenFailure as ex:
            with lock: res.viol.append({"config": label, "name": "generated code", "what": "no working library, class or module is generated for a valid configuration", "detail": str(ex)[-1500:], "wrap": spec, "task": Task(label, ["w_" + label])})
            return
        except SymUnavailable as ex:
            with lock: res.incon.append({"task": label, "name": "symbolic build", "why": str(ex)[:1500]})
            return
        ts = [sym_task(s, "w_" + label, label, [prop.lower(), *a], files=f, timeout=400 if th else 200)] if not spec["fork_abs"] else [sym_task(s, "w_" + label, label + "." + n, ["p18", *a, n], files=f) for n in funs]
        for t in ts: t.wrap = spec
        with lock: tasks.extend(ts)
    for f in [s.wide.submit(one, *c) for c in wrap_cfgs(prop, th)]: f.result()
    run_tasks(s, tasks, res, deadline)
def run_conc(prop, tier, s, res, deadline):
    th = tier == "thorough"
    s.parallel(eng(s, ("vf", "report")) + [lambda: s.compile(VERIF + "/engine/conc_rt.cpp", "e/conc_rt.o", opt="-O2")]); build_vgen(s)
    tasks = []; lock = threading.Lock()
    def one(label, name, r):
        spec = {"label": label, "name": name, "text": copy.deepcopy(r).tokens("none").text()}
        try: build_conc(s, **spec)
        except GenFailure as ex: res.incon.append({"task": label, "name": "generated code", "why": str(ex)[:1500]}); return
        except SymUnavailable as ex: res.incon.append({"task": label, "name": "build", "why": str(ex)[:1500]}); return
        for k in ((1, 2, 3) if th else (1,)):
            t = Task("%s.%d" % (label, k), [s.path("conc_" + label), label, str(SEED * 10 + k)], timeout=700 if th else 300, crash_is_violation=False, weight=r.n); t.conc = spec
            with lock: tasks.append(t)
    for f in [s.wide.submit(one, *c) for c in wrap_cfgs(prop, th)]: f.result()
    run_tasks(s, tasks, res, deadline)
def run_cli(prop, tier, s, res, deadline):
    th = tier == "thorough"
    done, fail = build_cli(s)
    for f in fail: res.incon.append({"task": "build", "name": "build on symbolic strings", "why": f[:1500]})
    J = [("cli", x, 400000) for x in (["names_thorough", "files_thorough"] if th else ["names", "files"])] + [("text", "text%d" % k, 20000) for k in range(1, 25 if th else 13)] + [("text", "replace%d" % k, 400000) for k in range(1, 9 if th else 6)]
    run_tasks(s, [sym_task(s, e, n, [n, str(lim)], timeout=800 if th else 300, weight=100 if e == "cli" else len(n) + lim / 1e5) for e, n, lim in J if e in done], res, deadline)
def run_both(prop, tier, s, res, deadline):
    run_robot(prop, tier, s, res, deadline); run_wrap(prop, tier, s, res, deadline)

ROBOT_BOUND = "robots of 1-5 joints over {R,P,R_SEA,P_SEA} and one of 12 without its model (thorough: to 21), orders 0-5, all/none/sampled selections, optional sections present, absent or present for a switched-off feature, links and keys in any sampled order, extra links and table rows; every real value of every parameter, state and file entry; "
ROBOT_BOUNDS = {
 "P12": ROBOT_BOUND + "masses non-zero; histories of up to 8 set/load calls; the URDF tool on every value of its input file, with and without gripper, random perturbations switched off",
 "P15": ROBOT_BOUND + "first load, reload over arbitrary state, load of a second file and of files without one of the optional sections; masks shorter or longer than their section",
 "P16": ROBOT_BOUND + "save of all/half/one group, then load whole/partial into a fresh object; masses non-zero",
 "P17": ROBOT_BOUND + "every length 0..size+2 (beyond 14 the last four) for every setter",
 "P21": "every real value of angles, vectors, inertia entries and offsets, and of the input file of the URDF tool; helpers of the model object, the URDF tool and the generated class; no size bound involved",
 "P22": ROBOT_BOUND + "histories of up to 10 add/get/set calls; user functions of 0-3 arguments, added, replaced by another shape and argument list, protected, and built on other user functions",
}
ROBOT_EXPL = {
 "P12": "robot.cpp and genYaml.cpp are compiled with an operation-recording scalar in place of double and executed; stored DYN/REG values after each conversion are compared with the rigid-body formulas for all values.",
 "P15": "Configuration files whose numbers are arbitrary symbols are loaded by the real parser; every documented slot is compared with the symbol written at that place of the file.",
 "P16": "Save and load run on files that carry the symbols; the restored state is compared with the saved one for all values.",
 "P17": "Every setter is called with every length in bounds and arbitrary values; refusals must leave every observable unchanged, acceptances must store exactly the values.",
 "P21": "Helper functions run on arbitrary angles, vectors and tensors and are compared with the rigid-body definitions.",
 "P22": "Named and user-added functions are evaluated by the model object at arbitrary arguments and compared with the function's own expression."}
ROBOT_TRUST = TRUST + ["compiling the sources with `double` replaced by a recording scalar preserves their meaning (the native build is compared with the recorded graph on every explored path)", "yaml-cpp, the C++ library and the file system behave as documented; numbers in files are carried exactly (decimal printing of 17 digits is exact for double)"]
PLANS = {p: {"run": run_model, "bounds": BOUNDS[p], "level": "other", "explanation": MODEL_EXPL[p], "assumptions": TRUST} for p in MODEL_EXPL}
WRAP_BOUND = "generated classes of 8-9 robots (5-6 for P12, P15-P17, P22; thorough: 25) of 1-4 joints (thorough 1-5) over {R,P,R_SEA,P_SEA} and, except for P18, one of 11 joints without its model functions, orders 0-4, full, partial and empty selections, optional sections present, absent or switched off"
WRAP_BOUNDS = {
 "P14": WRAP_BOUND + "; every value of state and parameters; fresh, loaded, arbitrarily set and copied instances, one further step of every setter; several live instances",
 "P18": WRAP_BOUND + "; every input value, arbitrary previous contents of work and result buffers, two consecutive calls",
 "P19": WRAP_BOUND + "; every argument value, vector lengths 0..expected+1, both flag values, left-out arguments",
}
WRAP_EXPL = {
 "P14": "The real generator runs, and the class and library it writes are executed symbolically; every getter is compared with the model function at the expected state after set, load and copy histories.",
 "P18": "The generated C file is compiled with the recording scalar and executed on arbitrary inputs and dirty buffers; each exported function is compared with the model function.",
 "P19": "The generated module is compiled against a recording stand-in for pybind11; each exposed name and the class method of that name run on copies of one arbitrary instance and must agree in result, state and files.",
}
for p in ("P12", "P15", "P16", "P17", "P22"): ROBOT_BOUNDS[p] += ". Class: " + WRAP_BOUND; ROBOT_EXPL[p] += " The generated class is treated the same way."
WRAP_TRUST = ROBOT_TRUST + ["pybind11 itself (not installed here) dispatches a registered callable as documented; the module code is compiled against a stand-in that records the registrations"]
PLANS.update({p: {"run": run_both, "bounds": ROBOT_BOUNDS[p], "level": "other", "explanation": ROBOT_EXPL[p], "assumptions": ROBOT_TRUST,
                  "technique": "symbolic execution of the real C++ (operation-recording scalar, forking at symbolic branches) + SMT (z3), counterexamples replayed on the native build"} for p in ROBOT_EXPL})
PLANS.update({p: {"run": run_wrap, "bounds": WRAP_BOUNDS[p], "level": "other", "explanation": WRAP_EXPL[p], "assumptions": WRAP_TRUST if p == "P19" else ROBOT_TRUST, "technique": PLANS["P12"]["technique"]} for p in WRAP_EXPL})
PLANS["P20"] = {"run": run_conc, "bounds": "generated classes of 5 robots of 1-4 joints (thorough: 23 of 1-5); every pair of getter calls in two threads, on one and on two instances, first and later calls, plus every getter against every setter of another instance; all interleavings of the recorded accesses at byte granularity, sequentially consistent; recorded at one (thorough three) states per robot - that control flow does not depend on the values is what P14 and P18 show",
  "level": "other", "explanation": "The generated class and library are compiled with access instrumentation; the accesses of each call, recorded alone in its own thread, become order variables, and the solver is asked for an interleaving in which a read sees another value than alone. A model is executed on the real code by steering two threads.",
  "assumptions": ["sequential consistency; a pair without conflicting accesses is free of interference under any memory model, and pairwise freedom extends to any number of threads", "accesses inside uninstrumented libraries (libm, libstdc++) touch no shared state of the class", "mutexes are modelled as critical sections; other synchronisation is judged by executing the order found", "the sanitizer instrumentation of gcc reports every access", "z3 5.3.2 decides the queries"],
  "technique": "interleavings of instrumented real calls as SMT order constraints (z3), counterexample schedules executed on the real code"}

PLANS["P23"] = {"run": run_cli, "bounds": "configuration paths of 1-12 arbitrary printable characters (thorough 24) followed by .yaml, with directories or without; names of 1-4 (thorough 6) characters or none; every combination of options, long or short, before or after the path; run inside a build folder or elsewhere, with or without the files of an earlier run, HOME set or not; class, module and build texts for names that are identifiers of 1-12 (thorough 24) characters and do not contain the word robot; replacement on texts of up to 5 (thorough 8) characters over three letters",
  "level": "other", "explanation": "thunder_main.cpp and utils.cpp are compiled with a string whose characters are solver variables; comparisons of characters fork the execution. File system and robot are recorded, so that after main every file has a symbolic path and content, compared with what the statement says.",
  "assumptions": ["file system calls, the library generator and the writers of configuration and parameter files are replaced by stand-ins that record names and contents (their own behaviour is the subject of P16, P18 and P19)", "argparse is the real library", "the template folder and the folders that copies go to exist", "z3 5.3.2 decides the queries"],
  "technique": "symbolic execution of the real C++ on symbolic strings (forking at character comparisons) + SMT (z3), counterexamples replayed on the native build"}

def replay(prop, j, s):
    exe = j["command"][0]
    for n, t in j.get("files", {}).items(): s.write("cfg/" + n, t)
    env = None
    try:
        if j.get("wrap"):
            sym_prepare(s); build_vgen(s)
            if j["wrap"]["model"]: s.parallel([t for n in REPO_SRC for t in sym_objs(s, T + "/src/%s.cpp" % n, n)])
            try: build_wrap(s, **j["wrap"])
            except GenFailure as ex: print(ex); return 1
            env = {"VF_NATIVE": s.path("N_" + exe[2:]), "VF_DATA": s.path("cfg"), "VF_LABEL": j.get("config", "replay")}
        elif j.get("conc"):
            s.parallel(eng(s, ("vf", "report")) + [lambda: s.compile(VERIF + "/engine/conc_rt.cpp", "e/conc_rt.o", opt="-O2")]); build_vgen(s); build_conc(s, **j["conc"])
        elif exe in ("S_cli", "S_text"): build_cli(s); env = {"VF_NATIVE": s.path("N_" + exe[2:]), "VF_LABEL": j.get("config", "replay")}
        elif exe == "vmodel": build_vmodel(s); env = j.get("env")
        else:
            {"S_rigid_gen": build_rigid_gen, "S_urdf_tool": build_urdf_tool}.get(exe, build_robot)(s); env = {"VF_NATIVE": s.path("N_" + exe[2:]), "VF_DATA": s.path("cfg"), "VF_LABEL": j.get("config", "replay")}
    except SymUnavailable as ex: print("no symbolic build: %s" % ex); return 0
    rc, o, e = s.run([s.path(exe)] + j["command"][1:], timeout=600, env=env)
    bad = [l for l in o.splitlines() if '"kind":"violation"' in l]
    print("\n".join(bad) if bad else "no violation reproduced"); return 1 if bad else 0
