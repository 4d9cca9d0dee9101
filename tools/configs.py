"""Robot configurations (YAML text) with exactly representable numbers and chosen symbolic selections."""
import itertools, math, random

KEYS = ["mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"]
H = math.pi / 2

def seqs(n, alphabet=("R", "P")):
    return [list(s) for s in itertools.product(alphabet, repeat=n)]

def num(x):
    return repr(float(x))

class Robot:
    """par groups: value list and mask list; text() gives the YAML document."""
    def __init__(self, types, Dl=0, K=0, D=0, Dm=0, elastic=None, seed=1, angles="quarter"):
        self.types = types; n = self.n = len(types)
        self.Dl, self.K, self.D, self.Dm = Dl, K, D, Dm
        self.ej = [i for i, t in enumerate(types) if t.endswith("_SEA")]
        self.elastic = bool(self.ej) if elastic is None else elastic
        r = random.Random(seed * 1000003 + n)
        dy = lambda: r.choice([-1, 1]) * (r.randrange(1, 32) / 16.0)
        pos = lambda: r.randrange(4, 40) / 16.0
        ang = (lambda: r.choice([0, H, -H])) if angles == "quarter" else (lambda: r.choice([-1, 1]) * r.choice([2.0 ** -k for k in range(1, 13)] + [0.0, 3.0, 5.25])) if angles == "small" else dy
        self.v = {}
        dh = []
        for i in range(n):
            dh += [dy(), ang(), dy(), ang()]
        self.v["par_DHtable"] = dh
        self.v["par_world2L0"] = [dy(), dy(), dy(), ang(), ang(), ang()]
        self.v["par_Ln2EE"] = [dy(), dy(), dy(), ang(), ang(), ang()]
        self.v["par_gravity"] = [dy(), dy(), dy()]
        self.v["par_DYN"] = []
        for i in range(n):
            self.v["par_DYN"] += [pos(), dy(), dy(), dy(), pos(), dy(), dy(), pos(), dy(), pos()]
        self.v["par_Dl"] = [pos() for _ in range(n * Dl)]
        ne = len(self.ej) if self.elastic else 0
        self.v["par_K"] = [pos() for _ in range(ne * K)]
        self.v["par_D"] = [pos() for _ in range(ne * D)]
        self.v["par_Dm"] = [pos() for _ in range(ne * Dm)]
        self.v["par_Mm"] = [pos() for _ in range(ne)]
        self.m = {k: [0] * len(x) for k, x in self.v.items()}
        self.t = {}
        self.extra_links = 0; self.extra_rows = None
        self.idle = False      # sections of features that are switched off are present
        self.drop = set()      # optional pieces left out: "gravity", "friction", "masks"
        self.skip = set()      # sections written without a mask: "kin", "gravity", "base", "ee", "link<i>", "fric<i>", "K<j>", "D<j>", "Dm<j>", "Mm<j>"
        self.order = None; self.prefix = ""
        self.ragged = ""       # "short": trailing zeros of the masks are left out; "long": surplus entries follow the masks and the coefficients beyond the declared order
        self.rnd = r

    def select(self, groups):
        for g in groups:
            self.m[g] = [1] * len(self.v[g])
        return self

    def select_random(self, p=0.5, groups=None):
        for g in (groups or list(self.v)):
            self.m[g] = [1 if self.rnd.random() < p else 0 for _ in self.v[g]]
        return self

    def parts(self):
        o = {"kin": ("par_DHtable", 0, 4 * self.n), "gravity": ("par_gravity", 0, 3), "base": ("par_world2L0", 0, 6), "ee": ("par_Ln2EE", 0, 6)}
        for i in range(self.n): o["link%d" % i] = ("par_DYN", 10 * i, 10 * i + 10); o["fric%d" % i] = ("par_Dl", self.Dl * i, self.Dl * i + self.Dl)
        if self.elastic:
            for e in range(len(self.ej)):
                for k, q in (("K", self.K), ("D", self.D), ("Dm", self.Dm), ("Mm", 1)): o["%s%d" % (k, e)] = ("par_" + k, q * e, q * e + q)
        return o
    def unmask(self, *names):
        """leaves the masks of these sections out of the file (nothing selected there)"""
        for x in names:
            if x not in self.parts(): continue
            g, a, b = self.parts()[x]; self.skip.add(x); self.m[g][a:b] = [0] * (b - a)
        return self
    def unmask_random(self, p, seed):
        r = random.Random(seed * 7 + 1); return self.unmask(*[x for x in self.parts() if r.random() < p])

    def tok(self, g, i):
        return "${%s%s[%d]}" % (self.prefix, g, i) if self.t.get(g) and self.t[g][i] else num(self.v[g][i])

    def tokens(self, which):
        """values left arbitrary in the file: "all", "selected" (by the masks) or "none" """
        self.t = {g: [1 if which == "all" or (which == "selected" and self.m[g][i] and "masks" not in self.drop) else 0 for i in range(len(x))] for g, x in self.v.items()}
        for g, what in (("par_gravity", "gravity"), ("par_Dl", "friction")):
            if what in self.drop: self.t[g] = [0] * len(self.v[g])
        return self

    def meta(self):
        L = ["prefix " + self.prefix] if self.prefix else []
        L += ["robot rb %d %d %d %d %d %d %d" % (self.n, len(self.ej), self.Dl, self.K, self.D, self.Dm, 1 if self.elastic else 0), "types " + " ".join(self.types)]
        L.append("absent " + " ".join(g for g, w in (("par_gravity", "gravity"), ("par_Dl", "friction")) if w in self.drop))
        for g, v in self.v.items():
            gone = (g == "par_gravity" and "gravity" in self.drop) or (g == "par_Dl" and "friction" in self.drop)
            L.append("val %s %s" % (g, " ".join("0.0" if gone else num(x) for x in v)))
            nm = "masks" in self.drop or gone
            L.append("mask %s %s" % (g, " ".join("0" if nm else str(x) for x in self.m[g])))
            L.append("tok %s %s" % (g, " ".join(str(x) for x in self.t.get(g, [0] * len(v)))))
        return "\n".join(L) + "\n"

    def text(self):
        n = self.n; t = self.tok
        fl = lambda g, a, b: "[" + ", ".join(t(g, i) for i in range(a, b)) + "]"
        fx = lambda g, a, b: "[" + ", ".join([t(g, i) for i in range(a, b)] + ["66.5", "67.25"] * (self.ragged == "long")) + "]"
        def ml(g, a, b):
            e = [str(self.m[g][i]) for i in range(a, b)]
            while self.ragged == "short" and e and e[-1] == "0": e.pop()
            if self.ragged == "long": e += ["1", "0", "1"]
            return "[" + ", ".join(e) + "]"
        nm = "masks" in self.drop; sy = lambda x: not nm and x not in self.skip
        L = ["num_joints: %d" % n, "type_joints: [%s]" % ", ".join(self.types)]
        if self.Dl: L.append("Dl_order: %d" % self.Dl)
        elif self.idle: L.append("Dl_order: 0")
        if self.elastic: L.append("ELASTIC_MODEL: true")
        elif self.idle: L.append("ELASTIC_MODEL: false")
        x = self.extra_links if self.extra_rows is None else self.extra_rows   # rows beyond the declared joints
        L += ["kinematics:", "  DH: " + fl("par_DHtable", 0, 4 * n)[:-1] + ", 9.5, -7.25, 8.125, 6.75" * x + "]"]
        if sy("kin"): L.append("  symb: " + ml("par_DHtable", 0, 4 * n)[:-1] + ", 0, 1, 1, 0" * x * (self.ragged != "short") + "]")
        if "gravity" not in self.drop:
            L += ["gravity:", "  value: " + fl("par_gravity", 0, 3)]
            if sy("gravity"): L.append("  symb: " + ml("par_gravity", 0, 3))
        for g, nme, sn in (("par_world2L0", "Base_to_L0", "base"), ("par_Ln2EE", "Ln_to_EE", "ee")):
            L += [nme + ":", "  tr: " + fl(g, 0, 3), "  ypr: " + fl(g, 3, 6)]
            if sy(sn): L.append("  symb: " + ml(g, 0, 6))
        L.append("dynamics:")
        for i in range(n):
            L += ["  link%d:" % (i + 1), "    inertial:"]
            if sy("link%d" % i): L.append("      symb: " + ml("par_DYN", 10 * i, 10 * i + 10))
            ks = list(enumerate(KEYS))
            if self.order: random.Random(self.order + i).shuffle(ks)
            L += ["      %s: %s" % (k, t("par_DYN", 10 * i + j)) for j, k in ks]
            if self.Dl and "friction" not in self.drop:
                L += ["    friction:", "      Dl: " + fx("par_Dl", self.Dl * i, self.Dl * (i + 1))]
                if sy("fric%d" % i): L.append("      symb: " + ml("par_Dl", self.Dl * i, self.Dl * (i + 1)))
            elif self.idle and not self.Dl: L += ["    friction:", "      Dl: [44.0, 45.0]", "      symb: [1, 0]"]
        for i in range(self.extra_links):
            L += ["  extra%d:" % (i + 1), "    inertial:", "      symb: [1,1,1,1,1,1,1,1,1,1]"] + ["      %s: %s" % (k, num(77 + j)) for j, k in enumerate(KEYS)]
            L += ["    friction:", "      Dl: [%s]" % ", ".join(["99.0"] * max(1, self.Dl)), "      symb: [%s]" % ", ".join(["1"] * max(1, self.Dl))]
        if self.elastic:
            L += ["elastic:", "  K_order: %d" % self.K, "  D_order: %d" % self.D, "  Dm_order: %d" % self.Dm, "  joints:"]
            for e, j in enumerate(self.ej):
                L.append("    joint%d:" % (j + 1))
                for g, k, o in (("par_K", "K", self.K), ("par_D", "D", self.D), ("par_Dm", "Dm", self.Dm)):
                    if o or self.ragged == "long":
                        L.append("      %s: %s" % (k, fx(g, o * e, o * e + o)))
                        if sy(k + str(e)): L.append("      %s_symb: %s" % (k, ml(g, o * e, o * e + o)))
                L.append("      Mm: " + t("par_Mm", e))
                if sy("Mm%d" % e): L.append("      Mm_symb: %d" % self.m["par_Mm"][e])
            for i in range(self.extra_links):
                L += ["    xjoint%d:" % (i + 1), "      K: [55.0, 55.0, 55.0, 55.0]", "      D: [55.0, 55.0, 55.0, 55.0]", "      Dm: [55.0, 55.0, 55.0, 55.0]", "      Mm: 55.0", "      K_symb: [1,1,1,1]", "      D_symb: [1,1,1,1]", "      Dm_symb: [1,1,1,1]", "      Mm_symb: 1"]
        elif self.idle: L += ["elastic:", "  K_order: 1", "  D_order: 2", "  Dm_order: 1", "  joints:", "    joint1:", "      K: [55.0]", "      K_symb: [1]", "      D: [55.0, 5.0]", "      D_symb: [1, 1]", "      Dm: [55.0]", "      Dm_symb: [1]", "      Mm: 55.0", "      Mm_symb: 1"]
        return "\n".join(L) + "\n"
