"""The compiled command line program against its settings files and output files."""
import itertools
import json
import math
import os
import random
import re
import subprocess

TYPES = {1: "corrfunc", 2: "multipoles", 3: "average_multipoles", 4: "covariance_multipoles", 5: "covariance_average_multipoles"}
LABELS = ["den", "rsd", "d1", "d2", "g1", "g2", "g3", "g4", "g5", "len"]
RENORM = {"d2", "g1", "g2", "g3", "g4", "g5"}
BIAS = ["galaxy_bias1", "galaxy_bias2", "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"]
NAMES = {"z": 1, "a": 1, "H": 2, "conformal_H": 3, "conformal_H_prime": 4, "D1": 5, "f": 6, "comoving_distance": 7}
INTERP = {1: "linear", 2: "polynomial", 3: "cspline", 5: "akima", 7: "steffen"}


def programs(scratch, build):
    """compiles the library, the driver and the main program with stand-ins"""
    here = os.path.dirname(os.path.abspath(__file__))
    san = ["-fsanitize=address"]
    with open(os.path.join(scratch, "t.c"), "w") as f:
        f.write("int main(void) { return 0; }\n")
    try:
        build.run(["gcc"] + san + [os.path.join(scratch, "t.c"), "-o", os.path.join(scratch, "t")])
        if subprocess.run([os.path.join(scratch, "t")]).returncode:
            san = []
    except build.BuildError:
        san = []
    lib = build.build(scratch, shims=(), name="libcli.so", flags=san)
    inc = san + ["-I" + os.path.join(build.REPO, "src")]
    drv, main = os.path.join(scratch, "cli_drv"), os.path.join(scratch, "cli_main")
    build.run(["gcc", "-std=gnu99", "-w", "-O1", "-fopenmp"] + inc + [os.path.join(here, "cli_drv.c"), "-o", drv, lib, "-Wl,-rpath," + scratch] + build.LIBS)
    build.run(["gcc", "-std=gnu99", "-w", "-O1", "-fopenmp", '-DPACKAGE_STRING="coffe"'] + inc +
              [os.path.join(build.REPO, "src", "main.c"), os.path.join(here, "cli_stub.c"), "-o", main, lib, "-Wl,-rpath," + scratch] + build.LIBS)
    return drv, main


class H(object):
    def __init__(self, job):
        self.job, self.n, self.bad = job, 0, []
        self.dir = os.path.join(job["scratch"], "cli_work")
        os.makedirs(self.dir, exist_ok=True)
        self.rng = random.Random(job["seed"])
        self.k = 0

    def check(self, what, ok, **info):
        self.n += 1
        if not ok:
            d = {"what": what}
            d.update({k: str(v)[:400] for k, v in info.items()})
            self.bad.append(d)

    def run(self, args, env=None, cwd=None):
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=cwd or self.dir,
                               env=dict(os.environ, OMP_NUM_THREADS="3", ASAN_OPTIONS="detect_leaks=0:exitcode=99", **(env or {})))
            return p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return -999, ""

    def file(self, text):
        self.k += 1
        p = os.path.join(self.dir, "f%d.txt" % self.k)
        with open(p, "w") as f:
            f.write(text)
        return p


def fields(s):
    d = {}
    for l in s.splitlines():
        m = re.match(r"([\w.]+) ([idsabl])(?: (.*))?$", l)
        if m:
            a, k, v = m.group(1), m.group(2), m.group(3) or ""
            d[a] = int(v) if k == "i" else float(v) if k == "d" else [float(x) for x in v.split()] if k in "ab" else v.split() if k == "l" else v
    return d


def value(v):
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "[" + ", ".join(value(x) for x in v) + "]"
    return repr(v)


def settings(h, t):
    r = h.rng
    u = lambda a, b: round(r.uniform(a, b), 6)
    ks = [10 ** (-4 + 5 * i / 39.0) for i in range(40)]
    ps = [1e4 * k / (k + 0.02) ** 2.5 for k in ks]
    rows = ["# k P", *["%.12e %.12e" % x for x in zip(ks, ps)]]
    if r.random() < 0.5:
        rows.insert(r.randrange(len(rows)), "# a comment")
    pk = h.file("\n".join(rows) + ("\n" if r.random() < 0.6 else ""))
    nz = r.randint(1, 3)
    s = {"verbose": 0, "output_type": t, "background_sampling": r.randint(50, 500), "omega_m": u(0.2, 0.4), "omega_baryon": u(0.02, 0.06),
         "omega_gamma": u(1e-5, 1e-4), "w0": u(-1.2, -0.8), "wa": u(-0.2, 0.2), "bessel_sampling": r.randint(100, 900),
         "integration_method": r.randint(0, 2), "integration_sampling": r.randint(100, 10000),
         "covariance_integration_method": r.randint(1, 2), "covariance_integration_bins": r.randint(100, 900), "covariance_interpolation_method": r.randint(1, 2),
         "flatsky_local": r.randint(0, 1), "flatsky_local_nonlocal": r.randint(0, 1), "flatsky_nonlocal": r.randint(0, 1),
         "have_window": r.randint(0, 1), "window_size": u(1, 20), "only_cross_correlations": r.randint(0, 1),
         "b_derivative": 0, "f_derivative": 0, "b_tilde_derivative": 0, "f_tilde_derivative": 0,
         "k_min": r.choice([1e-6, 1.2e-4, 5e-3]), "k_max": r.choice([0.5, 9.0, 100.0]), "input_power_spectrum": pk,
         "output_path": os.path.join(h.dir, "out/"), "output_prefix": r.choice(["$TIME", "abc_"]),
         "output_background": r.sample(sorted(NAMES), r.randint(0, 8)), "correlation_contributions": r.sample(LABELS, r.randint(0, 10)),
         "separations_min": u(1, 20), "separations_max": u(100, 300)}
    if r.random() < 0.5:
        s["separations_sampling"] = r.randint(2, 30)
    else:
        s["separations_step"] = u(3, 40)
    if r.random() < 0.4:
        s[r.choice(["b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative"])] = 1
    if r.random() < 0.6:
        s["interpolation"] = r.choice([1, 3, 5, 7])
    for b in BIAS:
        if r.random() < 0.4:
            zs = [0.1 * i for i in range(30)]
            rows = ["# z b"] + ["%.8f %.8f" % (z, 1 + z * u(0.1, 0.9)) for z in zs]
            s["read_" + b] = 1
            s["input_" + b] = h.file("\n".join(rows) + ("\n" if r.random() < 0.6 else ""))
        else:
            if r.random() < 0.5:
                s["read_" + b] = 0
            s[b] = u(0.2, 3)
        if r.random() < 0.5:
            s["degree_" + b] = r.randint(1, 4)
    arr = lambda a, b: [u(a, b) for _ in range(nz)]
    if t in (1, 2, 4):
        s["z_mean"] = arr(0.2, 2)
        if t == 4 or r.random() < 0.6:
            s["deltaz"] = arr(0.05, 0.3)
    if t == 3:
        s["z_min"], s["z_max"] = arr(0.2, 1), arr(1.1, 2)
    if t == 5:
        s["zmin"], s["zmax"] = arr(0.2, 1), arr(1.1, 2)
    if t in (4, 5):
        s["density1"], s["density2"], s["fsky"], s["pixelsize"] = arr(1e-4, 1e-2), arr(1e-4, 1e-2), arr(0.1, 1), arr(2, 20)
        s["covariance_window"] = r.randint(0, 1)
    if t == 1:
        s["mu"] = [u(-1, 1) for _ in range(r.randint(1, 4))]
    else:
        s["multipoles"] = r.sample([0, 1, 2, 3, 4], r.randint(1, 4))
    return s


DIRECT = {"background_sampling": "background_bins", "bessel_sampling": "bessel_bins", "integration_sampling": "integration_bins", "omega_m": "Omega0_m",
          "omega_baryon": "Omega0_baryon", "omega_gamma": "Omega0_gamma", "z_min": "zmin", "z_max": "zmax", "multipoles": "multipole_values",
          "output_background": "type_bg", "input_power_spectrum": "file_power_spectrum", "interpolation": "interp_method"}
SAME = ["verbose", "output_type", "w0", "wa", "integration_method", "covariance_integration_method", "flatsky_local", "flatsky_local_nonlocal",
        "flatsky_nonlocal", "have_window", "only_cross_correlations", "b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative",
        "output_path", "output_prefix", "z_mean", "deltaz", "zmin", "zmax", "density1", "density2", "fsky", "pixelsize", "mu", "covariance_window"] + \
       [a + b for a in ("read_", "degree_") for b in BIAS]


def readtable(p):
    return [[float(x) for x in re.split(r"[,\t: ]+", l.strip())] for l in open(p) if not l.startswith("#") and l.strip()]


def close(a, b, tol=1e-12):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= tol * max(1e-300, abs(a), abs(b))


def expected(s, d):
    """parameters a settings file asks for, over the defaults d"""
    e = {}
    for k, v in s.items():
        if k in DIRECT:
            e[DIRECT[k]] = v
        elif k in SAME:
            e[k] = v
    if s["covariance_integration_method"] == 2:
        e["covariance_integration_bins"], e["covariance_interpolation_method"] = s["covariance_integration_bins"], s["covariance_interpolation_method"]
    if s["have_window"]:
        e["window_size"] = s["window_size"]
    for k in ["interp_method"] + [a + b for a in ("read_", "degree_") for b in BIAS]:
        e.setdefault(k, d[k])
    if "deltaz" not in s and s["output_type"] in (1, 2):
        e["deltaz"] = [d["deltaz"][0]] * len(s["z_mean"])
    for l in LABELS:
        e["correlation_contrib." + l] = int(l in s["correlation_contributions"])
    e["divergent"] = int(bool(set(s["correlation_contributions"]) & RENORM))
    e["Omega0_de"] = 1 - s["omega_m"] - s["omega_gamma"]
    e["Omega0_cdm"] = s["omega_m"] - s["omega_baryon"] - d["Omega0_nu"]
    lo, hi = s["separations_min"], s["separations_max"]
    if "separations_sampling" in s:
        n = s["separations_sampling"]
        e["sep"] = [lo + (hi - lo) * i / n for i in range(n)]
    else:
        st = s["separations_step"]
        e["sep"] = [lo + st * i for i in range(int(math.ceil((hi - lo) / st)))]
    meth = INTERP[e["interp_method"]]
    for b in BIAS:
        e[b + " t"] = meth
        e[b] = [x for r in readtable(s["input_" + b]) for x in r] if s.get("read_" + b, d["read_" + b]) else s[b]
    tab = readtable(s["input_power_spectrum"])
    pts = []
    for k, p in tab:
        if s["have_window"]:
            x = s["window_size"] * k
            w = 3 * (math.sin(x) / x ** 2 - math.cos(x) / x) / x if x > 1e-2 else 1 - x * x / 10 + x ** 4 / 280
            p *= w * w
        pts += [k, p]
    e["power_spectrum"] = e["power_spectrum_norm"] = pts
    e["k_min"] = e["k_min_norm"] = max(s["k_min"], tab[0][0])
    e["k_max"] = e["k_max_norm"] = min(s["k_max"], tab[-1][0])
    return e


def text(s):
    return "".join("%s = %s;\n" % (k, value(v)) for k, v in s.items())


def parse(h, drv, reps):
    rc, out = h.run([drv, "defaults"])
    h.check("defaults: program ends normally", rc == 0, rc=rc)
    d = fields(out)
    for k, v in h.job["defaults"].items():
        h.check("default of %s" % k, k in d and close(d[k], v, 1e-9), got=d.get(k), want=v)
    for b, v in h.job["bias"].items():
        h.check("default of %s" % b, b in d and all(y == v for y in d[b][1::2]) and d[b][0] == 0 and d[b][-2] >= 10, got=d.get(b))
    h.check("default integration method", d.get("integration_method") in (0, 1, 2), got=d.get("integration_method"))
    h.check("default spectrum", close(d.get("power_spectrum", []), h.job["spectrum"], 1e-9) and close(d.get("power_spectrum_norm", []), h.job["spectrum"], 1e-9))
    for i in range(reps):
        t = i % 5 + 1
        s = settings(h, t)
        rc, out = h.run([drv, "parse", h.file(text(s))])
        h.check("a settings file of type %d is read" % t, rc == 0, rc=rc, settings=s)
        if rc:
            continue
        got, e = fields(out), expected(s, d)
        for k, v in e.items():
            if k.endswith(" t"):
                continue
            if k in BIAS and not isinstance(v, list):
                h.check("%s (settings of type %d)" % (k, t), k in got and all(abs(y - v) < 1e-12 for y in got[k][1::2]) and got[k][0] == 0 and got[k][-2] >= 10, got=got.get(k), want=v)
            else:
                h.check("%s (settings of type %d)" % (k, t), k in got and close(got[k], v, 1e-7 if k.startswith("power") else 1e-11), got=got.get(k), want=v, settings=s)
        m = re.findall(r"^(\w+) t (\S+)$", out, re.M)
        for f, kind in m:
            if f + " t" in e:
                h.check("interpolation of %s" % f, kind.replace("-", "_") == e[f + " t"], got=kind, want=e[f + " t"])
    for t in range(1, 6):
        s = settings(h, t)
        while "deltaz" not in s and t in (1, 2, 4):
            s = settings(h, t)
        s["have_window"] = 1
        need = ["verbose", "output_type", "background_sampling", "omega_m", "omega_baryon", "omega_gamma", "w0", "wa", "bessel_sampling", "integration_method",
                "integration_sampling", "covariance_integration_method", "flatsky_local", "flatsky_local_nonlocal", "flatsky_nonlocal", "have_window",
                "window_size", "only_cross_correlations", "b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative", "k_min", "k_max",
                "input_power_spectrum", "output_path", "output_prefix", "separations_min", "separations_max"] + (["covariance_window"] if t > 3 else [])
        for nm in need:
            q = dict(s)
            del q[nm]
            rc, out = h.run([drv, "parse", h.file(text(q))])
            h.check("type %d without %s" % (t, nm), rc == 1, rc=rc)
        lists = {1: ["deltaz"], 2: ["deltaz"], 3: ["z_min", "z_max"], 4: ["density1", "density2", "fsky", "z_mean", "deltaz", "pixelsize"],
                 5: ["density1", "density2", "fsky", "zmin", "zmax", "pixelsize"]}[t]
        for nm in lists:
            q = dict(s)
            q[nm] = q[nm] + [0.5]
            rc, out = h.run([drv, "parse", h.file(text(q))])
            h.check("type %d with one more %s" % (t, nm), rc == 1, rc=rc)
        for bad in ({"separations_sampling": 5, "separations_step": 3.0}, {"b_derivative": 1, "f_derivative": 1, "f_tilde_derivative": 0, "b_tilde_derivative": 0},
                    {"f_tilde_derivative": 1, "b_tilde_derivative": 1}, {"integration_method": 3}, {"covariance_integration_method": 7}, {"window_size": 0.0}, {"window_size": 1000.0},
                    {"covariance_integration_method": 2, "covariance_integration_bins": 0}, {"covariance_integration_method": 2, "covariance_interpolation_method": 9},
                    {"read_galaxy_bias1": 1, "input_galaxy_bias1": os.path.join(h.dir, "missing")}):
            q = dict(s)
            q.update(bad)
            rc, out = h.run([drv, "parse", h.file(text(q))])
            h.check("type %d with %s" % (t, bad), rc == 1, rc=rc)
        if t in (1, 2, 4):
            q = dict(s)
            q["z_mean"] = q["z_mean"][:-1] + [-0.5]
            rc, out = h.run([drv, "parse", h.file(text(q))])
            h.check("type %d with a negative redshift" % t, rc == 1, rc=rc)
        q = dict(s)
        q["input_power_spectrum"] = os.path.join(h.dir, "missing")
        rc, out = h.run([drv, "parse", h.file(text(q))])
        h.check("the default spectrum without a file", rc == 0 and close(fields(out).get("power_spectrum", []), h.job["spectrum"], 1e-9), rc=rc)
    rc, out = h.run([drv, "parse", os.path.join(h.dir, "missing.cfg")])
    h.check("no settings file", rc == 1, rc=rc)


def V(i, j):
    return (i * 7 + j * 13 + 1) / 8.0


def rows(t, i):
    return {1: [V(i, 0), V(i, 1), V(i, 2), V(i, 9)], 2: [V(i, 0), i + 3, V(i, 1), V(i, 9)], 3: [V(i, 3), V(i, 4), i + 3, V(i, 1), V(i, 9)],
            4: [V(i, 0), i + 4, i + 9, V(i, 5), V(i, 6), V(i, 9)], 5: [V(i, 5), V(i, 6), i + 4, i + 9, V(i, 3), V(i, 4), V(i, 9)]}[t]


COLS = {1: ["z_mean", "sep", "mu", "value"], 2: ["z_mean", "l", "sep", "value"], 3: ["z_min", "z_max", "l", "sep", "value"],
        4: ["z_mean", "l1", "l2", "sep1", "sep2", "value"], 5: ["sep1", "sep2", "l1", "l2", "z_min", "z_max", "value"]}


def output(h, drv, reps):
    r = h.rng
    for i in range(reps):
        t = i % 5 + 1
        top = os.path.join(h.dir, "o%d" % i)
        path = r.choice([top, top + "/", top + "/deep/er/", top + "/x"])
        pre = r.choice(["$TIME", "p_", ""])
        n = r.choice([0, 1, 2, 7, 40])
        flags = r.randrange(1024)
        names = r.sample(sorted(NAMES), r.randint(1, 8))
        args = [drv, "output", str(t), path, pre, str(n), str(flags)] + names
        info = dict(args=args[1:])
        for again in range(2):      # a second run replaces the files of the first
            rc, out = h.run(args)
            h.check("output of type %d ends normally" % t, rc == 0, rc=rc, **info)
        full = path.rstrip("/") + "/" + ("STAMP_" if pre == "$TIME" else pre)
        names_ = sorted(os.listdir(path)) if os.path.isdir(path) else []
        b = os.path.basename(full)
        h.check("nothing is written elsewhere", all(d == path.rstrip("/") or not fs for d, _, fs in os.walk(top)), got=[x for x in os.walk(top)], **info)
        h.check("the files written", names_ == sorted(b + x for x in (TYPES[t] + ".dat", "background.dat", "settings.cfg")), got=names_, **info)
        try:
            lines = open(full + TYPES[t] + ".dat").read().split("\n")
        except OSError:
            continue
        head, body = [l for l in lines if l.startswith("#")], [l for l in lines if l and not l.startswith("#")]
        h.check("rows of %s" % TYPES[t], [[float(x) for x in l.split()] for l in body] == [rows(t, k) for k in range(n)], got=body[:3], **info)
        h.check("columns of %s" % TYPES[t], bool(head) and [x.strip() for x in head[-1].lstrip("#").split(",")] == COLS[t], got=head, **info)
        if t != 5:
            want = {l for k, l in enumerate(LABELS) if flags >> k & 1}
            h.check("contributions of %s" % TYPES[t], bool(head) and set(head[0].split(":")[-1].split()) == want, got=head, want=want, **info)
        try:
            bl = open(full + "background.dat").read().split("\n")
            got = [[float(x) for x in l.split()] for l in bl[1:] if l]
        except (OSError, ValueError):
            got = bl = []
        want = [[k * 0.25 if nm == "z" else NAMES[nm] + k * k * 0.125 for nm in names] for k in range(6)]
        h.check("background", close(got, want, 1e-9), got=got[:2], want=want[:2], **info)
        h.check("numbers in the header of the background", bool(bl) and re.findall(r"(\d+)\)", bl[0]) == [str(k + 1) for k in range(len(names))], got=bl[:1], **info)
        h.check("header of the background", bool(bl) and [re.match(r"\w*", x).group(0) for x in bl[0].lstrip("# ").split(")")[1:]] == names, got=bl[:1], **info)
        h.check("copy of the settings", os.path.exists(full + "settings.cfg") and "4711" in open(full + "settings.cfg").read(), **info)


def relative(h, drv):
    """paths relative to the working directory; the empty one is the working directory"""
    for i, path in enumerate(("", "a", "a/b/", "./", "./c/d", "e//f/")):
        cwd = os.path.join(h.dir, "r%d" % i)
        os.makedirs(cwd)
        os.chmod(cwd, 0o777)
        args = [drv, "output", "1", path, "p_", "3", "5", "z"]
        for again in range(2):
            rc, out = h.run(args, env={"VP_CWD": cwd})
            if rc == 77:
                return
            h.check("output to the path '%s' ends normally" % path, rc == 0, rc=rc)
        got = sorted(os.path.relpath(os.path.join(d, f), cwd) for d, _, fs in os.walk(cwd) for f in fs)
        want = sorted(os.path.normpath(os.path.join(path, "p_" + x)) for x in ("corrfunc.dat", "background.dat", "settings.cfg"))
        h.check("files written to the path '%s'" % path, got == want, got=got, want=want)


CALLS = {1: ["integrals", "corrfunc"], 2: ["integrals", "multipoles"], 3: ["integrals", "average_multipoles"], 4: ["covariance"], 5: ["covariance"]}


def program(h, main):
    rec = os.path.join(h.dir, "record")
    for t in range(1, 6):
        for opts, nth in ((["-s", "S"], 3), (["-s", "S", "-n", "5"], 5), (["-n", "7", "-s", "S"], 7), (["-n", "1", "-s", "S"], 1)):
            open(rec, "w").close()
            rc, out = h.run([main] + opts, {"CLI_RECORD": rec, "CLI_TYPE": str(t)})
            l = [x.split() for x in open(rec)]
            info = dict(opts=opts, type=t, got=l)
            h.check("tables are empty before they are filled", all(x[1] == "1" for x in l if x[0] == "empty"), **info)
            l = [x for x in l if x[0] != "empty"]
            h.check("main ends normally", rc == 0, rc=rc, **info)
            h.check("the routines called", [x[0] for x in l] == ["parser", "background"] + CALLS[t] + ["output"], **info)
            if [x[0] for x in l] != ["parser", "background"] + CALLS[t] + ["output"]:
                continue
            h.check("the settings file", l[0][1] == "S", **info)
            h.check("threads", all(x[1] == str(nth) for x in l[1:]), **info)
            d = {x[0]: x for x in l}
            o = d["output"]
            h.check("one set of parameters, one background", len({x[2] for x in l[1:]} | {l[0][2]}) == 1 and len({x[3] for x in l[1:]}) == 1, **info)
            if t <= 3:
                nm = CALLS[t][1]
                h.check("the tables handed on", d[nm][4] == d["integrals"][4] and d[nm][5] == o[3 + t], **info)
            else:
                h.check("the tables handed on", d["covariance"][4:6] == o[7:9], **info)
    for opts, want in (([], 0), (["-h"], 0), (["-v"], 0), (["-C"], 0), (["-n", "2"], 0), (["-s", "S", "-n", "0"], 1), (["-s", "S", "-n", "-4"], 1)):
        open(rec, "w").close()
        rc, out = h.run([main] + opts, {"CLI_RECORD": rec, "CLI_TYPE": "1"})
        h.check("nothing is computed for %s" % opts, rc == want and not open(rec).read(), rc=rc)


def main(job):
    h = H(job)
    quick = job.get("tier") != "thorough"
    program(h, job["main"])
    output(h, job["drv"], 40 if quick else 200)
    relative(h, job["drv"])
    parse(h, job["drv"], 60 if quick else 400)
    return h.n, h.bad
