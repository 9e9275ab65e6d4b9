#!/usr/bin/env python3-vt
"""mutate.py PROP FILE [n] [seed] [regex]: random single-token mutations of /repo/src/FILE in a scratch copy;
reports which the check misses.  Survivors are listed (some are equivalent)."""
import os, re, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
prop, fname, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
lo, hi = (int(x) for x in sys.argv[5].split("-")) if len(sys.argv) > 5 else (1, 10**6)
src = open("/repo/" + fname).read().split("\n")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [(r"\+ ", "- "), (r"- ", "+ "), (r"\*", "/"), (r"(?<![/*<])/(?![/*])", "*"), (r"&&", "||"), (r"\|\|", "&&"), (r"<(?![=\w<])", "<="), (r"<=", "<"),
         (r"==", "!="), (r">(?!=)", ">="), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b3\b", "4"), (r"\b0\b", "1"), (r"bias1", "bias2"), (r"bias2", "bias1"), (r"\bi\b", "j"), (r"\bj\b", "i"),
         (r"\bchi1\b", "chi2"), (r"\bchi2\b", "chi1"), (r"z_mean1", "z_mean2"), (r"z_mean2", "z_mean1"), (r"\bden\b", "rsd"), (r"\.", ".0"), (r"coffe_free_\w+\(.*\);", ";"), (r"_free_\w+\(\)", "balance_content"), (r"<(?= )", ">"), (r"\bmin\b","max"), (r"\bmax\b","min")]
if fname.endswith(".pyx"):
    RULES += [(r"self\._free_\w+\(\)", "pass"), (r"self\._\w+_init\(\)", "pass"), (r"\band\b", "or"), (r"\bnot ", ""), (r"density1", "density2"), (r"zmin", "zmax"), (r"\bg1\b", "g2"),
              (r"has_g\d", "has_d1"), (r"omega_(cdm|baryon|gamma)", "omega_m"), (r"Omega0_(cdm|m|gamma|nu|baryon)", "Omega0_de"), (r"_coeff", "h"), (r"covariance_poisson", "covariance_mixed"),
              (r"flatsky_local\b", "flatsky_nonlocal"), (r"\bfloat\b", "int"), (r"\bint\(", "float(")]
rnd = random.Random(seed)
cands = []
comment = False
for i, l in enumerate(src):
    if "/*" in l: comment = True
    if not comment and lo <= i + 1 <= hi and not l.strip().startswith(("#", "*", "//")) and l.strip():
        for a, b in RULES:
            for m in re.finditer(a, l):
                if b == ".0": continue
                cands.append((i, m.start(), m.end(), b))
    if "*/" in l: comment = False
rnd.shuffle(cands)
def one(k):
    i, s, e, b = cands[k]
    d = "/tmp/mt/%s_%d_%d" % (prop, os.getpid(), k)
    os.makedirs(d)
    try:
        for x in ("src", "python", "pyproject.toml", "generate_defaults.py", "CMakeLists.txt", "DEFAULT_SETTINGS.cfg", "tests", "PkL_CLASS.dat", "_build", "external", "cmake"):
            p = "/repo/" + x
            if os.path.isdir(p): subprocess.run(["cp", "-a", p, d])
            elif os.path.exists(p): shutil.copy(p, d)
        L = list(src)
        L[i] = L[i][:s] + b + L[i][e:]
        open(os.path.join(d, fname), "w").write("\n".join(L))
        env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d)
        if fname.endswith(".c"):
            q = subprocess.run(["gcc", "-std=gnu99", "-w", "-fopenmp", "-DPACKAGE_STRING=\"x\"", "-fsyntax-only", os.path.join(d, fname)], stderr=subprocess.PIPE)
            if q.returncode: return (k, "nocompile", "")
        try:
            p = subprocess.run(["python3-vt", VERIF + "/check.py", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, cwd=VERIF)
        except subprocess.TimeoutExpired:
            return (k, "TIMEOUT", "")
        o = p.stdout.decode(errors="replace")
        st = {0: "missed", 1: "caught"}.get(p.returncode, "ERROR%d" % p.returncode)
        if p.returncode == 1 and "VIOLATION" in o and all("no-failing" in l for l in o.splitlines() if l.startswith("VIOLATION")): st = "caught-noinput"
        if p.returncode == 0 and ", 0 open" not in o: st = "missed-open"
        return (k, st, o)
    finally:
        shutil.rmtree(d, ignore_errors=True)
cnt = {}
with ThreadPoolExecutor(int(os.environ.get("MT_JOBS", "6"))) as ex:
    for k, st, o in ex.map(one, range(min(n, len(cands)))):
        cnt[st] = cnt.get(st, 0) + 1
        if st not in ("caught", "nocompile", "caught-noinput"):
            i, s, e, b = cands[k]
            print("%s %s:%d: %s  [%s -> %s at %d]" % (st, fname, i + 1, src[i].strip()[:90], src[i][s:e][:30], b, s))
            if st.startswith("ERR"): print("   ", o[-700:])
            sys.stdout.flush()
print(len(cands), cnt)
