#!/usr/bin/env python3
"""scripts_check.py ID TIER REPO: runs the research scripts of the repository
as they are, in a scratch directory, and judges what they report.

U06: the polynomials the coefficient generator fits are the minimax ones
     (Chebyshev's equioscillation theorem decides) and the error it reports is
     the largest error they have.
U07: the table of test outcomes shows the outcome of each test.
U08: the rows of the reference files are true statements about the functions.
U09: the reference locations and the cells H3 (a recording stand-in) gives.
"""
import ast, concurrent.futures, math, struct, warnings, io, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, contextlib, runpy

ID, TIER, REPO = sys.argv[1:4]
ROOT = os.environ["VERIF_ROOT"]
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
START = time.time()
viol, known, observed, samples = [], [], {}, []
evaluations = distinct = 0
RULE = ""
ASSUME = []


def count(what, n=1):
    observed[what] = observed.get(what, 0) + n


def violation(what, **data):
    path = os.path.join(ROOT, "evidence", "replay", "%s-%d.json" % (ID, len(viol)))
    viol.append(path)
    if len(viol) <= 5:
        with open(path, "w") as f:
            json.dump({"property": ID, "what": what, **data}, f, indent=1, default=str)
        print(what)
        print("VIOLATION property=%s replay=%s" % (ID, path))


def listed():
    """What the committed known-findings file lists for this property."""
    out = []
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=%s sig=(\S+) (.*)" % ID, l)
            if m:
                out.append((m.group(1), m.group(2).strip()))
    return dict(out)


def finding(key, what, **data):
    """Reports a failure: a known finding if the file lists it."""
    l = listed()
    if key in l:
        if key not in known:
            known.append(key)
            print("KNOWN-FINDING: property=%s %s" % (ID, l[key]))
        count("observations of known finding " + key)
    else:
        violation(what, **data)


# ---------------------------------------------------------------- U06

def fits():
    global evaluations, distinct, RULE
    from mpmath import mp
    RULE = ("one case is one function, interval and degree; non-trivial when the generator returned a polynomial "
            "whose error curve was sampled densely on the whole interval")
    path = os.path.join(REPO, "scripts", "generate_remez_coefficients.py")
    out = io.StringIO()

    def late(*a):
        raise TimeoutError("no result, more than twenty times slower than usual")
    signal.signal(signal.SIGALRM, late)
    try:
        signal.alarm(400)
        with contextlib.redirect_stdout(out):
            ns = runpy.run_path(path, run_name="__main__")
    except Exception as e:
        violation("the coefficient generator fails: %r" % e)
        return
    signal.alarm(0)
    mp.dps = 50

    def judge(name, f, n, lo, hi, coeffs, err):
        global evaluations, distinct
        evaluations += 1
        lo, hi = mp.mpf(lo), mp.mpf(hi)
        if len(coeffs) != n + 1:
            violation("%s: %d coefficients for degree %d" % (name, len(coeffs), n))
            return
        c = [mp.mpf(x) for x in coeffs]

        def e(x):
            s = mp.mpf(0)
            for a in reversed(c):
                s = s * x + a
            return f(x) - s
        # Chebyshev-spaced samples resolve every lobe of the error curve.
        k = 80 * (n + 2)
        xs = [lo + (hi - lo) * (1 - mp.cos(mp.pi * i / k)) / 2 for i in range(k + 1)]
        es = [e(x) for x in xs]
        top = max(abs(v) for v in es)
        # The coefficients come rounded to doubles, if they are doubles.
        big = max(abs(lo), abs(hi))
        slack = sum(abs(a) * big ** i for i, a in enumerate(c)) * mp.mpf(2) ** (-53 if isinstance(coeffs[0], float) else -120)
        count("error curve samples", k + 1)
        distinct += 1
        err = mp.mpf(err)
        tol = err * mp.mpf("1e-2") + slack
        if abs(top - err) > tol:
            violation("%s degree %d on [%s, %s]: reported maximum error %s, but the polynomial is off by %s" %
                      (name, n, mp.nstr(lo, 5), mp.nstr(hi, 5), mp.nstr(err, 8), mp.nstr(top, 8)),
                      coefficients=coeffs, reported=err, actual=top)
            return
        samples.append("%s degree %d on [%s, %s]: reported %s, sampled %s" %
                       (name, n, mp.nstr(lo, 5), mp.nstr(hi, 5), mp.nstr(err, 8), mp.nstr(top, 8)))
        if slack > err / 50:
            count("fits too fine for their rounded coefficients to show alternation")
            return
        # Best if and only if the error alternates n+2 times at its maximum.
        alt, last = 0, 0
        for v in es:
            if abs(v) >= top * mp.mpf("0.97"):
                s = 1 if v > 0 else -1
                if s != last:
                    alt, last = alt + 1, s
        if alt < n + 2:
            violation("%s degree %d on [%s, %s]: the error reaches its maximum with alternating sign %d times only, %d are needed for the best polynomial" %
                      (name, n, mp.nstr(lo, 5), mp.nstr(hi, 5), alt, n + 2), coefficients=coeffs)
        else:
            count("fits shown to be minimax by alternation")

    m = re.search(r"Polynomial Coefficients: (\[.*\])\s*\n\s*Maximum Error: (\S+)", out.getvalue())
    if not m:
        violation("the coefficient generator reports no result", stdout=out.getvalue())
    else:
        co = [float(x) for x in ast.literal_eval(m.group(1))]
        judge("atan (as run)", mp.atan, len(co) - 1, 0, 1, co, float(m.group(2)))
        if len(co) != 25:
            violation("the generator fits degree %d instead of 24" % (len(co) - 1))
        # The best error a polynomial of degree 24 can have; the rounding of
        # the coefficients hides it from the samples.
        elif abs(float(m.group(2)) / 8.5491772e-19 - 1) > 0.01:
            violation("the reported maximum error %s is not the 8.549e-19 of the best polynomial of degree 24" % m.group(2))
    remez = ns.get("remez")
    if remez is None:
        count("generator has no remez function to call with other functions")
        return
    # Monitored before its results are rounded to doubles.
    if hasattr(remez, "__globals__"):
        remez.__globals__["float"] = lambda x: x
    cases = [("atan", mp.atan, 0, 1), ("exp", mp.exp, 0, 1), ("sin", mp.sin, 0, 1.5),
             ("log1p", lambda x: mp.log(1 + x), 0, 1), ("exp", mp.exp, -1, 1), ("atan", mp.atan, 0, 0.5),
             ("reciprocal", lambda x: 1 / x, 1, 2), ("sqrt", mp.sqrt, 1, 4),
             ("atan", mp.atan, -0.5, 1), ("sin", mp.sin, -1, 2), ("exp", mp.exp, -2, -1)]
    rng = random.Random(SEED)
    # in the 10th degree on [0, 1], the arctangent's error has its extremes
    # elsewhere than at the ends in the first rounds
    todo = [(0, 10), (0, 24)] + [(k, n) for k in range(len(cases)) for n in (range(1, 17) if THOROUGH else rng.sample(range(2, 11), 2))]
    for k, n in todo:
        for name, f, lo, hi in cases[k:k + 1]:
            if len(viol) > 5:
                return
            try:
                signal.alarm(60)
                with contextlib.redirect_stdout(io.StringIO()):
                    co, err = remez(f, n, lo, hi)
            except Exception as x:
                violation("%s degree %d on [%s, %s]: the generator fails: %r" % (name, n, lo, hi, x))
                continue
            finally:
                signal.alarm(0)
            if not all(isinstance(x, mp.mpf) for x in co):
                co = [float(x) for x in co]
            judge(name, f, n, lo, hi, co, err)


# ---------------------------------------------------------------- U07

ROWS = {"P6": ("loc2index_P6_G16_BN254.txt", "TestLoc2IndexFromFile"),
        "P12": ("loc2index_P12_G16_BN254.txt", "TestLoc2IndexFromFile"),
        "F32": ("loc2index32_g16_bn254.txt", "TestLoc2Index32"),
        "F64": ("loc2index64_g16_bn254.txt", "TestLoc2Index64")}
PER, RES = 9, 16


def log(test, fails):
    """What `go test -v` writes for the outcomes, in the form of the committed logs."""
    n = PER * RES
    run = ["=== RUN   " + test]
    res = ["--- %s: %s (25.91s)" % ("FAIL" if fails else "PASS", test)]
    for i in range(n):
        t = test + "/bn254" + ("" if i == 0 else "#%02d" % i)
        run.append("=== RUN   " + t)
        if i in fails:
            res.append("    --- FAIL: %s (0.00s)" % t)
        else:
            run += ["=== RUN   %s/groth16" % t, "=== RUN   %s/groth16/valid_witness" % t]
            res += ["    --- PASS: %s (0.12s)" % t, "        --- PASS: %s/groth16 (0.10s)" % t,
                    "            --- PASS: %s/groth16/valid_witness (0.06s)" % t]
    return "\n".join(run + res + (["FAIL"] if fails else ["PASS"]) + ["ok"]) + "\n"


def outcomes(text, test):
    """The outcome of each test case, by the number in its name."""
    out = {}
    for m in re.finditer(r"^    --- (PASS|FAIL): %s/bn254(?:#(\d+))? " % test, text, re.M):
        out[int(m.group(2) or 0)] = m.group(1)
    return out


def table():
    global evaluations, distinct, RULE
    RULE = ("one case is one set of four logs; non-trivial when the table printed for it was compared cell by cell with "
            "the outcomes in the logs and at least one test failed")
    rng = random.Random(SEED)
    tmp = tempfile.mkdtemp(prefix="verif-table-")
    try:
        os.makedirs(tmp + "/scripts"); os.makedirs(tmp + "/benchmarks/tests"); os.makedirs(tmp + "/data/f32"); os.makedirs(tmp + "/data/f64")
        shutil.copy(REPO + "/scripts/generate_latex_table_tests.py", tmp + "/scripts/")
        for f in ("f32/loc2index32.txt", "f64/loc2index64.txt"):
            shutil.copy(REPO + "/data/" + f, tmp + "/data/" + f)
        n = PER * RES
        cases = [None, {k: set() for k in ROWS}, {k: set(range(n)) for k in ROWS}]
        for k in ROWS:
            for one in (PER, n - 1, PER * 6 - 1, PER * 6):
                cases.append({r: ({one} if r == k else set()) for r in ROWS})
        for _ in range(1500 if THOROUGH else 150):
            p = rng.choice([0.02, 0.1, 0.5, 0.9])
            cases.append({r: {i for i in range(n) if rng.random() < p} for r in ROWS})
        for case in cases:
            want = {}
            for r, (file, test) in ROWS.items():
                if case is None:
                    text = open(REPO + "/benchmarks/tests/" + file).read()
                else:
                    text = log(test, case[r])
                open(tmp + "/benchmarks/tests/" + file, "w").write(text)
                want[r] = outcomes(text, test)
            p = subprocess.run([sys.executable, "-W", "ignore", "generate_latex_table_tests.py"], cwd=tmp + "/scripts",
                               capture_output=True, text=True, timeout=60)
            evaluations += 1
            if p.returncode:
                violation("the table generator fails on complete logs: " + p.stderr[-300:], logs=case)
                continue
            got = {}
            for line in p.stdout.splitlines():
                m = re.match(r"\s*\\textbf\{(P6|P12|F32|F64)\}", line)
                if m:
                    got.setdefault(m.group(1), []).extend(re.findall(r"\\cellcolor\{(\w+)!", line))
            if any("FAIL" in want[r].values() for r in ROWS):
                distinct += 1
            for r in ROWS:
                # The table shows resolutions 1 to 15.
                exp = ["red" if want[r].get(i) == "FAIL" else "green" for i in range(PER, n)]
                count("cells compared", len(exp)); count("failed tests among them", exp.count("red"))
                if got.get(r) == exp:
                    continue
                key = None
                if r == "F64" and got.get(r) == ["green"] * (n - PER):
                    key = "F64-row-always-green"
                bad = [i for i in range(min(len(exp), len(got.get(r, [])))) if exp[i] != got[r][i]]
                what = "row %s of the table shows %d cells, %d of them not the outcome of their test (first: resolution %s)" % (
                    r, len(got.get(r, [])), len(bad), 1 + bad[0] // PER if bad else "-")
                if key:
                    finding(key, what, row=r, wrong=bad)
                else:
                    violation(what, row=r, wrong=bad)
            if len(viol) > 5:
                break
    finally:
        shutil.rmtree(tmp)
    samples.append("committed logs, all passing, all failing, single failures at row and resolution boundaries, random failures")


# ---------------------------------------------------------------- U08

def bits(x, w):
    return int.from_bytes(struct.pack(">f" if w == 4 else ">d", x), "big")


def value(b, w):
    return struct.unpack(">f" if w == 4 else ">d", b.to_bytes(w, "big"))[0]


def neighbour(x, w, up):
    """The next float above or below x, found on its bits."""
    if x == 0:
        return value(1, w) if up else -value(1, w)
    return value(bits(x, w) + (1 if (x > 0) == up else -1), w)


def exact(x, w, f):
    """f(x) in high precision and one unit in the last place there."""
    y = f(x)
    m, e = math.frexp(float(y))
    return y, math.ldexp(1.0, max(e - (24 if w == 4 else 53), -149 if w == 4 else -1074))


def unrounded(x, y, f, waves):
    """Whether y is f at some double that rounds to the single x."""
    half = max(math.ldexp(1.0, math.frexp(x)[1] - 25), 2.0 ** -150)
    if waves and half > 3:
        return -1 <= y <= 1
    n = 16 if waves else 1
    v = [float(f(x + half * i / n)) for i in range(-n, n + 1)]
    lo, hi = min(v), max(v)
    slack = (hi - lo) * 0.1 + max(abs(lo), abs(hi)) * 2.0 ** -24 * 1.01 + 2.0 ** -150
    return lo - slack <= y <= hi + slack


def run_script(name, dirs, seed=None, timeout=300):
    """Runs a script as it is, with the given random seed, in a scratch directory with the given folders."""
    tmp = tempfile.mkdtemp(prefix="verif-script-")
    for d in dirs:
        os.makedirs(os.path.join(tmp, d))
    code = ("import random,runpy,sys\nrandom.seed(%r)\n"
            "runpy.run_path(%r, run_name='__main__')" % (seed, os.path.join(REPO, name)))
    p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], cwd=tmp, capture_output=True, text=True, timeout=timeout)
    return tmp, p


CUBIC = [5, 1, 2, 3]
DEGREE10 = [1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1]


def references():
    global evaluations, distinct, RULE
    from fractions import Fraction
    from mpmath import mp
    mp.dps = 420
    RULE = ("one case is one row of a generated file; non-trivial when its result was compared with the value of the "
            "function at the input as stored, in high precision, and its neighbours with the floats next to the result")
    rng = random.Random(SEED)

    def rows(tmp, name, w, cols):
        global evaluations
        out = []
        try:
            text = open(os.path.join(tmp, name)).read()
        except OSError as e:
            violation("%s is not written: %r" % (name, e))
            return out
        lines = text.split("\n")
        if lines[-1] != "" or len(lines) != 1001:
            violation("%s has %d lines instead of 1000" % (name, len(lines) - 1))
        for l in lines[:-1]:
            t = l.split(" ")
            evaluations += 1
            if len(t) != cols or not all(re.fullmatch("[0-9A-F]{%d}" % (2 * w), c) for c in t):
                violation("%s: row %r is not %d numbers of %d hexadecimal digits" % (name, l, cols, 2 * w))
                continue
            out.append([value(int(c, 16), w) for c in t])
        return out

    kinds = {4: set(), 8: set()}
    for k in range(12 if THOROUGH else 3):
        if len(viol) > 5:
            break
        seed = rng.getrandbits(40)
        tmp, p = run_script("data/generate_test_math.py", ["f32", "f64"], seed)
        try:
            if p.returncode:
                violation("the generator of function values fails: " + p.stderr[-300:])
            for fn, f in (("atan", mp.atan), ("sin", mp.sin)):
                for w in (4, 8):
                    name = "f%d/%s_ulp" % (8 * w, fn)
                    for x, y, lo, hi in rows(tmp, name, w, 4):
                        if not math.isfinite(x):
                            violation("%s: input %r" % (name, x))
                            continue
                        e, u = exact(mp.mpf(x), w, f)
                        distinct += 1
                        count("function values compared")
                        kinds[w].add((x < 0, math.frexp(x)[1] // 8))
                        # The C library is within one unit, single precision results are rounded from double.
                        if abs(mp.mpf(y) - e) > u * (0.51 if w == 4 else 1):
                            what = "%s: %s(%r) is %s, the row says %r" % (name, fn, x, mp.nstr(e, 20), y)
                            if w == 4 and unrounded(x, y, lambda t: f(mp.mpf(t)), fn == "sin"):
                                finding("f32-unrounded-input", what, seed=seed)
                            else:
                                violation(what, seed=seed)
                        if lo != neighbour(y, w, False) or hi != neighbour(y, w, True):
                            violation("%s: %r and %r are not the floats next to %r" % (name, lo, hi, y), seed=seed)
        finally:
            shutil.rmtree(tmp)
        tmp, p = run_script("data/generate_test_polynomial.py", ["f32", "f64"], seed)
        try:
            if p.returncode:
                violation("the generator of polynomial values fails: " + p.stderr[-300:])
            for fn, co in (("poly_cubic", CUBIC), ("poly_degree10", DEGREE10)):
                for w in (4, 8):
                    name = "f%d/%s" % (8 * w, fn)
                    seen = set()
                    for x, y in rows(tmp, name, w, 2):
                        if not -100 <= x <= 100:
                            violation("%s: input %r is outside [-100, 100]" % (name, x))
                            continue
                        q = Fraction(x)
                        e = sum(c * q ** i for i, c in enumerate(co))
                        size = sum(abs(c * q ** i) for i, c in enumerate(co))
                        distinct += 1
                        count("polynomial values compared")
                        seen.add(int(x // 20))
                        if abs(Fraction(y) - e) > size * Fraction(1, 2 ** 49) + (abs(e) * Fraction(102, 100 * 2 ** 24) if w == 4 else 0):
                            what = "%s: the polynomial at %r is %r, the row says %r" % (name, x, float(e), y)
                            if w == 4 and unrounded(x, y, lambda t: sum(c * Fraction(t) ** i for i, c in enumerate(co)), False):
                                finding("f32-unrounded-input", what, seed=seed)
                            else:
                                violation(what, seed=seed)
                    if len(seen) < 10 and len(viol) == 0:
                        violation("%s: no input in one of the ten parts of [-100, 100]" % name, parts=sorted(seen))
        finally:
            shutil.rmtree(tmp)
        samples.append("seed %d: 4 files of function values, 4 files of polynomial values" % seed)
    for w in kinds:
        count("classes of sign and magnitude among the inputs, %d bits" % (8 * w), len(kinds[w]))
    for w in kinds:
        need = {(neg, size) for neg in (False, True) for size in ("small", "large")}
        got = {(neg, "small" if c <= -4 else "large") for neg, c in kinds[w] if c <= -4 or c >= 12}
        if got != need and not viol:
            violation("the inputs of %d bits miss a sign or magnitude" % (8 * w), missing=sorted(need - got))
    # The neighbours of numbers that random draws do not meet.
    warnings.simplefilter("ignore")  # of numpy, about the neighbour of the largest float
    tmp = tempfile.mkdtemp(prefix="verif-script-")
    cwd = os.getcwd()
    try:
        os.makedirs(tmp + "/f32"); os.makedirs(tmp + "/f64"); os.chdir(tmp)
        ns = runpy.run_path(os.path.join(REPO, "data/generate_test_math.py"), run_name="__main__")
    finally:
        os.chdir(cwd); shutil.rmtree(tmp)
    g = ns.get("find_surrounding_floats")
    try:
        g(1.5, "float32"), g(1.5, "float64")
    except Exception:  # renamed, or with other parameters
        count("generator has no function for neighbours to call")
        return
    for w in (4, 8):
        top = bits(float("inf"), w) - 1
        special = [0, 1, 2, 1 << (23 if w == 4 else 52), (1 << (23 if w == 4 else 52)) - 1, bits(1.0, w), bits(1.0, w) - 1, bits(2.0, w), bits(0.5, w), top - 1, top]
        special += [rng.randrange(top) for _ in range(2000)]
        for b in special:
            for sign in (1, -1):
                r = sign * value(b, w)
                lo, hi = g(r, "float%d" % (8 * w))
                evaluations += 1
                count("neighbours compared")
                a, c = neighbour(r, w, False), neighbour(r, w, True)
                if float(lo) != a or float(hi) != c:
                    violation("%d bits: the floats next to %r are said to be %r and %r, not %r and %r" % (8 * w, r, float(lo), float(hi), a, c))


# ---------------------------------------------------------------- U09

STUB = """#!/bin/sh
# Stand-in of an H3 program: answers its n-th call with line n of its answers
# and records the call.
d=%s
p=$(basename "$0")
n=$(($(wc -l < $d/$p.log) + 1))
printf '%%s\\n' "$*" >> $d/$p.log
if [ -e $d/$p.fail.$n ]; then cat $d/$p.fail.$n; exit $(cat $d/$p.code); fi
sed -n "${n}p" $d/$p.answers | tr '|' '\\n'
"""


def locations():
    global evaluations, distinct, RULE
    RULE = ("one case is one run of the generator with one set of answers of the stand-ins; non-trivial when all 144 rows "
            "of the file it wrote were compared with the calls recorded, or when a failure of an H3 program was injected")
    rng = random.Random(SEED)
    progs = ("latLngToCell", "cellToLatLng", "cellToBoundary")

    def case(seed, fault):
        r = random.Random(seed)
        tmp = tempfile.mkdtemp(prefix="verif-h3-")
        try:
            bin = tmp + "/h3-master/build/bin"
            for d in (bin, tmp + "/log", tmp + "/data/f32", tmp + "/data/f64"):
                os.makedirs(d)
            for p in progs:
                open(bin + "/" + p, "w").write(STUB % (tmp + "/log"))
                os.chmod(bin + "/" + p, 0o755)
                open(tmp + "/log/" + p + ".log", "w").close()
            cells, centres, bounds = [], [], []
            for i in range(400):
                cells.append((("%x" % (0x8000000000000000 + r.getrandbits(60)))[:r.choice([15, 16])], r.choice([0, 1, r.randrange(20), r.randrange(10 ** 7)]), r.randrange(10 ** r.randrange(1, 7)), r.randrange(3)))
            for i in range(40):
                lat, lng = r.uniform(-80, 80), r.uniform(-170, 170)
                if r.random() < 0.3:
                    lat, lng = r.uniform(-2, 2), r.uniform(-2, 2)
                if fault:  # so that every run gets to the call that fails
                    lat, lng = r.uniform(10, 80), r.uniform(10, 170)
                centres.append((lat, lng))
                s = 10 ** r.uniform(-5, 0.9)
                bounds.append([(lat + r.uniform(-s, s), lng + r.uniform(-s, s)) for _ in range(r.choice([5, 6]))])
            prec = r.choice([9, 10, 15])
            f = lambda v: "%.*f" % (prec, v)
            open(tmp + "/log/latLngToCell.answers", "w").write("".join("I: %d, J: %d, K: %d|--- %s\n" % (c[1], c[2], c[3], c[0]) for c in cells))
            open(tmp + "/log/cellToLatLng.answers", "w").write("".join("%s %s\n" % (f(a), f(b)) for a, b in centres))
            open(tmp + "/log/cellToBoundary.answers", "w").write("".join("{|" + "|".join("   %s %s" % (f(a), f(b)) for a, b in v) + "|}\n" for v in bounds))
            centres = [tuple(float(f(x)) for x in c) for c in centres]
            bounds = [[tuple(float(f(x)) for x in c) for c in v] for v in bounds]
            old = "left from before\n"
            open(tmp + "/data/f64/loc2index64.txt", "w").write(old)
            if fault:
                prog, nth, answer, code = fault
                open("%s/log/%s.fail.%d" % (tmp, prog, nth), "w").write(answer)
                open("%s/log/%s.code" % (tmp, prog), "w").write(str(code))
            p = subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(REPO, "data/generate_test_loc2index.py")],
                               cwd=tmp + "/data", capture_output=True, text=True, timeout=200)
            text = open(tmp + "/data/f64/loc2index64.txt").read()
            calls = {}
            for q in progs:
                calls[q] = []
                for l in open(tmp + "/log/" + q + ".log").read().split("\n")[:-1]:
                    t = l.split(" ")
                    calls[q].append(dict(zip(t[0::2], t[1::2])))
            other = sorted(os.path.join(d, x)[len(tmp):] for d, _, fs in os.walk(tmp + "/data") for x in fs)
            return p, text, calls, cells, centres, bounds, old, other
        finally:
            shutil.rmtree(tmp)

    faults = []
    for prog, calls in (("latLngToCell", 160), ("cellToLatLng", 16), ("cellToBoundary", 16)):
        for nth in sorted({1, 2, 11, calls} | {rng.randrange(1, calls + 1) for _ in range(12 if THOROUGH else 2)}):
            if nth > calls:
                continue
            faults.append((prog, nth, "", 1))
            if prog == "latLngToCell":
                faults.append((prog, nth, "no cell there\n", 0))
                faults.append((prog, nth, "I: 1, J: 2, K: 3\n--- 8a2d0ec0d6effff\n", 3))
            if prog == "cellToLatLng":
                faults.append((prog, nth, "no location\n", 0))
                faults.append((prog, nth, "40.5 33.5\n", 7))
            if prog == "cellToBoundary":
                faults.append((prog, nth, "{\n   40.5 33.5\n   40.6 33.5\n}\n", 9))
    todo = [(rng.getrandbits(40), None) for _ in range(120 if THOROUGH else 16)] + [(rng.getrandbits(40), f) for f in faults]

    def answer(v):
        return "{\n" + "\n".join("   %.15f %.15f" % c for c in v) + "\n}"

    def judge(seed, fault, res):
        global evaluations, distinct
        p, text, calls, cells, centres, bounds, old, other = res
        evaluations += 1
        distinct += 1
        for q in calls:
            count("calls recorded, " + q, len(calls[q]))
        if fault:
            count("failures of H3 programs injected")
            if len(calls[fault[0]]) < fault[1]:
                violation("the generator calls %s %d times only" % (fault[0], len(calls[fault[0]])), seed=seed)
            elif text != old:
                violation("%s answers its call %d with %r and status %d, but the generator writes a file" % (fault[0], fault[1], fault[2], fault[3]), seed=seed)
            return
        if p.returncode:
            violation("the generator fails: " + p.stderr[-300:], seed=seed)
            return
        if text == old:
            violation("the generator writes no file although every H3 program answered: " + p.stdout[-300:], seed=seed)
            return
        try:
            ask = [(float(c["--latitude"]), float(c["--longitude"]), int(c["--resolution"]), c["--latitude"], c["--longitude"]) for c in calls["latLngToCell"]]
            centre = {c["--index"]: centres[i] for i, c in enumerate(calls["cellToLatLng"])}
            whole = {c["--index"]: bounds[i] for i, c in enumerate(calls["cellToBoundary"])}
            vertex = {c["--index"]: bounds[i][0] for i, c in enumerate(calls["cellToBoundary"])}
        except (KeyError, ValueError) as e:
            violation("the generator calls an H3 program with other arguments: %r" % e, calls=str(calls)[:2000])
            return
        for a in ask:
            if not all(re.fullmatch(r"-?\d+\.\d{30}", t) for t in a[3:]):
                violation("latLngToCell is asked about %s %s, not 30 decimals" % a[3:], seed=seed)
                return
        lines = text.split("\n")
        want, where = [], []
        misread = None
        for res in range(16):
            # The cell of this resolution: the one whose centre was asked for.
            idx = [cells[i][0] for i, a in enumerate(ask) if a[2] == res and cells[i][0] in centre and a[:2] == (40.689167, 33.044444)]
            if not idx or idx[0] not in vertex:
                violation("resolution %d: centre and boundary of the cell of the example location are not asked for" % res, seed=seed)
                return
            (a, b), (c, d) = centre[idx[0]], vertex[idx[0]]
            if min(min(v) for v in whole[idx[0]]) < 0:
                # What a reader that knows no minus signs makes of the boundary.
                m = re.findall(r"(\d+\.\d+)\s+(\d+\.\d+)", answer(whole[idx[0]]))
                if not m and not any(l.split(" ")[2:3] == ["%X" % res] for l in lines):
                    misread = "resolution %d is left out: its boundary has negative coordinates" % res
                    continue
                old = tuple(map(float, m[0])) if m else (c, d)
                t = math.log(2) / math.log(20)
                first = next((l.split(" ") for l in lines if l.split(" ")[2:3] == ["%X" % res]), None)
                try:
                    x, y = value(int(first[0], 16), 8), value(int(first[1], 16), 8)
                except Exception:
                    x = y = math.nan
                if old != (c, d) and abs(x - math.radians(a + (old[0] - a) * t)) < 1e-13 and abs(y - math.radians(b + (old[1] - b) * t)) < 1e-13:
                    misread = "resolution %d: the first vertex is (%r, %r), read as (%r, %r)" % (res, c, d, *old)
                    c, d = old
            for i in range(2, 11):
                t = math.log(i) / math.log(20)
                lat, lng = a + (c - a) * t, b + (d - b) * t
                ijk = {cells[n][1:] for n, q in enumerate(ask) if q[2] == res and abs(q[0] - lat) < 1e-11 and abs(q[1] - lng) < 1e-11}
                want.append((math.radians(lat), math.radians(lng), res, ijk))
                where.append(i)
        if misread:
            finding("boundary-minus-sign", misread, seed=seed)
        if lines[-1] != "" or len(lines) != len(want) + 1:
            violation("the file has %d rows instead of %d" % (len(lines) - 1, len(want)), seed=seed)
            return
        for l, (lat, lng, res, ijk), i in zip(lines, want, where):
            t = l.split(" ")
            count("rows compared")
            if len(t) != 6 or not all(re.fullmatch("[0-9A-F]{16}", c) for c in t[:2]) or not all(re.fullmatch("[0-9A-F]+", c) for c in t[2:]):
                violation("row %r is not in the form of the recorded data" % l, seed=seed)
                return
            x, y = value(int(t[0], 16), 8), value(int(t[1], 16), 8)
            got = tuple(int(c, 16) for c in t[3:])
            if abs(x - lat) > 1e-13 or abs(y - lng) > 1e-13:
                violation("resolution %d, point %d is at %r, %r radians, the row says %r, %r" % (res, i, lat, lng, x, y), seed=seed)
                return
            if int(t[2], 16) != res or got not in ijk:
                violation("resolution %d, point %d: H3 answers %s, the row says resolution %s, %s" % (res, i, sorted(ijk), t[2], got), seed=seed)
                return
        if any(a < 0 for a, _ in centre.values()) and any(b < 0 for _, b in centre.values()):
            count("files with southern and western cells")

    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for (seed, fault), res in zip(todo, ex.map(lambda a: case(*a), todo)):
            if len(viol) <= 5:
                judge(seed, fault, res)
    samples.append("answers with cells in every hemisphere; failures: " + ", ".join("%s call %d status %d" % (f[0], f[1], f[3]) for f in faults[:10]))
    # The single precision file, which the generator writes when told to.
    tmp = tempfile.mkdtemp(prefix="verif-h3-")
    cwd = os.getcwd()
    try:
        os.makedirs(tmp + "/f32"); os.makedirs(tmp + "/f64"); os.chdir(tmp)
        with contextlib.redirect_stdout(io.StringIO()):
            ns = runpy.run_path(os.path.join(REPO, "data/generate_test_loc2index.py"), run_name="__main__")
        w = ns.get("write_to_file")
        if w is None:
            count("generator has no writer to call")
            return
        for _ in range(200 if THOROUGH else 20):
            data = [(rng.uniform(-1.6, 1.6), rng.uniform(-3.2, 3.2), rng.randrange(16), rng.randrange(10 ** 7), rng.randrange(100), rng.randrange(2)) for _ in range(rng.randrange(0, 60))]
            data += [(0.0, -0.0, 15, 0, 0, 0), (2 ** -130, -2.0 ** -149, 10, 255, 16, 1)]
            for single in (True, False):
                w(data, single)
                n = 4 if single else 8
                got = open("f%d/loc2index%d.txt" % (8 * n, 8 * n)).read()
                exp = "".join("%0*X %0*X %X %X %X %X\n" % (2 * n, bits(d[0], n), 2 * n, bits(d[1], n), *d[2:]) for d in data)
                evaluations += 1
                count("written rows compared", len(data))
                if got != exp:
                    a, b = next(((a, b) for a, b in zip(got.split("\n"), exp.split("\n")) if a != b), (got[-80:], exp[-80:]))
                    violation("%d bits: the writer writes %r for %r" % (8 * n, a, b))
                    return
    finally:
        os.chdir(cwd); shutil.rmtree(tmp)


{"U06": fits, "U07": table, "U08": references, "U09": locations}[ID]()
ev = {"property": ID, "level": "exploration", "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
      "wall_s": round(time.time() - START, 3), "violations": len(viol), "assumptions": [],
      "coverage": {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": RULE,
                   "observed": observed, "samples": samples[:20]}}
if known:
    ev["known_findings"] = known
with open(os.path.join(ROOT, "evidence", ID + ".json"), "w") as f:
    json.dump(ev, f, indent=1)
print("%s %s: %d cases, %d violations, %s" % (ID, TIER, evaluations, len(viol), observed))
sys.exit(1 if viol else 0)
