#!/usr/bin/env python3
"""Decides one property of aiq/tok:  python3 check.py C02 [quick|thorough]

1. builds the verifier (gocv) and the replay search from /verif, the latter against /repo
2. gocv reads /repo's current source, generates the obligations of every function the property
   depends on from the contracts in /verif/contracts, and discharges them with z3/cvc5
3. a failed obligation is retried with larger limits; what stays undischarged is a violation: the
   replay search then looks for a concrete failing input of the real code
4. functions the verifier cannot reach are covered by the replay search only (bounded, labelled so)

exit 0: held; exit 1: a VIOLATION line.  Nothing outside /verif/evidence, /verif/replays and a
scratch directory is written.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
ENV = dict(os.environ, GOFLAGS="", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off")
LIM = {
    "quick": dict(ms=8000, budget=240, ms2=25000, budget2=260, rs=6, rs2=40, wall=420),
    "thorough": dict(ms=60000, budget=1800, ms2=180000, budget2=3600, rs=300, rs2=900, wall=7200),
}[tier]
if prop == "C27" and tier == "quick":
    LIM["budget"] = 360

ASSUMPTIONS = [
    "string and slice lengths are at most 2^47 (no address space holds more); all other machine integers wrap exactly as in Go",
    "pointers, readers and functions passed in are not nil; the scanner, reader and log objects are not used by other goroutines during a call",
    "readers and functions passed in move a scanner only through its API: its position stays within the text and its text stays the same; match functions are pure",
    "a Tracker's Update does not move the scanner",
    "contracts of the Go standard library functions used (strings, unicode/utf8, strconv, errors, fmt, sort) are assumed as listed in gocv/lib.go",
    "the go/ssa translation of the source (golang.org/x/tools) and go/types agree with the compiler",
    "interior pointers do not alias whole objects reached through another type",
]

def log(*a):
    print(*a, file=sys.stderr, flush=True)

PROCS = []

def end(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass

def run(cmd, timeout, stop=False, **kw):
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True, **kw)
    if stop:
        PROCS.append(p)
    class R: pass
    r = R()
    try:
        r.stdout, r.stderr = p.communicate(timeout=timeout)
        r.returncode = p.returncode
    except subprocess.TimeoutExpired:
        end(p)
        r.stdout, r.stderr = p.communicate()
        r.returncode = 124; r.stderr += b"\ntimeout"
    return r

tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)

def build():
    g = run(["go", "build", "-mod=vendor", "-o", tmp + "/gocv", "."], 400, cwd=HERE + "/gocv")
    if g.returncode != 0:
        raise SystemExit("cannot build gocv: " + g.stderr.decode()[:2000])
    src = tmp + "/replaysrc"
    shutil.copytree(HERE + "/replay", src)
    if REPO != "/repo":
        s = open(src + "/go.mod").read().replace("=> /repo", "=> " + REPO)
        open(src + "/go.mod", "w").write(s)
    r = run(["go", "build", "-mod=mod", "-o", tmp + "/replay", "."], 400, cwd=src)
    return r.returncode == 0, r.stderr.decode()

def search(secs, sd, tag):
    out = "%s/replay-%s.json" % (tmp, tag)
    r = run([tmp + "/replay", "-p", prop, "-seconds", str(secs), "-seed", str(sd), "-out", out], secs + 60, cwd=tmp)
    try:
        return json.load(open(out))
    except Exception:
        if r.returncode in (0, 3):
            return None
        # the program itself was ended by what it ran (for example a stack overflow)
        return dict(found=True, what="the search program was ended by the code under test (exit %d):\n%s" % (
            r.returncode, (r.stderr or b"").decode(errors="replace")[:3000]), evaluations=0, distinct=0, samples=[])

def gocv(ms, budget, tag, timeout):
    out = "%s/check-%s.json" % (tmp, tag)
    r = run([tmp + "/gocv", "check", "-repo", REPO, "-contracts", HERE + "/contracts", "-p", prop, "-ms", str(ms), "-budget", str(budget),
             "-tier", tier, "-out", out], timeout, stop=True, cwd=tmp)
    try:
        return json.load(open(out))
    except Exception:
        return dict(ok=False, internal="gocv exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[:2000]), fns={}, failed=[], unsupported=[], missing=[], roots=[], lemmas=None)

def known():
    ks = []
    for l in open(HERE + "/known-findings.txt"):
        l = l.strip()
        if l.startswith("known: property=%s " % prop):
            ks.append(l[len("known: "):])
    return ks

def main():
    rep_ok, rep_err = build()
    meta = json.load(open(HERE + "/checks.json")).get(prop, {})
    for k in known():
        print("KNOWN-FINDING: " + k)
    res = {}
    ths = []
    def bg(name, f):
        t = threading.Thread(target=lambda: res.__setitem__(name, f()))
        t.start(); ths.append(t)
    if rep_ok:
        bg("r1", lambda: search(LIM["rs"], seed, "1"))
    bg("c1", lambda: gocv(LIM["ms"], LIM["budget"], "1", LIM["wall"]))
    while "c1" not in res and ths[-1].is_alive():
        ths[-1].join(1)
        # a failing input is known: the obligations that fail are waited for, but not for long
        if (res.get("r1") or {}).get("found") and tier == "quick" and time.time() - T0 > 150:
            for p in PROCS: end(p)
            ths[-1].join()
    for t in ths[:-1]: t.join()
    c, r = res["c1"], res.get("r1")
    tries = [c]
    found = r if r and r.get("found") else None
    evals = [r] if r else []
    if not c.get("ok") and not found:
        ths.clear()
        if rep_ok:
            bg("r2", lambda: search(LIM["rs2"], seed + 7919, "2"))
        if c.get("failed") or c.get("internal"):
            left = LIM["wall"] if tier == "thorough" else min(LIM["wall"], 800 - (time.time() - T0))
            if left > 60:
                bg("c2", lambda: gocv(LIM["ms2"], min(LIM["budget2"], int(left * 0.6)), "2", left))
        for t in ths: t.join()
        if "c2" in res:
            tries.append(res["c2"])
            if not res["c2"].get("internal"):
                c = res["c2"]
        if res.get("r2"):
            evals.append(res["r2"])
            if res["r2"].get("found"):
                found = res["r2"]
    code = report(c, tries, found, evals, rep_ok, rep_err, meta)
    return code

def report(c, tries, found, evals, rep_ok, rep_err, meta):
    fns = list((c.get("fns") or {}).values())
    if c.get("lemmas"):
        lem = c["lemmas"].get("obligs") or []
    else:
        lem = []
    obl = [o for f in fns for o in (f.get("obligs") or [])] + lem
    dis = [o for o in obl if o["result"] == "discharged"]
    failed = c.get("failed") or []
    outside = sorted((c.get("unsupported") or []) + ["%s: not in the tree" % m for m in (c.get("missing") or [])])
    if c.get("internal"):
        outside.append("verifier: " + c["internal"])
    violation = bool(found) or bool(failed)
    back = {}
    for o in obl:
        b = o.get("backend") or "none"
        back[b] = back.get(b, 0) + 1
    notes = sorted({n for f in fns for n in (f.get("notes") or [])})
    proved = sorted(f["func"] for f in fns if not f.get("unsupported") and not f.get("missing") and all(o["result"] == "discharged" for o in f.get("obligs") or []))
    cov = dict(
        obligations=len(obl), discharged=len(dis),
        checker_cmd="%s/gocv check -repo %s -contracts %s/contracts -p %s -ms %d (built from %s/gocv on this run)" % (tmp, REPO, HERE, prop, LIM["ms"], HERE),
        trusted_base=["gocv (the condition generator in /verif/gocv)", "golang.org/x/tools/go/ssa", "go/types", "z3-new", "z3", "cvc5", "assumed contracts of the standard library (gocv/lib.go, gocv/theory.go)"],
        functions_under_contract=proved, functions_under_contract_count=len(proved),
        functions_inlined=sorted({n for f in fns for n in (f.get("inlined") or [])}),
        contracts_replaced_by_body=c.get("contract_replaced_by_body") or [],
        assumed_contracts_used=sorted({n for f in fns for n in (f.get("used") or [])} - set(proved)),
        loops_with_inductive_invariants=sum(f.get("loops") or 0 for f in fns),
        invariants_kept=sum(f.get("invariants") or 0 for f in fns),
        lemma_obligations=len(lem), backends=back,
        solver_seconds=round(sum(f.get("solver_secs") or 0 for f in fns) + sum(o.get("secs") or 0 for o in lem), 2),
        undischarged=failed, outside_the_verifier=outside,
        bounded_stand_in=dict(
            label="bounded: random and small-scope search with an independent oracle; never counted as proved",
            for_functions=outside, also_run_as="search for a failing input of the real code",
            evaluations=sum(e.get("evaluations", 0) for e in evals), distinct=sum(e.get("distinct", 0) for e in evals),
            samples=[s for e in evals for s in e.get("samples") or []][:6]),
    )
    if not rep_ok:
        cov["bounded_stand_in"]["error"] = rep_err[:500]
    level = meta.get("level", "proof")
    if level != "proof":
        cov["explanation"] = meta.get("note", "")
        cov["evaluations"] = cov["bounded_stand_in"]["evaluations"]
        cov["distinct_nontrivial"] = cov["bounded_stand_in"]["distinct"]
        cov["rule"] = "cases are drawn by /verif/replay; a case counts once, by its full description"
        cov["samples"] = cov["bounded_stand_in"]["samples"]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUMPTIONS + notes + meta.get("assumptions", []),
              wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    if violation:
        os.makedirs(HERE + "/replays", exist_ok=True)
        path = HERE + "/replays/%s.txt" % prop
        with open(path, "w") as f:
            f.write("property %s\n\n" % prop)
            if found:
                f.write("FAILING INPUT (run against the code in %s):\n%s\n\n" % (REPO, found.get("what")))
                f.write("reproduce: cd %s/replay && go run -mod=mod . -p %s -seed %d -seconds %s\n\n" % (HERE, prop, seed if found is evals[0] else seed + 7919, LIM["rs"] if found is evals[0] else LIM["rs2"]))
            f.write("FAILED OBLIGATIONS:\n")
            for x in failed:
                f.write("  " + x + "\n")
            if not failed:
                f.write("  (none: the failing input concerns a function outside the verifier's reach: %s)\n" % "; ".join(outside))
            f.write("\nVERIFIER OUTPUT:\n")
            for o in obl:
                if o["result"] != "discharged":
                    f.write("- %s | %s | %s | %s | %s %.1fs\n" % (o["func"], o["kind"], o["name"], o["result"], o.get("backend"), o.get("secs") or 0))
                    if o.get("goal"): f.write("    goal: %s\n" % o["goal"])
                    if o.get("model"): f.write("    model: %s\n" % o["model"][:4000])
        for x in failed[:20]:
            print("failed obligation: " + x)
        if found:
            print("failing input: " + str(found.get("what"))[:1500])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
    else:
        st = "proved" if not outside else "proved except (bounded only): " + "; ".join(outside)
        print("OK property=%s %d/%d obligations of %d functions discharged; %s; %.0fs" % (prop, len(dis), len(obl), len(proved), st, time.time() - T0))
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    return 1 if violation else 0

try:
    rc = main()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc)
