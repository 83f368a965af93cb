"""Runs the check of one property: extract, generate obligations, discharge, replay, report."""
import importlib, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import z3
from . import engine
from .engine import discharge, model_of, STATS, TIER, solve_text, smt2, PathEnd
from .frontend import Program, Unsupported, ExtractError, REPO, INC
from .interp import Interp

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Unit:
    """One function (or lemma) under contract: harness `fn(e)` explored on all paths."""
    def __init__(self, name, fn, setup=None, prog="main", timeout=None, budget=None, needs=1, engine=None, **opts):
        self.name, self.fn, self.setup, self.prog, self.opts = name, fn, setup, prog, opts
        self.timeout, self.needs, self.budget = timeout, needs, budget
        self.engine = engine


def py(v):
    """z3 model value -> JSON-able"""
    if z3.is_string_value(v):
        s = v.as_string()
        return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return str(v)


def run_unit(mod, unit, progs):
    t0 = time.time()
    out = {"unit": unit.name, "status": "proved", "obligations": [], "paths": 0, "inlined": [], "contracts": [],
           "trusted": [], "error": None, "models": [], "covers": {}}
    try:
        cls = unit.engine or Interp
        e = cls(progs[unit.prog] if unit.prog else None, unit.name, **unit.opts)
        if unit.timeout:
            e.timeout = unit.timeout
        e.deadline = time.time() + (unit.budget or (240 if TIER == "quick" else 600))
        if unit.setup:
            unit.setup(e)
        e.explore(unit.fn)
        out["paths"] = e.npaths
        out["inlined"] = sorted(getattr(e, "inlined", []))
        out["contracts"] = sorted(getattr(e, "contract_calls", []))
        out["trusted"] = sorted(set(e.trusted) | set(getattr(getattr(e, "lib", None), "used", ())))
        discharge(e.obls, e.timeout, workers=3)
        if len(e.obls) < unit.needs:
            out["status"] = "undecided"
            out["error"] = "vacuous: %d obligations generated, at least %d expected" % (len(e.obls), unit.needs)
        for nm, pcs in e.covers.items():
            ok = False
            for pc in pcs[:60]:
                st, be, dt = solve_text(smt2(pc, z3.BoolVal(False)), 5)
                if st == "refuted":
                    ok = True
                    break
                if st == "unknown":
                    ok = None
            out["covers"][nm] = ok
            if ok is False:
                out["status"] = "undecided"
                out["error"] = "vacuous: %s is unreachable" % nm
        for o in e.obls:
            out["obligations"].append((o.name, o.status, o.backend, round(o.time, 3), o.loc, o.kind))
            if o.status != "proved":
                m = None
                if o.status == "refuted" and o.witness and len(out["models"]) < 8:
                    try:
                        m = model_of(o)
                    except z3.Z3Exception:
                        m = None
                    if m is not None:
                        w = {k: py(m.eval(v, True)) for k, v in o.witness.items() if isinstance(v, z3.ExprRef)}
                        out["models"].append({"obligation": o.name, "values": w})
        bad = [o for o in e.obls if o.status != "proved"]
        if bad:
            out["status"] = "refuted" if any(o.status == "refuted" for o in bad) else "unknown"
            out["dropped"] = sorted({d for L in getattr(e, "loops", {}).values() for d in L.dropped})
    except (Unsupported, ExtractError) as x:
        out["status"], out["error"] = "undecided", "%s: %s" % (type(x).__name__, x)
    except PathEnd:
        out["status"], out["error"] = "undecided", "path ended outside exploration"
    except Exception:
        out["status"], out["error"] = "undecided", "internal: " + traceback.format_exc()[-1500:]
    out["wall"] = round(time.time() - t0, 2)
    out["stats"] = dict(STATS)
    return out


def _child(mod, unit, progs, q, i):
    try:
        q.put((i, run_unit(mod, unit, progs)))
    except BaseException:
        q.put((i, {"unit": unit.name, "status": "undecided", "error": traceback.format_exc()[-800:],
                   "obligations": [], "paths": 0, "inlined": [], "contracts": [], "trusted": [], "models": [],
                   "covers": {}, "wall": 0, "stats": {}}))


def run_units(mod, units, progs, workers=7, limit=None):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    res = [None] * len(units)
    running, nxt, t0 = {}, 0, time.time()
    limit = limit or (500 if TIER == "quick" else 3000)
    while nxt < len(units) or running:
        while nxt < len(units) and len(running) < workers:
            p = ctx.Process(target=_child, args=(mod, units[nxt], progs, q, nxt), daemon=False)
            p.start()
            running[nxt] = p
            nxt += 1
        try:
            i, r = q.get(timeout=1)
            res[i] = r
            running.pop(i).join()
        except Exception:
            for i, p in list(running.items()):
                if not p.is_alive() and q.empty():
                    p.join()
                    if res[i] is None:
                        res[i] = dict(unit=units[i].name, status="undecided", error="worker died", obligations=[],
                                      paths=0, inlined=[], contracts=[], trusted=[], models=[], covers={}, wall=0,
                                      stats={})
                        running.pop(i)
            if time.time() - t0 > limit:
                for i, p in list(running.items()):
                    p.kill()
                    p.join()
                    res[i] = dict(unit=units[i].name, status="undecided", error="time budget", obligations=[], paths=0,
                                  inlined=[], contracts=[], trusted=[], models=[], covers={}, wall=0, stats={})
                    running.pop(i)
                for i in range(nxt, len(units)):
                    res[i] = dict(unit=units[i].name, status="undecided", error="time budget", obligations=[], paths=0,
                                  inlined=[], contracts=[], trusted=[], models=[], covers={}, wall=0, stats={})
                nxt = len(units)
    return res


# ------------------------------------------------------------------ replay on the real code

def build_driver(drv, work):
    """drv: dict(src, extra sources from /repo, flags)"""
    exe = os.path.join(work, "driver")
    flags = drv.get("flags", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=shift",
                              "-fno-sanitize-recover=undefined"])
    cxx = drv.get("cxx", "g++")
    srcs = [os.path.join(VERIF, "replay", drv["src"])] + [os.path.join(REPO, s) for s in drv.get("repo", [])]
    objs, procs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(work, "o%d.o" % i)
        objs.append(o)
        procs.append(subprocess.Popen([cxx, "-std=" + drv.get("std", "c++17"), *flags, *INC, "-I" + VERIF + "/replay",
                                       "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    msg = ""
    for p in procs:
        outp = p.communicate()[0]
        if p.returncode:
            msg += outp[-2000:]
    if msg:
        return None, msg
    p = subprocess.run([cxx, *flags, *objs, "-o", exe, "-pthread"] + drv.get("libs", []), capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-2000:]
    return exe, ""


def run_driver(drv, exe, hints, work, seconds):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=77"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    env["VP_SEED"] = str(SEED)
    env["VP_SECONDS"] = str(seconds)
    hf = os.path.join(work, "hints")
    with open(hf, "w") as f:
        for h in hints:
            f.write(h + "\n")
    env["VP_HINTS"] = hf
    cmd = [exe] if not drv.get("python") else drv["cmd"]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=seconds * 3 + 60, env=env,
                           cwd=work)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), \
            "driver did not finish"


def hexs(v):
    if isinstance(v, bool):
        return "b %d" % v
    if isinstance(v, int):
        return "i %d" % v
    if isinstance(v, str):
        try:
            return "s " + v.encode("latin-1").hex()
        except UnicodeEncodeError:
            return "s " + "".join("%02x" % (ord(c) & 255) for c in v)
    return "# " + str(v)


def replay(mod, results, seconds):
    """-> dict(status in clean/fail/nobuild, text, evaluations)"""
    drv = getattr(mod, "DRIVER", None)
    if drv is None:
        return {"status": "none", "text": "", "evals": 0}
    work = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        hints = []
        for r in results:
            for m in r.get("models", []):
                hints.append("m " + m["obligation"].replace("\n", " "))
                for k, v in m["values"].items():
                    hints.append("%s %s" % (k.replace(" ", "_"), hexs(v)))
        if drv.get("python"):
            drv = dict(drv)
            drv["cmd"] = [x.replace("@VERIF@", VERIF).replace("@REPO@", REPO) for x in drv["cmd"]]
            exe = None
        else:
            exe, msg = build_driver(drv, work)
            if exe is None:
                return {"status": "nobuild", "text": msg, "evals": 0}
        rc, out, err = run_driver(drv, exe, hints, work, seconds)
        ev = [int(m) for m in re.findall(r"^EVALS (\d+)", out, re.M)]
        base = {"evals": sum(ev), "samples": re.findall(r"^SAMPLE (.*)$", out, re.M)[:6]}
        fails = re.findall(r"^FAIL (.*)$", out, re.M)
        if fails:
            return dict(base, status="fail", text=out[-4000:] + "\n" + err[-3000:], fails=fails, rc=rc)
        if rc == 0:
            return dict(base, status="clean", text=out[-500:])
        last = re.findall(r"^AT (.*)$", out, re.M)
        what = "crash or sanitizer report (exit %s) at %s" % (rc, last[-1] if last else "?")
        if rc == 124:
            what = "does not terminate at %s" % (last[-1] if last else "?")
        if rc in (77, 66, 124, -6, -8, -11, 134, 136, 139):
            return dict(base, status="fail", text=out[-2000:] + "\n" + err[-5000:], fails=[what], rc=rc)
        return dict(base, status="error", text="driver exit %s\n%s\n%s" % (rc, out[-1000:], err[-2000:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) match=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(pid):
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    results, progs, perr = [], {}, None
    try:
        for k, txt in mod.PROGS.items():
            progs[k] = Program(txt, getattr(mod, "CLANG_FLAGS", ()), pid.lower() + "_" + k)
    except ExtractError as x:
        perr = str(x)
    units = mod.units() if callable(getattr(mod, "units", None)) else mod.UNITS
    if perr is None:
        results = run_units(mod, units, progs)
    else:
        results = [dict(unit=u.name, status="undecided", error=perr[:1500], obligations=[], paths=0, inlined=[],
                        contracts=[], trusted=[], models=[], covers={}, wall=0, stats={}) for u in units]
    nobl = sum(len(r["obligations"]) for r in results)
    ndis = sum(1 for r in results for o in r["obligations"] if o[1] == "proved")
    bad = [r for r in results if r["status"] != "proved"]
    refuted = [r for r in bad if r["status"] == "refuted"]
    secs = getattr(mod, "REPLAY_SECONDS", 4) * (1 if not bad else 4)
    if TIER == "thorough":
        secs *= 5
    rep = replay(mod, results, secs)
    known = known_findings(pid)
    rc = 0
    rdir = os.path.join(VERIF, "evidence")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".replay.txt")
    nviol = 0
    for r in results:
        print("%-10s %-58s obligations %3d discharged %3d paths %d (%.1fs)%s" % (
            r["status"], r["unit"], len(r["obligations"]), sum(1 for o in r["obligations"] if o[1] == "proved"),
            r["paths"], r["wall"], "  " + r["error"].strip().splitlines()[-1][:200] if r["error"] else ""))
        for o in r["obligations"]:
            if o[1] != "proved":
                print("    %s: %s [%s] at %s" % (o[1], o[0], o[2], o[4]))
    print("replay on the real code: %s (%d evaluations)" % (rep["status"], rep.get("evals", 0)))
    fails = list(rep.get("fails", []))
    left = []
    for f in fails:
        hit = [d for k, d in known if k in f.replace(" ", "_")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
        else:
            left.append(f)
    failed_obl = [(r["unit"], o) for r in results for o in r["obligations"] if o[1] != "proved"]
    if rep["status"] == "fail" and left:
        with open(rpath, "w") as f:
            f.write("property %s\nfailing input on the real code:\n" % pid)
            for x in left:
                f.write("  %s\n" % x)
            f.write("\nfailed obligations:\n")
            for u, o in failed_obl:
                f.write("  %s: %s (%s, %s) at %s\n" % (u, o[0], o[1], o[2], o[4]))
            for r in results:
                if r["error"]:
                    f.write("  %s: %s\n" % (r["unit"], r["error"]))
                for m in r["models"]:
                    f.write("  counterexample %s\n" % json.dumps(m))
            f.write("\nre-run: VP_SEED=%d python3-vt -m vc.check %s\n\n%s\n" % (SEED, pid, rep["text"]))
        print("failing input: " + left[0])
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        rc, nviol = 1, len(left)
    elif refuted:
        with open(rpath, "w") as f:
            f.write("property %s: obligations refuted, no failing input found on the real code\n" % pid)
            for u, o in failed_obl:
                f.write("  %s: %s (%s by %s) at %s\n" % (u, o[0], o[1], o[2], o[4]))
            for r in results:
                for m in r["models"]:
                    f.write("  counterexample %s\n" % json.dumps(m))
            f.write("\n" + rep.get("text", ""))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath))
        rc, nviol = 1, len(refuted)
    elif bad:
        print("UNDECIDED by the verifier (%s); bounded check of the same property on the real code: %s" % (
            ", ".join(r["unit"] for r in bad), rep["status"]))
        if rep["status"] not in ("clean", "fail"):
            print(rep.get("text", "")[-1500:])
            rc = 2
    if not bad and rep["status"] in ("error", "nobuild"):
        print("note: the replay driver did not run: " + rep["text"][-600:])
    st = {}
    for r in results:
        for k, v in (r.get("stats") or {}).items():
            st[k] = st.get(k, 0) + v
    backends = {}
    for r in results:
        for o in r["obligations"]:
            if o[1] == "proved":
                backends[o[2]] = backends.get(o[2], 0) + 1
    trusted = sorted({t for r in results for t in r["trusted"]})
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": "cd /verif && python3-vt -m vc.check %s   (z3 5.3.2 and cvc5 1.1.2 on the obligations "
                           "generated from clang's AST of /repo)" % pid,
            "trusted_base": [
                "clang 18 (parsing, overload resolution, template instantiation)",
                "vc/frontend.py, vc/interp.py, vc/stdlib.py, vc/engine.py (the obligation generator)",
                "z3 5.3.2, cvc5 1.1.2"] + ["assumed library contract: " + t for t in trusted] +
                list(getattr(mod, "TRUSTED", [])),
            "units": [{"name": r["unit"], "status": r["status"], "obligations": len(r["obligations"]),
                       "discharged": sum(1 for o in r["obligations"] if o[1] == "proved"), "paths": r["paths"],
                       "seconds": r["wall"], "covers": r["covers"], "error": r["error"]} for r in results],
            "functions_under_contract": sorted({f for r in results for f in r["inlined"]}),
            "callee_contracts_used": sorted({f for r in results for f in r["contracts"]}),
            "discharged_by": backends, "solver_seconds": round(st.get("solver_s", 0), 2),
            "solver_queries": st.get("queries", 0),
            "second_opinions": {"asked": st.get("second_opinions", 0), "confirmed": st.get("confirmed", 0),
                                "what": "thorough tier: distinct obligations put to the other back end as well (15 s each); "
                                        "the rest it did not decide"},
            "undecided_units": [r["unit"] for r in bad],
            "bounded": {"what": "replay driver on the compiled real code: a bounded cross-check of the assumed "
                                "library contracts; never counted as discharged",
                        "status": rep["status"], "evaluations": rep.get("evals", 0),
                        "samples": rep.get("samples", [])},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    with open(os.path.join(rdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0 and os.path.exists(rpath):
        os.unlink(rpath)
    print("%s: %d obligations, %d discharged, %.1fs" % (pid, nobl, ndis, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
