"""runs the obligations of one property, decides, replays, writes evidence.

exit 0  every obligation discharged (or, for obligations the verifier could not decide on this
        source text, the bounded stand-in -- the compiled real code -- showed no violation)
exit 1  an obligation failed: VIOLATION line
exit 2  the check itself could not be carried out"""
import sys, os, time, json, importlib, multiprocessing as mp, traceback, signal, subprocess
from . import cfg
sys.setrecursionlimit(100000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class TaskTimeout(Exception):
    pass


def _alarm(*a):
    raise TaskTimeout()


def R(status, detail="", obligations=1, discharged=None, **kw):
    d = dict(status=status, detail=detail, obligations=obligations,
             discharged=(obligations if status == "proved" else 0) if discharged is None else discharged)
    d.update(kw)
    return d


def _run(job):
    mod, name, fn, args, limit = job
    t0 = time.time()
    import resource
    from . import intprove
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    intprove.STATS.update(fast=0, z3=0, z3_time=0.0)
    try:
        m = importlib.import_module("athvc.props." + mod)
        out = getattr(m, fn)(*args)
        if isinstance(out, dict):
            out = [out]
    except TaskTimeout:
        out = [R("unknown", "time limit %ds" % limit)]
    except cfg.ToolError as e:
        out = [R("unknown", "%s: %s" % (type(e).__name__, e))]
    except RecursionError:
        out = [R("unknown", "recursion limit")]
    except Exception as e:
        out = [R("unknown", "internal: " + traceback.format_exc()[-1500:])]
    finally:
        signal.alarm(0)
    for o in out:
        o.setdefault("name", "")
        o["task"] = name
        o.setdefault("wall", round(time.time() - t0, 2))
    if out:
        out[0]["int_fast"] = intprove.STATS["fast"]
        out[0]["int_z3"] = intprove.STATS["z3"]
        out[0]["z3_time"] = round(intprove.STATS["z3_time"], 3)
    return out


def main(argv):
    pid = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    verbose = "-v" in argv
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    t0 = time.time()
    mod = importlib.import_module("athvc.props." + pid)
    tasks = mod.tasks(tier)
    if only:
        tasks = [t for t in tasks if only in t[0]]
    limit = getattr(mod, "LIMIT", {"quick": 420, "thorough": 3000})[tier]
    jobs = [(pid, n, f, a, limit) for (n, f, a) in tasks]
    res = []
    nproc = min(8, max(1, len(jobs)))
    cfg.scratch()
    import threading
    threading.stack_size(512 * 1024 * 1024)
    deadline = t0 + getattr(mod, "TOTAL", {"quick": 700, "thorough": 6000})[tier]
    with mp.Pool(nproc, maxtasksperchild=1) as pool:
        pend = [(j, pool.apply_async(_run, (j,))) for j in jobs]
        for j, h in pend:
            try:
                res += h.get(max(5, deadline - time.time()))
            except mp.TimeoutError:
                res.append(dict(R("unknown", "total time limit"), task=j[1], name="", wall=0))
            except Exception as e:
                res.append(dict(R("unknown", "worker: %r" % e), task=j[1], name="", wall=0))
        pool.terminate()
    known = load_known(pid)
    bad = [r for r in res if r["status"] == "failed"]
    unk = [r for r in res if r["status"] == "unknown"]
    ok = [r for r in res if r["status"] == "proved"]
    bnd = [r for r in res if r["status"] == "bounded"]
    nobl = sum(r["obligations"] for r in res)
    ndis = sum(r["discharged"] for r in res)
    for r in res:
        if verbose or r["status"] in ("failed", "unknown"):
            print("%-8s %s %s (%d/%d) %.1fs %s" % (r["status"], r["task"], r["name"], r["discharged"], r["obligations"],
                                                 r["wall"], "" if r["status"] == "proved" else str(r["detail"])[:600]))
    kf = []
    for r in list(bad):
        for k in known:
            if k["match"] in (r["task"] + " " + r["name"] + " " + str(r["detail"])):
                kf.append((k, r))
                bad.remove(r)
                break
    for k in {id(k): k for k, r in kf}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    replay = None
    bounded_note = None
    if nobl == 0 or (not ok and not bad and not unk):
        print("no obligations generated: vacuous")
        rc = 2
    smoke = None
    if rc == 0 and hasattr(mod, "smoke") and not only:
        # bounded companion: the compiled code on sampled inputs, always run (labelled bounded in the evidence)
        try:
            smoke = mod.smoke(tier)
        except cfg.ToolError as e:
            smoke = ("error", str(e))
        except Exception:
            smoke = ("error", traceback.format_exc())
        if verbose or smoke[0] != "pass":
            print("bounded companion run: %s %s" % (smoke[0], smoke[1][:1500]))
    if rc == 0 and (bad or unk or (smoke and smoke[0] == "fail")):
        rep = None
        if smoke and smoke[0] == "fail":
            rep = smoke
        elif hasattr(mod, "replay"):
            try:
                rep = mod.replay(tier, bad, unk)     # -> (status, text): 'fail','pass','error'
            except cfg.ToolError as e:
                rep = ("error", str(e))
            except Exception:
                rep = ("error", traceback.format_exc())
        else:
            rep = ("error", "no replay harness")
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        path = VERIF + "/evidence/replay/%s.txt" % pid
        txt = "property %s  (%s)\n\n" % (pid, getattr(mod, "TITLE", ""))
        txt += "replay against the compiled real code: %s\n%s\n\n" % (rep[0], rep[1][:8000])
        txt += "failed obligations:\n" + "\n".join("  %s %s\n     %s" % (r["task"], r["name"], str(r["detail"])[:3000]) for r in bad)
        txt += "\nundecided obligations:\n" + "\n".join("  %s %s\n     %s" % (r["task"], r["name"], str(r["detail"])[:1500]) for r in unk)
        open(path, "w").write(txt)
        replay = path
        if rep[0] == "fail":
            print(rep[1][:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        elif bad:
            for r in bad[:5]:
                print("failed obligation: %s %s" % (r["task"], r["name"]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
            rc = 1
        elif rep[0] == "pass":
            bounded_note = "%d obligation group(s) undecided on this source; bounded stand-in passed: %s" % (len(unk), rep[1][:400])
            print("undecided by the verifier, bounded stand-in passed: " + ", ".join(sorted({r["task"] for r in unk})))
            rc = 0
        else:
            print("check could not be carried out: %s" % rep[1][:1500])
            rc = 2
    wall = round(time.time() - t0, 2)
    if not only:
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=getattr(mod, "LEVEL", "proof"),
                  wall_s=wall, violations=max(1, len(bad)) if rc == 1 else 0,
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
                  coverage=dict(
                      obligations=nobl, discharged=ndis,
                      checker_cmd="python3-vt /verif/check.py %s --tier %s" % (pid, tier),
                      trusted_base=TRUSTED,
                      functions_under_contract=sorted({f for r in res for f in r.get("functions", ())}),
                      contracts_assumed=sorted({f for r in res for f in r.get("assumed", ())}),
                      side_conditions=dict(linear_fast=sum(r.get("int_fast", 0) for r in res), z3=sum(r.get("int_z3", 0) for r in res),
                                           z3_seconds=round(sum(r.get("z3_time", 0) for r in res), 2)),
                      back_ends=getattr(mod, "BACKENDS", ["athvc polynomial normal form (exact rationals)", "z3 (integer side conditions)"]),
                      tasks=[dict(task=r["task"], name=r["name"], status=r["status"], obligations=r["obligations"], discharged=r["discharged"],
                                  wall_s=r["wall"]) for r in res][:400],
                      bounded=[dict(task=r["task"], name=r["name"], bound=r.get("detail", "")) for r in bnd],
                      undecided=[r["task"] for r in unk],
                      bounded_stand_in=bounded_note,
                      bounded_companion=None if smoke is None else dict(result=smoke[0], runs=smoke[1][:600]),
                      known_findings=[k["what"] for k, r in kf]))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d task results (%d proved, %d bounded, %d failed, %d undecided) in %.1fs -> exit %d" % (
        pid, ndis, nobl, len(res), len(ok), len(bnd), len(bad), len(unk), wall, rc))
    return rc


COMMON_ASSUMPTIONS = [
    "C floating point is treated as exact real arithmetic and C int/long as mathematical integers (no rounding, no overflow)",
    "distinct pointers handed to a function by Athena's allocators refer to disjoint arrays whose rows do not alias (layout of calloc_Nd_array)",
    "configure is replaced by direct substitution into the repository's own src/defs.h.in; system headers by declarations in athvc/fake_include",
]
TRUSTED = ["athvc VC generator (/verif/athvc)", "pycparser C parser", "gcc -E preprocessor", "z3"]


def load_known(pid):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]
