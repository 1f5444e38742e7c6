"""replay helpers: run a harness for a set of configurations/arguments and summarise"""
import os
from concurrent.futures import ThreadPoolExecutor
from . import cfg, cbuild
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")


# harnesses that exercise single functions: only these sources are compiled (the rest is never reached)
CORE = ["ath_array.c", "ath_log.c", "ath_files.c", "utils.c", "par.c", "init_mesh.c", "init_grid.c", "cc_pos.c", "baton.c", "show_config.c"]
LITE = {"recon.c": ["reconstruction"], "riemann.c": ["rsolvers", "convert_var.c"], "esys.c": ["rsolvers", "reconstruction", "convert_var.c"],
        "convert.c": ["convert_var.c"], "dt.c": ["new_dt.c", "convert_var.c", "smr.c", "particles"]}


def lite(harness):
    if harness not in LITE:
        return None
    want = LITE[harness] + CORE
    return [f for f in cbuild.all_sources() if f in want or f.split("/")[0] in want]


def _one(job):
    harness, conf, defines, argvs, flags, mpi = job
    try:
        import hashlib
        tag = hashlib.md5(repr((harness, defines)).encode()).hexdigest()[:6]
        exe = cbuild.build(os.path.join(H, harness), os.path.basename(harness)[:-2] + tag, conf, defines, flags=flags, mpi=mpi, sources=lite(harness))
    except cfg.ToolError as e:
        return [("error", "%s %s: %s" % (harness, conf, e))]
    out = []
    for a in argvs:
        rc, txt = cbuild.run(exe, a)
        d = "%s %s args=%s" % (harness, " ".join("%s=%s" % kv for kv in sorted(conf.items())), " ".join(map(str, a)))
        if rc == 0:
            out.append(("pass", d))
        elif rc == 1 and "FAIL" in txt:
            out.append(("fail", d + "\n" + txt[:1500]))
        else:
            out.append(("error", d + " rc=%s %s" % (rc, txt[-800:])))
    return out


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def sweep(jobs, par=4):
    """jobs: (harness, conf, defines, argvs[, flags[, mpi]]) -> ('fail'|'pass'|'error', text)"""
    jobs = [tuple(j) + (("-O1",), False)[len(j) - 4:] if len(j) < 6 else tuple(j) for j in jobs]
    cfg.scratch()
    with ThreadPoolExecutor(par) as ex:
        res = [r for rs in ex.map(_one, jobs) for r in rs]
    bad = [t for s, t in res if s == "fail"]
    err = [t for s, t in res if s == "error"]
    if bad:
        return "fail", "\n".join(bad[:6])
    if err:
        return "error", "\n".join(err[:4])
    return "pass", "%d run(s) of the compiled code, no violation: %s ..." % (len(res), "; ".join(t for _, t in res[:3]))
