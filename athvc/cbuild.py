"""compile the real sources of /repo (out of tree, scratch directory) for replay harnesses"""
import os, subprocess, re
from concurrent.futures import ThreadPoolExecutor
from . import cfg
from .cfg import ToolError

ALL = None


def all_sources():
    out = []
    for root, dirs, files in os.walk(cfg.SRC):
        rel = os.path.relpath(root, cfg.SRC)
        if rel.startswith("prob") or rel.startswith("fftsrc"):
            continue
        for f in files:
            if f.endswith(".c") and f not in ("main.c", "problem.c"):
                out.append(os.path.normpath(os.path.join(rel, f)))
    return sorted(out)


def build(harness, out, conf, defines=(), sources=None, flags=("-O1",), extra=(), mpi=False):
    """returns the path of the executable"""
    cdir = cfg.config_dir(**conf)
    o = cfg.overlay(cdir)
    od = cdir + "/obj_" + re.sub(r"\W", "_", "_".join(flags))
    os.makedirs(od, exist_ok=True)
    srcs = sources if sources is not None else all_sources()
    inc = ["-I", o]
    if mpi:
        inc = ["-I", cfg.HERE + "/mpistub"] + inc

    def cc(rel):
        dst = od + "/" + rel.replace("/", "__") + ".o"
        if not os.path.exists(dst):
            r = subprocess.run(["gcc", "-w", "-fcommon", "-std=gnu99"] + list(flags) + inc + ["-c", os.path.join(o, rel), "-o", dst],
                               capture_output=True, text=True, errors="replace")
            if r.returncode:
                return None, rel + ": " + r.stderr[:800]
        return dst, None
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(cc, srcs))
    errs = [e for _, e in rs if e]
    if errs:
        raise ToolError("compile error: " + errs[0])
    exe = cdir + "/" + out
    cmd = ["gcc", "-w", "-fcommon", "-std=gnu99"] + list(flags) + ["-D" + d for d in defines] + inc + ["-I", cfg.HERE + "/../harness"] + \
        [harness] + list(extra) + [x for x, _ in rs] + (["-Wl,--unresolved-symbols=ignore-all"] if sources is not None else []) + ["-lm", "-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if r.returncode:
        raise ToolError("link error: " + r.stderr[-1500:])
    return exe


def run(exe, args=(), timeout=120, cwd=None):
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, errors="replace", timeout=timeout,
                           cwd=cwd or cfg.scratch())
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return r.returncode, r.stdout + r.stderr
