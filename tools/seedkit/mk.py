"""build a demo program against the sources of the current directory's Athena tree and run it
usage: mk.py harness.c [KEY=VALUE ...] [-DX ...] -- args   (several runs: separate argument lists with '--')"""
import os, re, sys, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.abspath("src")
D = dict(PROBLEM="linear_wave", GAS="MHD", EOS="ADIABATIC", COORD="CARTESIAN", NSCALARS="0",
    SELF_GRAVITY_DEFINE="NO_SELF_GRAVITY", SELF_GRAVITY_ALGORITHM="SELF_GRAVITY_NONE",
    PARTICLES_ALGORITHM="NO_PARTICLES", FEEDBACK_DEFINE="NO_FEEDBACK", COOLING_MODE="NO_COOLING",
    RESISTIVITY_MODE="NO_RESISTIVITY", VISCOSITY_MODE="NO_VISCOSITY",
    CONDUCTION_MODE="NO_THERMAL_CONDUCTION", TIMESTEPPING_MODE="NO_STS",
    SPECIAL_RELATIVITY_MODE="NEWTONIAN", ACCURACY="THIRD_ORDER_CHAR", FLUX_DEF="ROE_FLUX",
    INTEGRATOR_DEF="CTU_INTEGRATOR", PRECISION="DOUBLE_PREC", DEBUG_MODE="OPTIMIZE",
    WRITE_GHOST_MODE="NO_WRITE_GHOST_CELLS", MPI_MODE="NO_MPI_PARALLEL",
    H_CORRECTION_MODE="NO_H_CORRECTION", FFT_MODE="NO_FFT", SHEARING_BOX_MODE="NO_SHEARING_BOX",
    FARGO_MODE="NO_FARGO", ROTATING_FRAME_MODE="NO_ROTATING_FRAME", L1_INFLOW_MODE="NO_L1_INFLOW",
    MESH_REFINEMENT="NO_MESH_REFINEMENT", FOFC_MODE="NO_FIRST_ORDER_FLUX_CORRECTION",
    A_CONFIGURE_DATE="n/a", WARNING1="", WARNING2="")
runs, cur = [], []
for a in sys.argv[1:] + ["--"]:
    if a == "--":
        runs.append(cur); cur = []
    else:
        cur.append(a)
head, runs = runs[0], runs[1:] or [[]]
defs = [a for a in head[1:] if a.startswith("-D")]
mpi = any(a == "MPI_MODE=MPI_PARALLEL" for a in head)
for a in head[1:]:
    if "=" in a and not a.startswith("-"):
        k, v = a.split("=", 1); assert k in D, k; D[k] = v
tmp = tempfile.mkdtemp(prefix="demo_")
rc = 0
try:
    o = tmp + "/src"
    shutil.copytree(SRC, o, ignore=shutil.ignore_patterns("*.o", "prob"))
    open(o + "/defs.h", "w").write(re.sub(r"@(\w+)@", lambda m: D[m.group(1)], open(SRC + "/defs.h.in", errors="replace").read()))
    open(o + "/config.h", "w").write("")
    srcs = []
    for r, d, fs in os.walk(o):
        if "fftsrc" in r: continue
        srcs += [os.path.join(r, f) for f in fs if f.endswith(".c") and f not in ("main.c", "problem.c")]
    fl = ["gcc", "-w", "-fcommon", "-std=gnu99", "-O1", "-I", o, "-I", HERE] + (["-I", HERE + "/mpistub"] if mpi else [])
    def cc(s):
        return subprocess.run(fl + ["-c", s, "-o", s + ".o"]).returncode
    with ThreadPoolExecutor(8) as ex:
        if any(ex.map(cc, srcs)): print("compile error"); rc = 9
    if not rc and subprocess.run(fl + defs + [os.path.join(HERE, head[0])] + [s + ".o" for s in srcs] + ["-lm", "-o", tmp + "/demo"]).returncode:
        rc = 9
    if not rc:
        os.mkdir(tmp + "/run")
        for a in runs:
            r = subprocess.run([tmp + "/demo"] + a, cwd=tmp + "/run", timeout=200)
            if r.returncode: rc = 1
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc)
