"""Front end: configure (template substitution of src/defs.h.in), preprocess and parse the
real sources of /repo on every run.  Dropped by the extraction: system headers (replaced by
the declarations in fake_include/), comments, __attribute__, and '#' line markers."""
import os, re, subprocess, tempfile, shutil, atexit, hashlib
from pycparser import c_parser, c_ast

REPO = os.environ.get("ATH_REPO", "/repo")
SRC = REPO + "/src"
HERE = os.path.dirname(os.path.abspath(__file__))
FAKE = HERE + "/fake_include"

DEFAULTS = dict(
    PROBLEM="linear_wave", GAS="MHD", EOS="ADIABATIC", COORD="CARTESIAN", NSCALARS="0",
    SELF_GRAVITY_DEFINE="NO_SELF_GRAVITY", SELF_GRAVITY_ALGORITHM="SELF_GRAVITY_NONE",
    PARTICLES_ALGORITHM="NO_PARTICLES", FEEDBACK_DEFINE="NO_FEEDBACK", COOLING_MODE="NO_COOLING",
    RESISTIVITY_MODE="NO_RESISTIVITY", VISCOSITY_MODE="NO_VISCOSITY",
    CONDUCTION_MODE="NO_THERMAL_CONDUCTION", TIMESTEPPING_MODE="NO_STS",
    SPECIAL_RELATIVITY_MODE="NEWTONIAN", ACCURACY="THIRD_ORDER_CHAR", FLUX_DEF="ROE_FLUX",
    INTEGRATOR_DEF="CTU_INTEGRATOR", PRECISION="DOUBLE_PREC", DEBUG_MODE="OPTIMIZE",
    WRITE_GHOST_MODE="NO_WRITE_GHOST_CELLS", MPI_MODE="NO_MPI_PARALLEL",
    H_CORRECTION_MODE="NO_H_CORRECTION", FFT_MODE="NO_FFT", SHEARING_BOX_MODE="NO_SHEARING_BOX",
    FARGO_MODE="NO_FARGO", ROTATING_FRAME_MODE="NO_ROTATING_FRAME", L1_INFLOW_MODE="NO_L1_INFLOW",
    MESH_REFINEMENT="NO_MESH_REFINEMENT", FOFC_MODE="NO_FIRST_ORDER_FLUX_CORRECTION",
    A_CONFIGURE_DATE="n/a", WARNING1="", WARNING2="")


class ToolError(Exception):
    """the check could not be carried out (never a violation)"""


_scratch = [None]


def scratch():
    if _scratch[0] is None:
        _scratch[0] = tempfile.mkdtemp(prefix="athvc_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch[0], ignore_errors=True))
    return _scratch[0]


def config_dir(**kw):
    """directory with defs.h/config.h for a configuration (made from the repo's templates)"""
    c = dict(DEFAULTS)
    for k in kw:
        if k not in c:
            raise ToolError("unknown configuration key " + k)
    c.update({k: str(v) for k, v in kw.items()})
    tag = hashlib.md5(repr(sorted(c.items())).encode()).hexdigest()[:10]
    d = os.path.join(scratch(), "cfg_" + tag)
    if not os.path.exists(d + "/done"):
        final, d = d, tempfile.mkdtemp(dir=scratch(), prefix="new_")
        txt = open(SRC + "/defs.h.in", errors="replace").read()

        def sub(m):
            if m.group(1) not in c:
                raise ToolError("defs.h.in: unknown template variable " + m.group(1))
            return c[m.group(1)]
        txt = re.sub(r"@(\w+)@", sub, txt)
        open(d + "/defs.h", "w").write(txt)
        open(d + "/config.h", "w").write("")
        open(d + "/done", "w").write("")
        d = publish(d, final)
    return d


def publish(new, final):
    """move a finished directory into place; another process may have been faster"""
    try:
        os.rename(new, final)
    except OSError:
        shutil.rmtree(new, ignore_errors=True)
    return final


def overlay(cdir):
    """a mirror of src/ (symlinks) in which defs.h is the configured one"""
    o = cdir + "/src"
    if os.path.exists(o + "/.done"):
        return o
    final, o = o, tempfile.mkdtemp(dir=cdir, prefix="new_")
    for root, dirs, files in os.walk(SRC):
        rel = os.path.relpath(root, SRC)
        for dd in dirs:
            os.makedirs(os.path.join(o, rel, dd), exist_ok=True)
        for f in files:
            if f in ("defs.h", "config.h") and rel == ".":
                continue
            dst = os.path.join(o, rel, f)
            if (f.endswith(".c") or f.endswith(".h") or f.endswith(".in")) and not os.path.lexists(dst):
                shutil.copy(os.path.join(root, f), dst)
    shutil.copy(cdir + "/defs.h", o + "/defs.h")
    shutil.copy(cdir + "/config.h", o + "/config.h")
    open(o + "/.done", "w").write("")
    return publish(o, final)


_asts = {}


def preprocess(cdir, rel, defines=()):
    o = overlay(cdir)
    cmd = ["gcc", "-E", "-P", "-nostdinc", "-isystem", FAKE, "-I", o, "-D__attribute__(x)=", "-D__attribute(x)=",
           "-D__restrict=", "-D__inline=", "-D__extension__="]
    cmd += ["-D" + x for x in defines] + [os.path.join(o, rel)]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if r.returncode:
        raise ToolError("preprocessing %s failed: %s" % (rel, r.stderr[-2000:]))
    return r.stdout


def parse(cdir, rel, defines=()):
    key = (cdir, rel, tuple(defines))
    if key in _asts:
        return _asts[key]
    txt = preprocess(cdir, rel, defines)
    try:
        ast = c_parser.CParser().parse(txt, rel)
    except Exception as e:
        raise ToolError("parsing %s failed: %s" % (rel, e))
    _asts[key] = ast
    return ast
