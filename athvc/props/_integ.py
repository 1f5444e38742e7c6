"""integrator configurations shared by C01/C02"""
DIMN = {1: [(16, 1, 1), (23, 1, 1)], 2: [(12, 8, 1), (9, 14, 1)], 3: [(8, 6, 10), (7, 9, 6)]}


def configs(tier, gases=("HYDRO", "MHD"), dims=(1, 2, 3)):
    out = []
    for dim in dims:
        for integ in ("ctu", "vl"):
            for gas in gases:
                for eos in ("ADIABATIC", "ISOTHERMAL"):
                    out.append((dim, integ, dict(GAS=gas, EOS=eos, NSCALARS="2")))
                out.append((dim, integ, dict(GAS=gas, EOS="ADIABATIC", NSCALARS="1", MESH_REFINEMENT="STATIC_MESH_REFINEMENT")))
                if tier == "thorough":
                    for eos in ("ADIABATIC", "ISOTHERMAL"):
                        out.append((dim, integ, dict(GAS=gas, EOS=eos, NSCALARS="0")))
                    if dim > 1:
                        out.append((dim, integ, dict(GAS=gas, EOS="ADIABATIC", NSCALARS="1", H_CORRECTION_MODE="H_CORRECTION")))
                    out.append((dim, integ, dict(GAS=gas, EOS="ISOTHERMAL", NSCALARS="1", MESH_REFINEMENT="STATIC_MESH_REFINEMENT")))
    return out


def name(dim, integ, conf):
    return "%dd_%s %s" % (dim, integ, " ".join("%s=%s" % kv for kv in sorted(conf.items())))


def realconf(integ, conf):
    c = dict(conf)
    c["INTEGRATOR_DEF"] = integ.upper() + "_INTEGRATOR"
    c["ACCURACY"] = "SECOND_ORDER_PRIM" if integ == "vl" else "SECOND_ORDER_CHAR"
    c["FLUX_DEF"] = "HLLC_FLUX" if conf.get("SPECIAL_RELATIVITY_MODE") and conf["GAS"] == "HYDRO" else "HLLE_FLUX"
    return c
