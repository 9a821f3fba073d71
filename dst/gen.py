"""Workload generation: discovers the public functions of the tree under test and makes calls for them.

Every choice is drawn from a random.Random handed in by the caller, so a program is a pure function of its seed and of
the tree's function signatures.
"""
import math
import importlib
import inspect
import json
import os
import sys

PKG = "deltares_coastal_structures_toolbox"

# plausible engineering values per parameter name: (low, high).  Ranges deliberately extend beyond most validity ranges.
R = {
    "Ac": (0.5, 6), "B": (2, 30), "B1": (0.5, 40), "BL": (0.5, 30), "B_berm": (0.5, 15), "B_element": (0.5, 4), "Bc": (2, 12),
    "Bt": (1, 10), "Bup": (8, 30), "Bwall": (2, 10), "C1": (0.3, 1), "Cp_init": (0.2, 1), "D": (0.5, 3),
    "Delta": (1.2, 1.9), "Dn": (0.5, 3), "Dn50": (0.4, 2.5), "Dn50_core": (0.1, 0.8), "FH": (200, 2000), "FH2p": (20, 300),
    "FU": (100, 1500), "FV2p": (10, 200), "Fb": (0, 3), "G": (0.3, 3), "Gc": (0.5, 8), "H": (0.5, 6), "H2p": (1.5, 8),
    "HD": (3, 12), "Hm0": (0.6, 6), "Hm0_HF": (0.5, 5), "Hm0_LF": (0.05, 1.2), "Hm0_deep": (1, 7), "Hm0_swell": (0.1, 1.5),
    "Hs": (0.6, 6), "Hs_i0": (0.6, 6), "Hsi": (0.6, 5), "Hsi_over_h": (0.1, 0.8), "Hwall": (2, 8), "KD": (2, 16), "Kt": (0, 1),
    "L": (30, 600), "L_berm": (2, 40), "M": (500, 30000), "M50": (200, 15000), "M50_core": (5, 600), "MH": (1000, 20000),
    "MU": (1000, 15000), "N_waves": (500, 7500), "Nod": (0.2, 4), "Ns": (1, 4), "Ns_init": (1, 3), "P": (0.1, 0.6),
    "Rc": (-1, 7), "Rc2_front": (0.5, 5), "Rc2_rear": (0.5, 5), "Rc_Dn50_init": (-1.5, 1), "Rc_over_Hsi": (-2, 2),
    "Rc_rear": (0.5, 6), "S": (1, 16), "T": (3, 16), "Tm": (4, 14), "Tmax": (5, 18), "Tmm10": (3.5, 14), "Tmm10_HF": (3, 10),
    "Tp": (4, 16), "Tpi": (4, 16), "V": (1, 20), "Wup": (1000, 8000), "alpha_1": (1.5, 3), "alpha_Hs": (0.9, 1.4),
    "alpha_wall_deg": (10, 90), "beta": (-85, 85), "beta_1": (0.1, 0.8), "cot_alpha": (1.2, 7),
    "cot_alpha_armour_slope": (1.3, 5), "cot_alpha_average": (1.5, 7), "cot_alpha_down": (1.2, 7), "cot_alpha_up": (1.2, 7),
    "cot_phi": (1.2, 5), "cota_seabed": (15, 120), "d": (1, 12), "damage_percentage": (0, 60), "db": (-2, 2), "g": (9.7, 9.9),
    "gamma": (0.4, 1), "gamma_A": (0.5, 1), "gamma_b": (0.5, 1), "gamma_beta": (0.5, 1), "gamma_f": (0.35, 1),
    "gamma_f_Crest": (0.4, 1), "gamma_f_crit": (0.4, 0.8), "gamma_f_down": (0.4, 1), "gamma_f_up": (0.4, 1),
    "gamma_p": (0.6, 1), "gamma_star": (0.6, 1), "gamma_v": (0.5, 1), "h": (2, 20), "h_s": (3, 15), "hacc": (2, 12),
    "hc": (2, 8), "ht": (1, 12), "ksi_0p": (1, 6), "ksi_mm10": (0.8, 6), "m": (10, 120), "m_foreshore_slope": (10, 150),
    "max_angle": (60, 85), "max_iter": (3, 400), "max_iterations": (3, 2000), "max_value": (1, 5), "min_value": (0, 2),
    "muf": (0.4, 0.7), "nv": (0.3, 0.6), "offshore_wave_steepness": (0.005, 0.06), "perc_slope": (0, 12), "q": (1e-5, 0.05),
    "q_diml": (1e-6, 1e-2), "ratio_H2p_Hs": (1.1, 1.5), "rel_depth": (1, 5), "rel_freeboard": (0.2, 2),
    "rho_armour": (2200, 2900), "rho_core": (2400, 2800), "rho_fill_above_SWL": (2000, 2500), "rho_fill_below_SWL": (1900, 2300),
    "rho_rock": (2300, 3000), "rho_water": (1000, 1035), "s0m": (0.008, 0.06), "s0p": (0.005, 0.06),
    "seabed_slope_perc": (0, 12), "sigma": (-2, 2), "smm10": (0.005, 0.06), "smm10_HF": (0.005, 0.06),
    "smm10_init": (0.01, 0.05), "smm10_lim": (0.005, 0.03), "tan_alpha_B": (0, 0.1), "tan_alpha_f": (0, 0.1),
    "theta": (0, 50), "tolerance": (1e-6, 1e-2), "total_correction_factor": (0.8, 2), "tt": (0.5, 3), "tup": (2, 10),
    "tup_over_Bup": (0.4, 0.6), "uXp": (0.5, 8), "values": (0, 6), "z1p": (2, 9), "z2p": (1.5, 8), "zXp": (1.5, 8),
}
BOOL = {"core_impermeable", "crossing_seas", "design_calculation", "design_event_occurs_frequently", "do_validity_check",
        "include_influence_wind", "low_core_permeability", "parapet", "return_dict", "short_crested_waves", "use_best_fit",
        "use_depth_limited_version"}
STR = {"rock_type": ["rough", "smooth", " Rough ", "odd"],
       "structure_type": ["permeable", "impermeable", "perforated", "perforated_with_screen",
                          "perforated_with_perforated_screen", "odd"],
       "formula_name": ["formula A", "Van der Meer"], "variable_name": ["Hs", "cot_alpha"]}
INT = {"max_iter", "max_iterations", "N_waves"}
SCALAR_ONLY = {"min_value", "max_value", "max_iter", "max_iterations", "tolerance", "g", "max_angle", "Cp_init", "Ns_init",
               "Rc_Dn50_init", "smm10_init", "smm10_lim", "gamma_f_crit", "gamma_p"}
WRITERS = {"output_dir", "file_name"}


class Api:
    """The public functions of the pinned tree (dst/api.json) as the tree under test implements them.

    New functions (helpers split off by a refactoring, say) are not called directly: they run through their callers."""

    def __init__(self):
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json")) as fh:
            base = json.load(fh)
        self.modules = base["modules"]
        self.fns = {}          # "mod:fn" -> function
        self.params = {}       # "mod:fn" -> [(name, None or {"d": default})]
        self.consts = {}       # "mod:fn" -> numbers that occur in the function's code (thresholds and the like)
        self.sizes = {}        # "mod:fn" -> small integers among them: candidates for array lengths and call counts
        for m in self.modules:
            importlib.import_module(m)
        for key in sorted(base["functions"]):
            f = resolve(key)
            try:
                sig = inspect.signature(f).parameters
            except (TypeError, ValueError):
                sig = {}
            self.fns[key] = f
            self.params[key] = [(n, None if n not in sig or sig[n].default is sig[n].empty else {"d": sig[n].default})
                                for n in base["functions"][key]]
            self.consts[key], self.sizes[key] = mine(f)
        self.writers = sorted(k for k, ps in self.params.items() if WRITERS <= {p for p, _ in ps})
        self.pure = sorted(k for k in self.fns if k not in self.writers)
        self.by_module = {}
        for k in self.pure:
            self.by_module.setdefault(k.split(":")[0], []).append(k)


def mine(f, depth=3):
    """Numbers in the code of f and of the toolbox functions and constants it mentions."""
    out, sizes, seen = set(), set(), set()
    todo = [(f, depth)]
    while todo:
        f, d = todo.pop()
        while hasattr(f, "__wrapped__"):
            todo.append((f.__wrapped__, d))
            break
        c = getattr(f, "__code__", None)
        if c is None or c in seen:
            continue
        seen.add(c)
        codes = [c]
        while codes:
            c = codes.pop()
            for k in c.co_consts:
                if hasattr(k, "co_consts"):
                    codes.append(k)
                elif isinstance(k, (int, float)) and not isinstance(k, bool) and k == k:
                    out.add(float(k))
            for n in c.co_names:
                g = getattr(f, "__globals__", {}).get(n)
                if isinstance(g, int) and not isinstance(g, bool):
                    out.add(float(g))
                elif d and getattr(g, "__module__", "") and str(getattr(g, "__module__", "")).startswith(PKG) and callable(g):
                    todo.append((g, d - 1))
        for cell in getattr(f, "__closure__", None) or ():
            try:
                if callable(cell.cell_contents) and d:
                    todo.append((cell.cell_contents, d - 1))
            except ValueError:
                pass
    sizes = {int(x) for x in out if x == int(x) and 3 <= x <= 4096} if all(abs(x) < 1e300 for x in out) else set()
    return sorted(out), sorted(sizes)


def resolve(key):
    m, f = key.split(":")
    mod = sys.modules.get(PKG + "." + m)
    return getattr(mod if mod is not None else importlib.import_module(PKG + "." + m), f)


def rnd(rng, lo, hi):
    x = rng.uniform(lo, hi)
    return float("%.*g" % (rng.choice((2, 3, 4, 9)), x))


def default_range(name, default):
    if name in R:
        return R[name]
    if default is not None and isinstance(default["d"], (int, float)) and default["d"] == default["d"] \
            and not isinstance(default["d"], bool) and default["d"] != 0:
        d = float(default["d"])
        return (min(0.6 * d, 1.5 * d), max(0.6 * d, 1.5 * d))
    return (0.2, 3.0)


CONSTS = []                    # thresholds of the function being generated for (set by make_op)


def scalar(rng, name, default, wild=0.0):
    lo, hi = default_range(name, default)
    if CONSTS and name not in INT and rng.random() < 0.08:
        c = [x for x in CONSTS if lo - (hi - lo) <= x <= 6 * hi]
        if c:
            if rng.random() < .5:
                return rng.choice(c) * rng.choice((1, 1, 1 + 1e-9, 1 - 1e-9))
            i = rng.randrange(len(c))
            return rnd(rng, *sorted((c[i], c[i - 1])))                 # between two thresholds
    if name in ("max_iter", "max_iterations") and rng.random() < 0.3:
        return rng.choice((1, 2, 3, 5))
    if name in INT:
        v = int(rnd(rng, lo, hi))
        return v if name != "N_waves" or rng.random() < 0.4 else float(v)
    u = rng.random()
    if u < wild:
        k = rng.randrange(8)
        span = hi - lo
        return [0.0, -rnd(rng, lo, hi), hi + span * rng.random() * 3, lo - span * rng.random(), float("nan"),
                rnd(rng, lo, hi) * 1e3, 1.0, float("inf")][k]
    if lo <= -1 and rng.random() < .06:
        return rng.choice((-1.0, -2.0))                               # different, but with equal hashes
    if name == "beta" and rng.random() < 0.3:
        return rng.choice([0.0, 30.0, 45.0, 80.0, 90.0, -20.0])
    if name in ("gamma_f", "gamma_beta", "gamma_b", "gamma_v", "gamma", "gamma_star") and rng.random() < 0.25:
        return 1.0
    if name == "P" and rng.random() < 0.3:
        return rng.choice([0.1, 0.4, 0.5, 0.6])
    if name in ("Fb", "db", "B_berm", "sigma", "theta") and rng.random() < 0.15:
        return 0.0
    if rng.random() < .15:                                            # near one end
        d = .08 * (hi - lo)
        return rnd(rng, *rng.choice(((lo, lo + d), (hi - d, hi))))
    return rnd(rng, lo, hi)


# functions that take scalars only in practice (array calls mostly raise): call them with scalars most of the time
MOSTLY_SCALAR = set("""
hydraulic.wave_overtopping.eurotop2018:calculate_crest_freeboard_Rc_rubble_mound
hydraulic.wave_overtopping.eurotop2018:calculate_dimensionless_crest_freeboard
hydraulic.wave_overtopping.eurotop2018:calculate_dimensionless_crest_freeboard_rubble_mound
hydraulic.wave_overtopping.eurotop2018:calculate_dimensionless_overtopping_discharge_q
hydraulic.wave_overtopping.eurotop2018:calculate_influence_oblique_waves_gamma_beta
hydraulic.wave_overtopping.eurotop2018:calculate_overtopping_discharge_q
hydraulic.wave_overtopping.eurotop2018:calculate_overtopping_discharge_q_rubble_mound
hydraulic.wave_overtopping.taw2002:calculate_crest_freeboard_Rc
hydraulic.wave_overtopping.taw2002:calculate_dimensionless_crest_freeboard
hydraulic.wave_overtopping.taw2002:calculate_dimensionless_overtopping_discharge_q
hydraulic.wave_overtopping.taw2002:calculate_overtopping_discharge_q
hydraulic.wave_overtopping.vangent2021_caisson:calculate_crest_freeboard_Rc
hydraulic.wave_overtopping.vangent2021_caisson:calculate_dimensionless_crest_freeboard
hydraulic.wave_overtopping.vangent2021_caisson:calculate_dimensionless_overtopping_discharge_q
hydraulic.wave_overtopping.vangent2021_caisson:calculate_overtopping_discharge_q
hydraulic.wave_overtopping.vangent2025:calculate_crest_freeboard_Rc
hydraulic.wave_overtopping.vangent2025:calculate_dimensionless_crest_freeboard
hydraulic.wave_overtopping.vangent2025:calculate_dimensionless_overtopping_discharge_q
hydraulic.wave_overtopping.vangent2025:calculate_overtopping_discharge_q
hydraulic.wave_runup.eurotop2018:calculate_dimensionless_wave_runup_height_z2p
hydraulic.wave_runup.eurotop2018:calculate_influence_oblique_waves_gamma_beta
hydraulic.wave_runup.eurotop2018:calculate_wave_runup_height_z2p
hydraulic.wave_runup.eurotop2018:iteration_procedure_gamma_b
hydraulic.wave_runup.eurotop2018:iteration_procedure_z2p
hydraulic.wave_runup.taw2002:calculate_dimensionless_wave_runup_height_z2p
hydraulic.wave_runup.taw2002:calculate_influence_berm_gamma_b
hydraulic.wave_runup.taw2002:calculate_wave_runup_height_z2p
hydraulic.wave_runup.taw2002:iteration_procedure_gamma_b
hydraulic.wave_runup.taw2002:iteration_procedure_z2p
hydraulic.wave_runup.vangent2001:calculate_wave_runup_height_z2p
structural.forces_caisson.goda1985:calculate_bearing_pressures
structural.forces_caisson.goda1985:check_impulsive_breaking
structural.stability_concrete_armour.xblocplus:calculate_correctionfactor_unit_mass_M_by_percslope_seabed
structural.forces_caisson.goda1985:calculate_forces_and_reactions
structural.forces_caisson.goda1985:calculate_pressures_and_forces
structural.stability_concrete_armour.xbloc:calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed
structural.stability_concrete_armour.xbloc:calculate_correctionfactor_unit_mass_M_by_percslope_seabed
structural.stability_concrete_armour.xbloc:calculate_correctionfactor_unit_mass_M_by_rel_depth
structural.stability_concrete_armour.xblocplus:calculate_correctionfactor_unit_mass_M_by_relative_freeboard
structural.stability_toe_berm.takahashi1990_caisson:calculate_significant_depth_above_toe_hacc
structural.stability_toe_berm.takahashi1990_caisson:calculate_significant_wave_height_Hs
structural.stability_toe_berm.vandermeer1998:calculate_depth_above_toe_ht
""".split())

STYLES = (("scalar", 10), ("npscalar", 2), ("int", 1), ("one_array", 3), ("arrays", 7), ("arrays2d", 1), ("arr1", 1),
          ("arr0", 1), ("big", 1), ("f32", 1), ("list", .5), ("series", 1), ("broadcast", 1), ("empty", 0.3))
LAYS = ("C", "C", "C", "C", "str", "rev", "ro", "F", "off")


def pick(rng, table):
    t = sum(w for _, w in table)
    u = rng.random() * t
    for x, w in table:
        u -= w
        if u < 0:
            return x
    return table[-1][0]


def arr(rng, name, default, n, wild, dt=None, sh=None, lay=None):
    a = [scalar(rng, name, default, wild) for _ in range(n)]
    u = rng.random()
    if n > 1 and u < .32 and all(x == x for x in a):                  # a sweep of the parameter, a repeated value
        if u < .17:
            a.sort()
        elif u < .2:
            a.sort(reverse=True)
        elif u < .25:
            a = a[:1] * n
        else:
            lo, hi = min(a), max(a)
            if abs(lo) < 1e9 and abs(hi) < 1e9:
                a = [type(a[0])(lo + (hi - lo) * i / (n - 1)) for i in range(n)]
    v = {"a": a, "lay": lay or rng.choice(LAYS)}
    if dt:
        v["dt"] = dt
    elif all(isinstance(x, int) for x in a) and a:
        v["dt"] = "int64"
    if sh:
        v["sh"] = sh
    return v


def make_op(rng, api, key, style=None, plain=False):
    """One call description {"fn": key, "kw": {...}} (plus "st", the style, for statistics)."""
    ps = api.params[key]
    CONSTS[:] = api.consts.get(key, ())
    names = [p for p, _ in ps]
    if style is None:
        style = pick(rng, STYLES)
        if key.split(".", 1)[1] in MOSTLY_SCALAR and rng.random() < .75:
            style = rng.choice(("scalar", "scalar", "scalar", "npscalar", "arr0"))
    wild = 0.0 if plain else rng.choice((0.0, 0.0, 0.0, 0.0, 0.04, 0.25))
    n = {"arrays": rng.choice((2, 3, 3, 5, 8, 17)), "one_array": rng.choice((2, 3, 6)), "arr1": 1, "arrays2d": 6, "f32": 3,
         "list": 3, "series": 4, "big": rng.choice((300, 1100, 2048)), "broadcast": 3, "empty": 0}.get(style, 0)
    if style in ("arrays", "one_array", "big") and api.sizes.get(key) and rng.random() < .25:
        n = max(1, min(2048, rng.choice(api.sizes[key]) + rng.choice((-1, 0, 1, 1))))
    arrayable = [p for p in names if p not in SCALAR_ONLY and p not in BOOL and p not in STR]
    one = rng.choice(arrayable) if arrayable else None
    p_array = rng.choice((0.3, 0.6, 1.0))
    opt = rng.choice((0.0, 0.1, 0.3, 0.6, 0.6, 1.0))
    if ("valid" in key or ":check_" in key) and rng.random() < .3:
        opt = 1.0
    kw = {}
    skip = set()
    if "Dn50" in names and "M50" in names and api_default(ps, "M50") is not None:
        u = rng.random()
        if api_default(ps, "Dn50") is not None:
            need = ["Dn50"] if u < .6 else ["M50"] if u < .9 else ["Dn50", "M50"] if u < .95 else []
        else:
            need = ["Dn50"]
        skip = {"Dn50", "M50"} - set(need)
    else:
        need = []
    if key.endswith("check_usage_stabilitynumber") or {"Hs", "Dn", "Delta", "Ns"} == set(names):
        keep = rng.sample(names, 3 if rng.random() < .9 else rng.choice((2, 4)))
        skip = set(names) - set(keep)
        need = keep
    opts = {p for p, d in ps if d is not None}
    if {"cot_alpha", "cot_alpha_down", "cot_alpha_up"} <= opts:
        u = rng.random()
        if u < .5:
            need, skip = need + ["cot_alpha"], skip | {"cot_alpha_down", "cot_alpha_up"}
        elif u < .96:
            need, skip = need + ["cot_alpha_down", "cot_alpha_up"], skip | {"cot_alpha"}
    if {"beta", "gamma_beta"} <= opts and rng.random() < .96:
        u = rng.random() < (.88 if "wave_runup.eurotop" in key else .5)
        need, skip = need + ["beta" if u else "gamma_beta"], skip | {"gamma_beta" if u else "beta"}
    if {"Hm0", "Hs"} <= opts and "cot_alpha" in names and rng.random() < .9:
        u = rng.random()
        need, skip = need + ["Hm0" if u < .5 else "Hs"], skip | ({"Hs" if u < .5 else "Hm0"} if .1 < u < .9 else set())
    if key.endswith("etemadshahidi2021:check_validity") and rng.random() < .8:
        skip = skip | {"Tmm10"}                                       # raises with both Hs and Tmm10
    if {"Dn50_core", "M50_core"} <= opts and rng.random() < .9:
        u = rng.random() < .6
        need, skip = need + ["Dn50_core" if u else "M50_core"], skip | {"M50_core" if u else "Dn50_core"}
    if "gamma_f" in opts and "Dn50" in opts and not {"Dn50", "M50"} <= opts and rng.random() < .96:
        u = rng.random() < .5
        need, skip = need + ["Dn50" if u else "gamma_f"], skip | ({"gamma_f"} if u else set())
    elif "gamma_f" in opts and rng.random() < .5:
        need = need + ["gamma_f"]
    if "m" in opts and "use_depth_limited_version" in names and rng.random() < .6:
        need = need + ["m"]
    for name, default in ps:
        if name in skip:
            continue
        if default is not None and name not in need and rng.random() > (
                max(opt, 0.5) if name in BOOL or name in STR or name in ("Dn50_core", "beta", "cot_alpha", "Hm0", "Rc", "gamma_beta", "gamma_b",
                                                                       "max_iterations", "max_iter", "cota_seabed") else opt):
            # check_validity style functions take everything as optional: give them plenty
            if not (("valid" in key or ":check_" in key) and rng.random() < 0.7):
                continue
        if name in WRITERS:
            continue
        if name in BOOL or (default is not None and isinstance(default["d"], bool)):
            kw[name] = rng.random() < 0.5
            continue
        if name in STR:
            kw[name] = rng.choice(STR[name][:-1]) if rng.random() < .93 else STR[name][-1]
            continue
        if name == "c" and 1.3 in CONSTS:
            kw[name] = rng.choice((1.0, 1.3, 1.3, 1.0, 1.0, 1.3, 2.0))
            continue
        if name in SCALAR_ONLY or style == "scalar":
            kw[name] = scalar(rng, name, default, wild)
        elif style == "npscalar":
            kw[name] = {"np": "float64", "v": float(scalar(rng, name, default, wild))}
        elif style == "int":
            lo, hi = default_range(name, default)
            kw[name] = int(max(1, round(rng.uniform(lo, hi)))) if hi > 1.5 else scalar(rng, name, default, wild)
        elif style in ("one_array",):
            kw[name] = arr(rng, name, default, n, wild) if name == one else scalar(rng, name, default, wild)
        elif style in ("arrays", "arr1", "empty"):
            kw[name] = arr(rng, name, default, n, wild) if rng.random() < p_array else scalar(rng, name, default, wild)
        elif style == "arrays2d":
            kw[name] = arr(rng, name, default, 6, wild, sh=[2, 3]) if rng.random() < p_array else scalar(rng, name, default, wild)
        elif style == "arr0":
            kw[name] = arr(rng, name, default, 1, wild, sh=[]) if rng.random() < p_array else scalar(rng, name, default, wild)
        elif style == "f32":
            kw[name] = arr(rng, name, default, n, wild, dt="float32") if rng.random() < p_array else scalar(rng, name, default, 0)
        elif style == "list":
            kw[name] = {"list": [scalar(rng, name, default, wild) for _ in range(n)]} if rng.random() < p_array * .7 \
                else scalar(rng, name, default, wild)
        elif style == "series":
            kw[name] = {"ser": [float(scalar(rng, name, default, wild)) for _ in range(n)]} if rng.random() < p_array * .7 \
                else scalar(rng, name, default, wild)
        elif style == "broadcast":
            sh = rng.choice(([3], [1], [2, 1], [3]))
            c = 1
            for s in sh:
                c *= s
            kw[name] = arr(rng, name, default, c, wild, sh=sh) if rng.random() < p_array else scalar(rng, name, default, wild)
        elif style == "big":
            lo, hi = default_range(name, default)
            if rng.random() < max(.5, p_array):
                a, b = sorted((rnd(rng, lo, hi), rnd(rng, lo, hi)))
                kw[name] = {"lin": [a, b, n, (hi - lo) * 0.01], "lay": rng.choice(LAYS)}
            else:
                kw[name] = scalar(rng, name, default, wild)
    if not plain and rng.random() < 0.02 and kw:                      # clearly wrong calls, too
        k = rng.choice(sorted(kw))
        kw[k] = rng.choice(["oops", None, {"a": [1.0, 2.0], "dt": "float64"}, {"list": []}])
    if not plain and style not in ("scalar", "npscalar", "int") and rng.random() < (.3 if style == "series" else .08):   # a missing value in one series
        ks = [(k, q) for k in sorted(kw) if isinstance(kw[k], dict) for q in ("a", "ser", "list")
              if kw[k].get(q) and not str(kw[k].get("dt", "")).startswith("int")]
        if ks:
            k, q = rng.choice(ks)
            kw[k][q][rng.randrange(len(kw[k][q]))] = float("nan")
    if not plain and style == "series" and rng.random() < .4:
        ix = rng.choice(("part", "down", "names", "equal"))
        for k in kw:
            if isinstance(kw[k], dict) and "ser" in kw[k]:
                kw[k].update(ix=ix, name=k)
    op = {"fn": key, "kw": kw, "st": style}
    if style in ("arrays", "arrays2d", "big") and rng.random() < 0.15:
        # the same array object passed for two parameters
        ks = sorted(k for k in kw if isinstance(kw[k], dict) and ("a" in kw[k] or "lin" in kw[k]))
        if len(ks) >= 2:
            a, b = rng.sample(ks, 2)
            op["alias"] = [a, b]
            kw[b] = kw[a]
    return op


def api_default(ps, name):
    for p, d in ps:
        if p == name:
            return d
    return None


# ------------------------------------------------------------------ near twins
def tweak_num(rng, x):
    if isinstance(x, bool):
        return not x
    if x is None or isinstance(x, str):
        return x
    if x in (-1, -2) and rng.random() < .5:
        return -3 - x
    k = rng.randrange(14)
    if k == 12:
        return x + rng.choice((3e-9, -3e-9, 4e-7, 4e-6, 4e-13))
    if k == 13:
        return math.nextafter(x, math.inf) if isinstance(x, float) else x
    if k == 0:
        return x * (1 + 1e-9)
    if k == 1:
        return x * (1 + 3e-7)
    if k == 2:
        return x + 1e-4
    if k == 3:
        return -x
    if k == 4:
        return float(round(x)) if x == x and abs(x) < 1e15 else x
    if k == 5:
        return int(round(x)) if x == x and abs(x) < 1e15 else x
    if k == 6:
        return x * 1.5
    if k == 7:
        return x * rng.uniform(0.7, 1.3)
    if k == 8:
        return x + rng.choice((-2, -1, 1, 2))
    if k == 9:
        return x * 0.5
    return x * rng.uniform(0.9, 1.1)


def tweak_val(rng, v):
    if isinstance(v, (int, float)) or v is None or isinstance(v, str):
        return tweak_num(rng, v)
    v = {k: (list(x) if isinstance(x, list) else x) for k, x in v.items()}
    if "np" in v:
        v["v"] = float(tweak_num(rng, v["v"]))
    for key in ("a", "list", "ser"):
        if key in v and v[key]:
            a = v[key]
            k = rng.randrange(7)
            i = rng.randrange(len(a))
            if k == 0 and len(a) > 2:
                i = len(a) // 2
                a[i] = tweak_num(rng, a[i])
            elif k == 1:
                a[i] = tweak_num(rng, a[i])
            elif k == 2:
                rng.shuffle(a)
            elif k == 3:
                a.reverse()
            elif k == 4:
                f = rng.choice((1 + 1e-9, 1 + 1e-5, 1.1, 0.8))
                v[key] = [x * f if isinstance(x, (int, float)) else x for x in a]
            elif k == 5 and len(a) > 1:                        # same sum, same ends, different content
                j = rng.randrange(len(a))
                if i != j and isinstance(a[i], (int, float)) and isinstance(a[j], (int, float)):
                    d = 0.01 * (abs(a[i]) + abs(a[j]))
                    a[i], a[j] = a[i] + d, a[j] - d
            else:
                v[key] = [tweak_num(rng, x) for x in a]
            if v.get("dt", "").startswith("int"):
                v[key] = [int(x) if x == x and abs(x) < 2**60 else 1 for x in v[key]]
            elif key in ("ser",) or key == "a":
                v[key] = [float(x) if isinstance(x, (int, bool)) else x for x in v[key]]
    if "lin" in v:
        k = rng.randrange(4)
        if k == 0:
            v["lin"][0] *= 1.001
        elif k == 1:
            v["lin"][1] *= 1.01
        elif k == 2:
            v["hole"] = [int(v["lin"][2] // 2), v["lin"][0] * 1.01]
        else:
            v["lin"][3] *= 0.5
    if "lay" in v and rng.random() < .3:
        v["lay"] = rng.choice(LAYS)
    return v


def twin(rng, api, op):
    """A call close to `op`: one or two parameters changed, dropped, added or swapped."""
    kw = dict(op["kw"])
    new = {"fn": op["fn"], "kw": kw, "st": op.get("st", "")}
    names = [p for p, _ in api.params[op["fn"]]]
    k = rng.randrange(11)
    ks = sorted(kw)
    if k == 10 and ks:                                  # the same number as another type
        x = rng.choice(ks)
        v = kw[x]
        if isinstance(v, (int, float)) and not isinstance(v, bool) and x not in SCALAR_ONLY:
            kw[x] = rng.choice(({"np": "float64", "v": float(v)}, {"a": [v], "sh": []}, {"a": [float(v)], "dt": "float64"}, float(v)))
        elif isinstance(v, dict) and v.get("np") == "float64":
            kw[x] = v["v"]
        elif isinstance(v, dict) and "a" in v and v["a"] and all(isinstance(y, (int, float)) for y in v["a"]):
            kw[x] = v["a"][0] if len(v["a"]) == 1 else dict(v, lay=rng.choice(LAYS))
        else:
            kw[x] = tweak_val(rng, v)
    elif k <= 5 and ks:
        for _ in range(rng.choice((1, 1, 1, 2))):
            x = rng.choice(ks)
            kw[x] = tweak_val(rng, kw[x])
    elif k == 6 and ks:
        opts = [p for p, d in api.params[op["fn"]] if d is not None and p in kw]
        if opts:
            del kw[rng.choice(opts)]
        else:
            x = rng.choice(ks)
            kw[x] = tweak_val(rng, kw[x])
    elif k == 7:
        add = [(p, d) for p, d in api.params[op["fn"]] if p not in kw and p not in WRITERS]
        if add:
            p, d = rng.choice(add)
            if p in BOOL or (d is not None and isinstance(d["d"], bool)):
                kw[p] = not (d["d"] if d else False)
            elif p in STR:
                kw[p] = rng.choice(STR[p])
            else:
                kw[p] = scalar(rng, p, d)
    elif k == 8 and len(ks) >= 2:
        a, b = rng.sample(ks, 2)
        if type(kw[a]) is type(kw[b]):
            kw[a], kw[b] = kw[b], kw[a]
    else:
        bs = [x for x in ks if isinstance(kw[x], bool)]
        if bs:
            x = rng.choice(bs)
            kw[x] = not kw[x]
        elif ks:
            x = rng.choice(ks)
            kw[x] = tweak_val(rng, kw[x])
    if op.get("alias") and all(a in kw for a in op["alias"]) and rng.random() < .7:
        new["alias"] = list(op["alias"])
        kw[new["alias"][1]] = kw[new["alias"][0]]
    return new


def regular(rng, api, key, op):
    """A different ordinary call of the same function with the same argument style (e.g. the next design case)."""
    return make_op(rng, api, key, style=op.get("st") or None)
