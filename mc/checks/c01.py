"""C01: settings are accepted exactly when they match their declaration."""
import math

from mc import config as cf, impl

PROPERTY = "C01"
BOUNDS = {
    "quick": "every documented setting x its type-specific alphabet of values (limits, neighbours of limits, spellings, wrong types, "
             "not-a-number, infinities, switch-off spellings, list/dict items) through load_params(file); every rejected value also through "
             "MIMOSA(dict); every ordered pair (setting with value outside / inside its declaration, other setting with a valid value); every section replaced by "
             "11 things that are no section; the recorded settings of models over 8 horizons x 8 configurations (half of the product)",
    "thorough": "as quick with all alphabet values of every ordered pair of settings and the full product of horizons and configurations",
}
ASSUMPTIONS = ["the declaration is mimosa/inputdata/config/config_default.yaml",
               "values whose meaning is ambiguous are not judged: truth values for numbers, 0 for a setting that may be switched off, "
               "fractional numbers for whole-number settings, infinity where no limit is declared"]
REQUIRED_TAGS = ["accepted", "rejected", "switched off", "pair accepted", "pair rejected", "constructed", "section rejected", "recorded settings"]
NAN, INF = float("nan"), float("inf")
OTHER_UNITS = ["5 apples", "5 USD2005/people", "7", "5 m", "", "abc", "nan GtCO2", "nan delta_degC", "5 GtCO2 GtCO2"]
UNIT_OK = {"emissions": ["800 GtCO2", "800000 MtCO2", "0.8 TtCO2", "8e11 tCO2", "-3 GtCO2"],
           "rate": ["-20 GtCO2/yr", "-20000 MtCO2/year", "0 GtCO2/yr", "5e9 tCO2/yr"],
           "temperature": ["2 delta_degC", "1.7 kelvin"],
           "price": ["2601 USD2005/tCO2", "2.5 trillion USD2005/GtCO2", "2000 USD2010/tCO2"],
           "tcre": ["0.62 delta_degC/(TtCO2)", "0.00062 kelvin/GtCO2"]}


def alphabet(node, deep=True):
    t = node["type"]
    if t in ("float", "int"):
        lo, hi = node.get("min"), node.get("max")
        out = [NAN, "nan", ".nan", INF, -INF, "abc", None, [], {}, [1], {"a": 1}, "", "1,5", "no", "false", "False", False, "yes"]
        base = [x for x in (lo, hi) if x is not None] or [0]
        for b in base:
            eps = 1 if t == "int" else max(1e-9, abs(b) * 1e-9)
            out += [b, str(b), b + eps, b - eps, b + 1, b - 1, b + 1000, b - 1000]
            if t == "float":
                out += [float(b), f"{b:e}", float(b) + .25, float(b) - .25]
            else:
                out += [f"{b}.5", b + 0.5, " %d " % b]
        if lo is not None and hi is not None:
            mid = (lo + hi) / 2
            out += [int(mid), str(int(mid))] if t == "int" else [mid, str(mid), lo + (hi - lo) * 1e-6]
        out += [1, 2, "3", 1e30, -1e30, 10 ** 9, -10 ** 9] if t == "float" else [10 ** 9, -10 ** 9]
        return out
    if t == "bool":
        return [True, False, "True", "true", "yes", "False", "false", "no", "TRUE", "maybe", "y", "on", 2, -1, 0.5, None, [], {}, "", [True], NAN, "1", "0"]
    if t == "enum":
        out = list(node["values"])
        for v in node["values"]:
            if isinstance(v, str):
                out += [v + " ", v.upper() + "_", v[:-1], v.lower() if v.lower() not in node["values"] else v + "x", [v], {v: v}]
            else:
                out += [str(v), v + 1e-6, -v, [v]]
        return out + ["", None, [], {}, 3, NAN, "default", False, True, "false"]
    if t == "quantity":
        out = list(OTHER_UNITS) + [None, [], {}, 5, 1.5, NAN, INF, False, "false", "False", "no", "none", True, "yes"]
        for us in UNIT_OK.values():
            out += us
        return out
    if t == "list":
        return [None, [], "text", 5, True, {}, {"a": "b"}, 1.5] + [[v] for v in item_values(node.get("values"))] + \
            [[a, b] for a in item_values(node.get("values"))[:4] for b in item_values(node.get("values"))]
    if t == "dict":
        ks = ["a", "B c", "weird-key_1", "[x]"]
        return [None, {}, "text", 5, True, [], ["a"], 1.5, {"a": None}] + [{k: v} for k in ks[:2] for v in item_values(node.get("values"))] + \
            [{ks[0]: v, ks[1]: w} for v in item_values(node.get("values"))[:3] for w in item_values(node.get("values"))] + \
            [{k: item_values(node.get("values"))[0] for k in ks}]
    if t == "datasource":
        d = {"variable": "GDP|PPP", "unit": "currency_unit", "scenario": "x", "model": "IMAGE", "file": "f.csv"}
        out = [d, dict(d, extra=1), dict(reversed(list(d.items()))), None, {}, [], "text", 5, True, list(d.items())[0]]
        out = out[:-1] + [list(d)]
        for k in d:
            out += [{a: b for a, b in d.items() if a != k}, {k: d[k]}, {(a.upper() if a == k else a): b for a, b in d.items()}]
        return out
    if t in ("str", "filepath"):
        return ["text", "a b", ""]
    raise AssertionError("type of setting not known to the check: " + t)


def item_values(node):
    if node is None:
        return [1, "x", [1, 2], {"a": {"b": 1}}, None, 2.5, True]
    if node["type"] == "dict":
        return [{}, None, {"p": 1, "q": {"r": 2}}, "text", 5, [1], {"k": "v"}]
    if node["type"] == "str":
        return ["name", "other name", "x" * 30]
    if node["type"] == "str_or_plain_dict":
        return ["path/to/file.csv", {2020: {"USA": 1.5}}, {}, {"a": [1, 2]}]
    raise AssertionError("item type " + node["type"])


def valid(node):
    """A value different from the default that the declaration admits."""
    d = node.get("default")
    for v in alphabet(node):
        w = cf.verdict(node, v)
        if w and w[0] == "ok" and not cf.same(w[1], d) and w[1] not in (None, {}, []):
            return v
    return None


def jobs(tier):
    L = cf.leaves()
    J = [{"mode": "single", "leaf": list(p), "cost": 1} for p, _ in L]
    J += [{"mode": "pairs", "leaf": list(p), "deep": tier == "thorough", "cost": 6} for p, _ in L]
    J += [{"mode": "complete", "cost": 1}, {"mode": "sections", "cost": 2}]
    J += [{"mode": "recorded", "part": k, "parts": 6, "deep": tier == "thorough", "cost": 4} for k in range(6)]
    return J


def expect(defaults, items):
    d = __import__("copy").deepcopy(defaults)
    for path, v in items:
        cf.put(d, path, v)
    return d


def judge(out, got, want, cfg, defaults, path, tag=""):
    """want: ("ok", [(path, value)]) or ("reject",)"""
    out.cases += 1
    out.transitions += 1
    name = " - ".join(path)
    if want[0] == "reject":
        if got[0] == "ok":
            key = "accepted nan" if "nan" in repr(cfg).lower() else "accepted"
            out.violation(key, f"{name}: accepted although outside its declaration: {cfg}"[:300], config=cfg)
        else:
            out.tag(tag + "rejected")
        return
    if got[0] != "ok":
        out.violation("rejected", f"{name}: rejected ({got[1]}) although inside its declaration: {cfg}"[:300], config=cfg)
        return
    out.tag(tag + "accepted")
    out.validated += 1
    d = cf.diff(got[1], expect(defaults, want[1]))
    if d:
        out.violation("incomplete or changed", f"accepted {cfg} but setting {' - '.join(map(str, d[0]))}: {d[1]}"[:350], config=cfg)


def recorded_configs(deep):
    """Complete configurations whose recorded settings are compared after construction."""
    grids = [(2020, 2050, 10), (2020, 2055, 10), (2015, 2101, 20), (2030, 2031, 5), (2050, 2073, 2.5), (2020, 2030, 0.7), (2100, 2140, 20), (2011, 2100, 13)]
    more = [[], [(("regions",), {"CAN": {}})], [(("regions",), {"BRA": {"economics": {"init_capital_factor": 2}}, "CAN": {}, "USA": {"MAC": {"kappa_rel_abatement_0.75_2050": 1.5}}})],
            [(("model", "emissiontrade module"), "emissiontrade"), (("effort sharing", "regime"), "per_cap_convergence"), (("effort sharing", "percapconv_year"), 2047)],
            [(("emissions", "carbonbudget"), "1234 MtCO2"), (("temperature", "target"), "1.95 kelvin"), (("SSP",), "SSP4")],
            [(("model", "damage module"), "nodamage"), (("model", "objective module"), "globalcosts"), (("economics", "damages", "ignore damages"), "yes")],
            [(("economics", "damages", "quantile"), 0.975), (("economics", "damages", "coacch_combined_slr_nonslr_damages"), True),
             (("simulation", "custom_mapping"), {"init_capitalstock_factor": {"CAN": 2.0, "BRA": 3.0}})],
            [(("simulation", "simulationmode"), True), (("simulation", "constraint_variables"), {"global_emissions": {str(y): {"Global": 1.0} for y in range(2000, 2200, 10)}}),
             (("simulation", "deactivated_constraints"), ["carbon_budget"])]]
    for i, g in enumerate(grids):
        for j, m in enumerate(more):
            if deep or (i + j) % 2 == 0 or i == 0 or j == 0:
                yield [(("time", k), v) for k, v in zip(("start", "end", "dt"), g)] + ([] if any(p == ("regions",) for p, _ in m) else [(("regions",), {"CAN": {}, "BRA": {}})]) + m


def run_recorded(spec, out, defaults, L):
    for n, items in enumerate(recorded_configs(spec["deep"])):
        if n % spec["parts"] != spec["part"]:
            continue
        cfg = cf.nest(items)
        out.states += 1
        out.cases += 1
        out.transitions += 1
        got = cf.construct(cfg)
        if got[0] != "ok":
            out.violation("rejected", f"rejected ({got[1]}) although every setting is inside its declaration: {cfg}"[:300], config=cfg)
            continue
        want = expect(defaults, [(p, cf.verdict(L[p], v)[1]) for p, v in items])
        for k in ("GDP", "emissions", "population"):      # references are C04's subject
            want["input"]["variables"][k]["scenario"] = got[1].params["input"]["variables"][k]["scenario"]
        d = cf.diff(got[1].params, want)
        out.validated += 1
        out.tag("recorded settings")
        if d:
            out.violation("incomplete or changed", f"MIMOSA({cfg}).params at {' - '.join(map(str, d[0]))}: {d[1]}"[:300], config=cfg)
        out.sample(config=str(items)[:200])


def run_sections(out, folder, defaults):
    """A section of settings given as something that is not a section."""
    for path in cf.sections():
        if not path:
            continue
        for v in (3, 0, 1.5, True, False, "text", "", [], [1], ["a"], "no"):
            cfg = cf.nest([(path, v)])
            out.states += 1
            judge(out, cf.load_file(cfg, folder), ("reject",), cfg, defaults, path, "section ")
            if cf.construct(cf.nest(cf.SMALL + [(path, v)]) if path != ("time",) else {"regions": {"CAN": {}}, "time": v})[0] == "ok":
                out.violation("accepted", f"MIMOSA accepts {' - '.join(path)} = {v!r} in place of a section", config=cfg)
            out.transitions += 1


def run_job(spec, out):
    defaults = cf.defaults()
    L = dict(cf.leaves())
    with impl.scratch_dir() as folder:
        if spec["mode"] == "recorded":
            return run_recorded(spec, out, defaults, L)
        if spec["mode"] == "sections":
            return run_sections(out, folder, defaults)
        if spec["mode"] == "complete":
            for cfg in ({"time": {}}, {}, {"economics": {"GDP": {}, "MAC": {}}}, {k: {} for k in impl.default_tree() if not cf.is_leaf(impl.default_tree()[k])}):
                judge(out, cf.load_file(cfg, folder), ("ok", []), cfg, defaults, ())
            with impl.quiet():
                d = cf.diff(impl.load_params(), defaults)
            out.states += 1
            if d:
                out.violation("defaults", f"load_params() differs from the documented defaults at {d}")
            # a fully explicit configuration is accepted unchanged
            judge(out, cf.load_file(defaults, folder), ("ok", []), defaults, defaults, ("all settings",))
            return
        path = tuple(spec["leaf"])
        node = L[path]
        if spec["mode"] == "single":
            seen = []
            for v in alphabet(node):
                if any(cf.same(v, s) for s in seen) and v == v:
                    continue
                seen.append(v)
                w = cf.verdict(node, v)
                if w is None:
                    out.tag("not judged")
                    continue
                out.states += 1
                cfg = cf.nest([(path, v)])
                want = ("reject",) if w[0] == "reject" else ("ok", [(path, w[1])])
                judge(out, cf.load_file(cfg, folder), want, cfg, defaults, path)
                if w[0] == "ok" and w[1] is False and node.get("can_be_false"):
                    out.tag("switched off")
                if w[0] == "reject":
                    got = cf.construct(cf.small([(path, v)]))
                    out.transitions += 1
                    if got[0] == "ok":
                        out.violation("accepted nan" if "nan" in repr(v).lower() else "accepted",
                                      f"MIMOSA accepts {' - '.join(path)} = {v!r}", config=cfg)
                    else:
                        out.tag("rejected by constructor")
            v = valid(node)
            if v is not None and node["type"] in ("float", "int", "bool", "quantity") and path[0] not in ("time",):
                cfg = cf.small([(path, v)])
                got = cf.construct(cfg)
                if got[0] == "ok":
                    out.tag("constructed")
                    want = expect(defaults, [(p, x) for p, x in cf.SMALL] + [(path, cf.verdict(node, v)[1])])
                    cf.put(want, ("time", "dt"), 5.0)
                    for k in ("GDP", "emissions", "population"):      # references are C04's subject
                        want["input"]["variables"][k]["scenario"] = got[1].params["input"]["variables"][k]["scenario"]
                    d = cf.diff(got[1].params, want)
                    if d:
                        out.violation("incomplete or changed", f"MIMOSA({cfg}).params at {d[0]}: {d[1]}"[:300])
                else:
                    out.tag("construction failed: " + str(path[-1]))
            out.sample(setting=" - ".join(path), values=len(seen))
            return
        # pairs
        good = valid(node)
        bad = [v for v in alphabet(node) if (cf.verdict(node, v) or ("", ))[0] == "reject"]
        goods = [v for v in alphabet(node) if (cf.verdict(node, v) or ("", ))[0] == "ok"]
        if not spec["deep"]:
            bad = bad[:2]
            goods = [good] if good is not None else goods[:1]
        for p2, n2 in L.items():
            if p2 == path:
                continue
            v2 = valid(n2)
            if v2 is None:
                continue
            w2 = cf.verdict(n2, v2)
            for v in goods:
                cfg = cf.nest([(path, v), (p2, v2)])
                judge(out, cf.load_file(cfg, folder), ("ok", [(path, cf.verdict(node, v)[1]), (p2, w2[1])]), cfg, defaults, path, "pair ")
            for v in bad:
                cfg = cf.nest([(p2, v2), (path, v)])
                judge(out, cf.load_file(cfg, folder), ("reject",), cfg, defaults, path, "pair ")
            out.states += len(goods) + len(bad)
