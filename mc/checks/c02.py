"""C02: unknown or misspelled settings are rejected at every level."""
import copy

from mc import config as cf, impl

PROPERTY = "C02"
BOUNDS = {
    "quick": "every section of the settings tree (and every setting that is not a free-form map) x unknown keys (new names, every documented key "
             "of any section in a wrong place, misspellings of every key by case / missing / doubled / swapped character / blanks / joined path, "
             "non-text keys) x values (empty, scalar, map, list, complete copy of the right section) alone, beside valid settings, and inside a full "
             "configuration; free-form maps x arbitrary keys accepted; load_params(file) and MIMOSA(dict)",
    "thorough": "as quick plus all pairs of unknown keys at two different nodes",
}
ASSUMPTIONS = ["the documented settings are those of mimosa/inputdata/config/config_default.yaml",
               "free-form maps: regions, regional_parameter_files, data sources, constraint_variables, custom_mapping, list entries"]
REQUIRED_TAGS = ["rejected", "rejected by constructor", "free-form accepted", "known settings accepted"]
FREE = ("dict", "datasource")


def misspell(k):
    out = [k.upper(), k.lower(), k.title(), k + "s", k[:-1], k[1:], k + " ", " " + k, k.replace(" ", "_"), k.replace("_", " "),
           k[0] + k, k[:1] + k[2:3] + k[1:2] + k[3:], k + "_", "-" + k]
    return [x for x in dict.fromkeys(out) if x != k]


def jobs(tier):
    S = cf.sections()
    J = []
    for p in S:
        n = max(1, len(children(p)) // 2)
        J += [{"mode": "section", "path": list(p), "part": [i, n], "cost": 9} for i in range(n)]
    J += [{"mode": "wrongplace", "path": list(p), "cost": 4} for p in S]
    J += [{"mode": "free"}, {"mode": "leaf"}]
    J += [{"mode": "two", "path": list(p), "deep": tier == "thorough", "cost": 8} for p in S]
    return J


def children(path):
    t = impl.default_tree()
    return list(cf.get(t, path)) if path else list(t)


def run_job(spec, out):
    D = cf.defaults()
    with impl.scratch_dir() as folder:
        def reject(cfg, what, both=False):
            out.states += 1
            out.cases += 1
            out.transitions += 1
            got = cf.load_file(cfg, folder)
            if got[0] == "ok":
                out.violation("unknown key accepted", f"unknown setting {what} silently accepted", config=cfg)
            else:
                out.tag("rejected")
                out.tag("rejected by " + got[1])
            if both:
                out.transitions += 1
                full = copy.deepcopy(cfg)
                if "regions" not in full:
                    full["regions"] = {"CAN": {}, "BRA": {}}
                got = cf.construct(full)
                if got[0] == "ok":
                    out.violation("unknown key accepted", f"unknown setting {what} silently accepted by MIMOSA()", config=cfg)
                else:
                    out.tag("rejected by constructor")

        def accept(cfg, what, tag):
            out.states += 1
            out.cases += 1
            out.transitions += 1
            got = cf.load_file(cfg, folder)
            if got[0] != "ok":
                out.violation("known key rejected", f"{what} rejected: {got[1]}", config=cfg)
                return None
            out.tag(tag)
            out.validated += 1
            return got[1]

        path = tuple(spec.get("path", ()))
        name = " - ".join(path) or "top level"
        if spec["mode"] == "section":
            kids = children(path)
            unknown = ["foo", "", "type", "default", "descr", "values", "min", "unit", 5, 2.5, True, None]
            unknown += [m for k in kids for m in misspell(k) if m not in kids]
            for sub in kids:      # joined path spelled as one key
                if not cf.is_leaf(cf.get(impl.default_tree(), path + (sub,))):
                    unknown += [f"{sub} - {k}" for k in children(path + (sub,))]
                    unknown += [f"{sub}.{k}" for k in children(path + (sub,))[:2]]
            if path:
                unknown += [" - ".join(path + (k,)) for k in kids]
            unknown = [u for u in dict.fromkeys(unknown) if u not in kids]
            part, parts = spec["part"]
            for u in unknown[part::parts]:
                vals = [None, 1, {}, {"a": 1}, []] if u in ("foo", 5) or u in [k + "s" for k in kids] else [None, "x"]
                for v in vals:
                    reject(cf.nest([(path + (u,), v)]), f"{u!r} = {v!r} in {name}", both=True)
            for u in ("foo", kids[0] + "_x") if part == 0 else ():
                # inside a complete configuration, first and last
                for front in (True, False):
                    full = copy.deepcopy(D)
                    node = cf.get(full, path) if path else full
                    items = list(node.items())
                    node.clear()
                    for k, v in ([(u, None)] + items if front else items + [(u, 3)]):
                        node[k] = v
                    reject(full, f"{u!r} in {name} of a complete configuration", both=True)
            out.sample(section=name, unknown_keys=len(unknown), example=str(unknown[-1]))
            accept(cf.nest([(path, copy.deepcopy(cf.get(D, path)))]) if path else copy.deepcopy(D), f"complete section {name}", "known settings accepted")
        elif spec["mode"] == "wrongplace":
            kids = children(path)
            allkeys = dict.fromkeys(p[-1] for p, _ in cf.leaves())
            allkeys.update(dict.fromkeys(p[-1] for p in cf.sections() if p))
            vals = {p[-1]: cf.get(D, p) for p, _ in cf.leaves()}
            vals.update({p[-1]: cf.get(D, p) for p in cf.sections() if p})
            for k in allkeys:
                if k not in kids:
                    reject(cf.nest([(path + (k,), vals[k])]), f"{k!r} (documented elsewhere) in {name}")
        elif spec["mode"] == "leaf":
            # a setting that is no map given as a map of settings, a section given as something else
            for p, node in cf.leaves():
                if node["type"] in FREE or node["type"] == "str_or_plain_dict":
                    continue
                for v in ({"foo": 1}, {p[-1]: node.get("default")}, {"default": node.get("default")}):
                    reject(cf.nest([(p, v)]), f"{v!r} below setting {' - '.join(p)}", both=True)
            for p in cf.sections():
                if p:
                    for v in (5, "text", ["PRTP"], True):
                        reject(cf.nest([(p, v)]), f"section {' - '.join(p)} = {v!r}")
        elif spec["mode"] == "free":
            src = {"variable": "v", "unit": "u", "scenario": "s", "model": "m", "file": "f"}
            cases = []
            for n in ("GDP", "emissions", "population"):
                for extra in ("foo", "Variable", "comment", "x - y"):
                    cases.append((("input", "variables", n), dict(src, **{extra: "z"})))
            for k in ("CAN", "ATLANTIS", "foo", "x - y", "regions", "economics"):
                for v in ({}, None, {"MAC": {"kappa": 1}}, {"whatever": {"deep": {"deeper": 1}}}, {"a": 1, "b": [1]}):
                    cases.append((("regions",), {k: v}))
                    cases.append((("regions",), {"CAN": {}, k: v}))
            for k in ("MAC", "mine", "emissions", "a b"):
                for v in ({"filename": "f", "regionstype": "r"}, {"filename": "f", "regionstype": "r", "note": 1}, {}):
                    cases.append((("regional_parameter_files",), {k: v}))
            for k in ("relative_abatement", "foo", "emissions", "simulation"):
                for v in ("file.csv", {}, {2020: {"CAN": 1.0}}, {"foo": {"bar": 1}}):
                    cases.append((("simulation", "constraint_variables"), {k: v}))
            for k in ("MAC_beta", "foo", "type", "a - b"):
                for v in (1, "x", {"CAN": 1}, {None: 3}, [1, 2]):
                    cases.append((("simulation", "custom_mapping"), {k: v}))
            cases.append((("regionsmappings",), [{"regionstype1": "a", "regionstype2": "b", "conversiontable": "c", "remark": "d"}]))
            for p, v in cases:
                got = accept(cf.nest([(p, v)]), f"free-form map {' - '.join(p)} = {v!r}", "free-form accepted")
                if got is not None:
                    want = {k: ({} if x is None and p == ("regions",) else x) for k, x in v.items()} if isinstance(v, dict) else v
                    d = cf.diff(cf.get(got, p), want)
                    if d:
                        out.violation("free-form map changed", f"{' - '.join(p)} = {v!r} became {cf.get(got, p)!r}"[:300])
        else:
            # unknown key together with valid settings / a second unknown key elsewhere
            L = cf.leaves()
            step = 1 if spec["deep"] else 4
            for p2, n2 in L[::step]:
                reject(cf.nest([(p2, cf.get(D, p2)), (path + ("unknown_x",), 1)]), f"'unknown_x' in {name} beside {' - '.join(p2)}")
                reject(cf.nest([(path + ("unknown_x",), None), (p2, cf.get(D, p2))]), f"'unknown_x' in {name} before {' - '.join(p2)}")
            if spec["deep"]:
                for q in cf.sections():
                    for u, w in (("unknown_x", "unknown_y"), ("unknown_x", "unknown_x")):
                        if q != path or u != w:
                            reject(cf.nest([(path + (u,), {}), (q + (w,), 2)]), f"two unknown keys in {name} and {' - '.join(q)}")
