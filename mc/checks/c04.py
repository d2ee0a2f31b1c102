"""C04: references between settings resolve to the referenced setting's value."""
import copy
import csv
import itertools
import os

from mc import config as cf, impl, ref

PROPERTY = "C04"
BOUNDS = {
    "quick": "targets: every non-map, non-list setting and every entry of a map setting, with its default and with one other value; patterns: one reference "
             "alone / with text around / repeated, all ordered pairs and sampled-free triples of 8 targets of each type, unknown, misspelled, section and "
             "malformed references, mixed known and unknown; holders: entries of constraint_variables, every field of every data source (with a data "
             "file written for the resolved text), regional parameter files, custom mappings, manual regional values",
    "thorough": "as quick with all triples of 16 targets and every target in every holder",
}
ASSUMPTIONS = ["references to settings which are themselves references (chains), to lists and to whole maps are not judged"]
REQUIRED_TAGS = ["resolved", "left as is", "several references", "non-text target", "changed target", "data source field", "regional file"]

GOODREGS = ["CAN", "BRA"]


def targets():
    """[(path, node)] of settings which have a plain value."""
    return [(p, n) for p, n in cf.leaves() if n["type"] in ("float", "int", "bool", "enum", "quantity", "str", "filepath")]


def alternatives(node, path):
    t, d = node["type"], node.get("default")
    if path[0] == "time":
        return {"start": [2015], "end": [2035], "dt": [2.5, 10]}[path[-1]]
    if path in (("regionstype",), ("simulation", "simulationmode")):
        return []      # would make the holders of the test texts effective
    if t == "enum":
        return [v for v in node["values"] if v != d][:1]
    if t == "bool":
        return [not d]
    if t == "quantity":
        return {"emissions": ["750 GtCO2"], "rate": ["-3.5 GtCO2/yr"], "temperature": ["1.25 delta_degC"], "price": ["2000 USD2005/tCO2"],
                "tcre": ["0.5 kelvin/TtCO2"]}[cf.DIM[node["unit"]]]
    lo, hi = node.get("min"), node.get("max")
    if path[-1] == "percapconv_year":
        return [2060, False]
    out = [x for x in (0.25, 1.25, 0.75, -0.125, 2) if (lo is None or x > lo) and (hi is None or x < hi) and x != d][:1]
    if node.get("can_be_false") and d is not False:
        out.append(False)
    return out


def jobs(tier):
    T = targets()
    deep = tier == "thorough"
    J = [{"mode": "patterns", "changes": [], "triples": 16 if deep else 8, "cost": 9}]
    for p, n in T:
        for v in alternatives(n, p):
            J.append({"mode": "patterns", "changes": [[list(p), v]], "triples": 3})
    J += [{"mode": "source", "var": v, "field": f, "deep": deep, "cost": 6} for v in ("GDP", "emissions", "population")
          for f in ("variable", "scenario", "model", "file", "unit")]
    J += [{"mode": "files", "deep": deep, "cost": 4}, {"mode": "others"}]
    return J


def text_of(v):
    return str(v)


def resolve(text, values):
    """Reference resolution: scan left to right, replace {path} with the value."""
    out, i = "", 0
    while i < len(text):
        if text[i] == "{":
            j = text.find("}", i)
            if j > 0 and text[i + 1:j] in values:
                out += text_of(values[text[i + 1:j]])
                i = j + 1
                continue
        out += text[i]
        i += 1
    return out


def value_table(cfg_items, extra):
    D = cf.defaults()
    for p, v in cfg_items:
        L = dict(cf.leaves())
        w = cf.verdict(L[tuple(p)], v)
        cf.put(D, tuple(p), w[1])
    vals = {" - ".join(p): cf.get(D, p) for p, _ in targets()}
    vals.update(extra)
    return vals


BASE = [(("time", "start"), 2020), (("time", "end"), 2030), (("time", "dt"), 5), (("regions",), {r: {} for r in GOODREGS})]


def compare(out, got, want, text, what):
    out.cases += 1
    out.transitions += 1
    if got != want:
        out.violation("reference not resolved", f"{what}: {text!r} became {got!r}, expected {want!r}"[:400])
        return False
    out.validated += 1
    return True


def run_job(spec, out):
    if spec["mode"] == "patterns":
        return patterns(spec, out)
    with impl.scratch_dir() as folder:
        return {"source": source, "files": files, "others": others}[spec["mode"]](spec, out, folder)


def patterns(spec, out):
    items = [(tuple(p), v) for p, v in BASE if tuple(p) not in [tuple(c[0]) for c in spec["changes"]]] + \
        [(tuple(p), v) for p, v in spec["changes"]]
    entries = {"plain": "just text", "path": "dir/file.csv"}
    vals = value_table([x for x in items if x[0] != ("regions",)], {
        "simulation - constraint_variables - plain": "just text", "simulation - constraint_variables - path": "dir/file.csv",
        "input - variables - GDP - model": "IMAGE", "input - variables - population - variable": "Population",
        "regional_parameter_files - MAC - filename": "inputdata/regionalparams/mac.csv",
        "regional_parameter_files - COACCH - regionstype": "COACCH"})
    texts = []
    names = list(vals)
    for n in names:
        texts += [(n, "{%s}" % n), (n, "a {%s} b" % n), (n, "{%s}{%s}" % (n, n)), (n, "x{%s}-{%s}y" % (n, n)), (n, "{%s}/f.csv" % n),
                  (n, "%s {%s}" % (n, n)), (n, "{%s" % n), (n, "%s}" % n), (n, "{%s}{unknown}" % n), (n, "{unknown}{%s}" % n),
                  (n, "{%s - more}" % n), (n, "{%s }" % n), (n, "{more - %s}" % n), (n, "[%s]" % n), (n, "(%s)" % n)]
    pick = ["SSP", "time - dt", "time - start", "emissions - carbonbudget", "temperature - TCRE", "model - damage module",
            "economics - damages - ignore damages", "simulation - constraint_variables - plain", "economics - damages - quantile",
            "emissions - inertia - regional", "economics - MAC - gamma", "regionstype", "input - variables - GDP - model",
            "effort sharing - percapconv_year", "emissions - global min level", "economics - emission trade - max rel payment level"][:spec["triples"]]
    for a, b in itertools.product(pick, repeat=2):
        texts += [(None, "{%s}-{%s}" % (a, b)), (None, "{%s}{%s}" % (a, b)), (None, "p{%s}q{no such}r{%s}s" % (a, b))]
    for a, b, c in itertools.product(pick, repeat=3):
        texts.append((None, "{%s}_{%s}.{%s}" % (a, b, c)))
    for s in impl.default_tree():
        if not cf.is_leaf(impl.default_tree()[s]):
            texts.append((None, "x {%s} y" % s))
    texts += [(None, t) for t in ("{}", "{ }", "{-}", "{ - }", "{ssp}", "{SSP2}", "{Emissions - carbonbudget}", "{economics - MAC - delta}", "no braces",
                                  "{SSP - SSP}", "{time - dt - x}", "", "}{", "{emissions}", "{foo}/{bar}", "{economics - MAC}")]
    ents = dict(entries)
    for i, (_, t) in enumerate(texts):
        ents[f"v{i}"] = t
    cfg = cf.nest(items + [(("simulation", "constraint_variables"), ents)])
    before = copy.deepcopy(cfg)
    mo = impl.build(cfg)
    got = mo.params["simulation"]["constraint_variables"]
    out.states += len(texts)
    for i, (n, t) in enumerate(texts):
        want = resolve(t, vals)
        if not compare(out, got.get(f"v{i}"), want, t, f"text with settings {spec['changes']}"):
            continue
        out.tag("resolved" if want != t else "left as is")
        if t.count("{") > 1 and want != t:
            out.tag("several references")
        if n and want != t and not isinstance(vals[n], str):
            out.tag("non-text target")
        if spec["changes"] and n == " - ".join(spec["changes"][0][0]) and want != t:
            out.tag("changed target")
    # every plain setting keeps its own value
    for n, v in vals.items():
        if not n.startswith(("simulation -", "input -", "regional_")):
            d = cf.diff(cf.get(mo.params, n.split(" - ")), v)
            if d:
                out.violation("setting changed", f"{n}: {d[1]}")
    for i in (3, len(texts) // 2):
        out.sample(text=texts[i][1], resolved=got.get(f"v{i}"), changes=spec["changes"])


def write_csv(path, rows):
    with open(path, "w", newline="", encoding="utf8") as fh:
        csv.writer(fh).writerows(rows)


def rows_for(variable, scenario="SSP2-Ref-SPA0-V17", file="inputdata/data/data_IMAGE_SSP.csv"):
    head, rows = ref.read_csv(os.path.join(impl.DATA, "..", file))
    low = [h.lower() for h in head]
    i = {k: low.index(k) for k in ("model", "scenario", "region", "variable", "unit")}
    return head, i, [list(r) for r in rows if r[i["model"]] == "IMAGE" and r[i["scenario"]] == scenario and r[i["region"]] in GOODREGS
                     and r[i["variable"]] == ref.VARNAMES[variable]]


PNAME = {"GDP": "baseline_GDP", "emissions": "baseline_emissions", "population": "population"}
SRC = {"GDP": "currency_unit", "emissions": "emissionsrate_unit", "population": "population_unit"}


def params_of(mo, var):
    m = mo.concrete_model
    name = next(n for n in (PNAME[var], "baseline_" + var, var, "L") if hasattr(m, n))
    return {k: float(v) for k, v in getattr(m, name).extract_values().items()}


def source(spec, out, folder):
    """A data file that contains the data under the resolved text only."""
    var, field = spec["var"], spec["field"]
    base = {"variable": ref.VARNAMES[var], "unit": SRC[var], "scenario": "{SSP}-Ref-SPA0-V17", "model": "IMAGE", "file": "inputdata/data/data_IMAGE_SSP.csv"}
    pats = ["{T}", "A {T}", "{T} B", "{SSP}_{T}", "{T}{T}", "{T} {unknown}", "{time - start}{T}{regionstype}"]
    tg = targets() if spec["deep"] else [(p, n) for p, n in targets() if p in (
        ("SSP",), ("time", "dt"), ("time", "start"), ("economics", "damages", "ignore damages"), ("emissions", "carbonbudget"),
        ("model", "welfare module"), ("economics", "damages", "quantile"), ("effort sharing", "percapconv_year"))]
    want0 = params_of(impl.build(cf.nest(BASE + [(("SSP",), "SSP3")])), var)
    k = 0
    for p, n in tg:
        name = " - ".join(p)
        for pat in pats:
            k += 1
            text = pat.replace("{T}", "{%s}" % name)
            items = list(BASE) + [(("SSP",), "SSP3")]
            vals = value_table([x for x in items if x[0] != ("regions",)], {})
            full = resolve(text, vals)
            src = dict(base)
            head, ix, rows = rows_for(var, "SSP3-Ref-SPA0-V17")
            rows.append(["text" if i < len(ix) else x for i, x in enumerate(rows[0])])     # keeps the columns textual
            fname = f"data_{os.getpid()}_{k}.csv"
            extra = {}
            if field == "unit":
                src["unit"] = "{simulation - constraint_variables - u}" if k % 2 else SRC[var][:4] + "{simulation - constraint_variables - v}"
                extra = {"u": SRC[var], "v": SRC[var][4:], "w": text}
                full = SRC[var]
                if k > 6:
                    continue
            elif field == "file":
                if "/" in full:
                    continue
                full = os.path.join(folder, f"{k}" + full)
                src["file"] = os.path.join(folder, f"{k}" + text)
                fname = None
            else:
                for r in rows[:-1]:
                    r[ix[field]] = full
                src[field] = text
            if field != "unit":
                path = full if field == "file" else os.path.join(folder, fname)
                write_csv(path, [head] + rows)
                src["file"] = src["file"] if field == "file" else path
            cfg = cf.nest(items + [(("input", "variables", var), src), (("simulation", "constraint_variables"), extra)])
            out.states += 1
            try:
                mo = impl.build(cfg)
            except Exception as exc:
                out.violation("reference not resolved", f"data source {var} {field} = {text!r} (= {full!r}): {type(exc).__name__}: {exc}"[:400])
                continue
            if compare(out, mo.params["input"]["variables"][var][field], full, text, f"data source {var}, field {field}"):
                out.tag("data source field")
                got = params_of(mo, var)
                if got != want0:
                    out.violation("wrong data behind reference", f"data source {var} {field} = {text!r}: baseline differs from the referenced data")
    out.sample(source=var, field=field, last=text, resolved=full)


def files(spec, out, folder):
    import shutil
    tg = [(p, n) for p, n in targets() if spec["deep"] or p in (("SSP",), ("time", "dt"), ("economics", "GDP", "alpha"), ("regionstype",))]
    default = impl.default_tree()["regional_parameter_files"]["default"]
    for cat in default:
        for p, n in tg:
            vals = value_table([x for x in BASE if x[0] != ("regions",)], {})
            text = f"par_{cat}_" + "{%s}" % " - ".join(p) + ".csv"
            full = resolve(text, vals)
            if "/" in full:
                continue
            shutil.copy(os.path.join(impl.PKG, default[cat]["filename"]), os.path.join(folder, full))
            rp = copy.deepcopy(default)
            rp[cat] = {"filename": os.path.join(folder, text), "regionstype": "{regionstype}" if default[cat]["regionstype"] == "IMAGE26" else "COACCH"}
            out.states += 1
            try:
                mo = impl.build(cf.nest(BASE + [(("regional_parameter_files",), rp)]))
            except Exception as exc:
                out.violation("reference not resolved", f"regional parameter file {cat} = {text!r}: {type(exc).__name__}: {exc}"[:400])
                continue
            if compare(out, mo.params["regional_parameter_files"][cat], {"filename": os.path.join(folder, full), "regionstype": default[cat]["regionstype"]},
                       text, f"regional parameter file {cat}"):
                out.tag("regional file")


def others(spec, out, folder):
    vals = value_table([x for x in BASE if x[0] != ("regions",)], {})
    for t in ("{SSP}", "{time - dt} x", "{unknown}", "{SSP}{time - start}"):
        for items, where in (
                ([(("regions",), {"CAN": {"note": {"a": t, "b": {"c": t}}}, "BRA": {}})], ("regions", "CAN", "note", "b", "c")),
                ([(("regions",), {"CAN": {"note": {"a": t}}, "BRA": {}})], ("regions", "CAN", "note", "a")),
                ([(("simulation", "constraint_variables"), {"x": {"y": t, 2020: {"CAN": t}}})], ("simulation", "constraint_variables", "x", 2020, "CAN"))):
            out.states += 1
            mo = impl.build(cf.nest([b for b in BASE if b[0] != items[0][0]] + items))
            compare(out, cf.get(mo.params, where), resolve(t, vals), t, " - ".join(map(str, where)))
