"""Independent reference knowledge: units, input tables, documented formulas.

Reads the data files of /repo directly (csv module) and re-states the
documentation in plain numpy; nothing here imports mimosa code.
"""
import csv
import os
import re

import numpy as np
from scipy.interpolate import CubicSpline

PI = np.pi


# -- units -----------------------------------------------------------------
_SI = {"": 1.0, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12}
UNITS = {
    "emissions": {f"{p}t{sp}CO2": f / 1e9 for p, f in _SI.items() for sp in ("", " ")},
    "temperature": {"delta_degC": 1.0, "kelvin": 1.0, "K": 1.0, "delta_degF": 5.0 / 9.0, "millikelvin": 1e-3},
}
UNITS["rate"] = {f"{u}/{y}": f for u, f in UNITS["emissions"].items() for y in ("yr", "year", "a")}
UNITS["rate"].update({"GtCO2 / yr": 1.0, "GtCO2*yr^-1": 1.0, "GtCO2 yr**-1": 1.0, "MtCO2/day": 1e-3 * 365.25, "GtCO2/century": 0.01,
                      "tCO2/second": 1e-9 * 365.25 * 86400, "MtCO2/month": 1e-3 * 12, "(GtCO2)/(yr)": 1.0})
_CUR = {"USD2005": 1.0, "USD": 1.0, "US$2005": 1.0, "USD2010": 1.11}
UNITS["price"] = {f"{mult} {c}/{u}".strip(): mf * cf / 1e12 / uf
                  for mult, mf in (("", 1.0), ("thousand", 1e3), ("million", 1e6), ("billion", 1e9), ("trillion", 1e12))
                  for c, cf in _CUR.items() for u, uf in UNITS["emissions"].items()}
UNITS["tcre"] = {f"{t}/{o}{u}{c}": tf / uf for t, tf in UNITS["temperature"].items()
                 for u, uf in UNITS["emissions"].items() for o, c in (("", ""), ("(", ")"))}


def q(text, dim):
    """Amount of a quantity string in internal units."""
    if text is False or text in (0, "0", "False", "false", "no"):
        return False
    m = re.match(r"^\s*([-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?)\s*(.*?)\s*$", str(text))
    return float(m.group(1)) * UNITS[dim][m.group(2)]


# -- input tables ------------------------------------------------------------
_cache = {}


def read_csv(path):
    path = os.path.realpath(path)
    if path not in _cache:
        with open(path, newline="", encoding="utf8") as fh:
            rows = list(csv.reader(fh))
        _cache[path] = (rows[0], rows[1:])
    return _cache[path]


DATAUNIT = {"Mt CO2/yr": 1e-3, "billion US$2005/yr": 1e-3, "million": 1e-3}


class Tables:
    def __init__(self, pkg):
        self.pkg = pkg

    def path(self, f):
        return os.path.join(self.pkg, f)

    def series(self, file, scenario, region, variable, model="IMAGE"):
        head, rows = read_csv(self.path(file))
        low = [h.lower() for h in head]
        sel = [r for r in rows if r[low.index("model")] == model and r[low.index("scenario")] == scenario
               and r[low.index("region")] == region and r[low.index("variable")] == variable]
        assert len(sel) == 1, (file, scenario, region, variable, len(sel))
        k = low.index("2010")
        years = np.array([float(h) for h in head[k:]])
        vals = np.array([float(x) for x in sel[0][k:]])
        return years, vals, sel[0][low.index("unit")]

    def baseline(self, file, scenario, region, variable, at, unit_factor=None):
        """Documented interpolation/extrapolation, evaluated at years `at`."""
        years, vals, unit = self.series(file, scenario, region, variable)
        vals = vals * (DATAUNIT[unit] if unit_factor is None else unit_factor)
        xs, ys = list(years), list(vals)
        rate = (vals[-1] - vals[-2]) / (years[-1] - years[-2])
        for t in range(2110, 2260, 10):
            prev = xs[-1]
            fade = max(0.0, 1.0 - (prev - 2100.0) / 50.0)
            ys.append(ys[-1] + rate * fade * (t - prev))
            xs.append(float(t))
        return CubicSpline(np.array(xs), np.array(ys), bc_type="not-a-knot")(np.asarray(at, float))

    def table(self, file):
        """{region: {column: float or text or None}}"""
        head, rows = read_csv(self.path(file))
        k = head.index("region")
        out = {}
        for r in rows:
            d = {}
            for h, x in zip(head, r):
                if x == "":
                    d[h] = None
                else:
                    try:
                        d[h] = float(x)
                    except ValueError:
                        d[h] = x
            out[r[k]] = d
        return out

    def mapping(self, file):
        head, rows = read_csv(self.path(file))
        return head, rows

    def regional(self, file, column, region, mapfile=None):
        """Coefficient of an IMAGE26 region; `mapfile` = [IMAGE26, other] table."""
        tab = self.table(file)
        if mapfile is None:
            return tab[region][column]
        head, rows = self.mapping(mapfile)
        vals = [tab[b][column] for a, b in rows if a == region and b in tab]
        nums = [v for v in vals if isinstance(v, float)]
        if nums and len(nums) == len([v for v in vals if v is not None]):
            return float(np.mean(nums))
        vals = [v for v in vals if v is not None]
        return vals[0] if vals else None


COACCH_MAP = "inputdata/regions/IMAGE26_COACCH.csv"
REGPAR = "inputdata/regionalparams/"
VARNAMES = {"GDP": "GDP|PPP", "emissions": "Emissions|CO2", "population": "Population"}


# -- documented smooth helpers ---------------------------------------------------
def soft_min(x, scale=1.0):
    a = 25.0 / scale
    return (np.arctan(a * x) / PI + 0.5) * x + 1 / (a * PI)


def soft_max(x, maxval, scale=1.0):
    return maxval - soft_min(maxval - x, scale)
