"""Configurations in which every policy-path property is judged as well: the
full product of modules, and every choice, boundary and extreme value of every
setting, so that an interaction of a setting with another module is seen by the
property it breaks.
"""
import itertools

from mc import config as cf, explore as ex

PATHS = {"kind": "full", "depth": 2, "alphabet": [0.0, 0.4, 1.1], "joint": "rotate", "import_export_mitigation_cost_balance": [0.0, 0.01],
         "import_export_mitigation_cost_balance_joint": "same", "financial_transfer": [0.0, -0.004], "financial_transfer_joint": "same",
         "effort_sharing_common_level": [0.01]}
GRIDS = [(2020, 2120, 20), (2015, 2050, 7), (2025, 2032, 2.5), (2090, 2130, 10)]
REGS = [["USA", "INDIA"], ["BRA"], ["WEU", "OCE", "CHN"], ["RUS", "ME"]]
ODD = [(2020, 2100, 1), (2017, 2063, 3.7), (2021, 2101, 8), (2020, 2200, 12), (2019, 2024, 0.7), (2050, 2110, 6), (2100, 2160, 15)]


TEXT = ("; and in every valid combination of modules and regimes, at every choice, boundary and extreme value of every other setting, with 4 to 26 regions, and on further time grids (steps from 0.7 to 20 years, up to 81 years): "
        "all policies of 3 abatement levels (x trade x transfers) with 2 decisions")


def specs(part=0, parts=1, paths=None, skip=()):
    """`part` rotates the secondary choices, so that different properties see
    different combinations of them."""
    from mc.checks import c24
    J, n, nodes = [], 3 * part, dict(cf.leaves())
    for combo in itertools.product(*[v for _, v in c24.MODULES]):
        sel = [(p, v) for (p, _), v in zip(c24.MODULES, combo)]
        if not c24.valid(sel):
            continue
        n += 1
        flags = [(p, v[b]) for (p, v), b in zip(c24.FLAGS, c24.COVER[n % 8])]
        J.append(ex.spec(REGS[n % 4], GRIDS[(n // 4) % 4], sel + flags + [(("SSP",), f"SSP{n % 5 + 1}")], paths or PATHS, cross=True))
    for i, (path, v) in enumerate(c24.leaf_values()):
        if path[0] == "time" or path in skip:
            continue
        if nodes[path].get("can_be_false") and not isinstance(v, (str, bool)) and v == 0:
            continue                              # number zero or "off": not judged
        base = [x for x in c24.BASES[(i + part) % 2] if x[0] != path]
        sel = base + [(path, v)]
        if not c24.valid(sel):
            sel = [x for x in sel if x[0] != ("effort sharing", "regime")] if path != ("effort sharing", "regime") else sel + [(c24.M("emissiontrade"), "emissiontrade")]
        if path == ("economics", "GDP", "alpha") and float(v) > 0.9:
            continue
        J.append(ex.spec(REGS[(i + part) % 4], GRIDS[(i // 2 + part) % 4], sel, paths or PATHS, cross=True))
    for b in range(3):
        J.append(ex.spec(c24.all_regions(), (2020, 2110, 18), c24.BASES[b], dict(paths or PATHS, kind="switch", k=0), cross=True, cost=10))
    # other numbers of regions; steps and horizons on which years, data and step numbers fall differently
    names = c24.all_regions()
    for k, size in enumerate((4, 5, 7, 11, 16, 25)):
        some = [names[(part + 3 + 7 * j) % 26] for j in range(size)]
        J.append(ex.spec(some, GRIDS[(k + part) % 4], c24.BASES[(k + part) % 3], dict(paths or PATHS, kind="switch", k=0), cross=True, cost=3))
    for k, grid in enumerate(ODD):
        J.append(ex.spec(REGS[(k + part) % 4], grid, c24.BASES[(k + part) % 3], dict(paths or PATHS, kind="switch", k=0), cross=True, cost=3))
    return J
