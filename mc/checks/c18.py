"""C18: financial transfers are zero-sum, capped by own damages, and start at zero."""
import numpy as np
from mc import cross, explore as ex, ref, rules

PROPERTY = "C18"
BOUNDS = {
    "quick": "transfers {-0.05,-0.005,0,0.005,0.05} T$ chosen freely for every region (all sequences over 2-3 steps, first year included); "
             "2-3 regions, 3 trade modules, damages ignored or not, with and without damages, 4 quantiles",
    "thorough": "as quick with finer alphabets, one more step and 4 regions",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["paths closer than 1e-4 T$ to a limit are not judged", "controls outside the alphabet are not explored"]
REQUIRED_TAGS = ["admitted_paths", "rejected only by transfers zero-sum", "rejected only by no transfer in first year",
                 "rejected only by transfers capped by own damages", "module off", "relative transfers"]
OWNED = {"financial_transfer", "rel_financial_transfer"}
TRADE, FIN, DM = ("model", "emissiontrade module"), ("model", "financialtransfer module"), ("model", "damage module")
Q, IGN = ("economics", "damages", "quantile"), ("economics", "damages", "ignore damages")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    n = 0
    fine = [-0.05, -0.005, 0.0, 0.005, 0.05]
    for tr in ("notrade", "emissiontrade", "globalcostpool"):
        for dm in ("COACCH", "nodamage"):
            for ign in (False, True):
                n += 1
                st = [(TRADE, tr), (FIN, "globaldamagepool"), (DM, dm), (IGN, ign), (Q, (0.5, 0.95, 0.05, 0.84)[n % 4]),
                      (("SSP",), f"SSP{n % 5 + 1}")] + rules.OFF_LIMITS
                regs = (("USA", "INDIA"), ("RUS", "CHN"), ("WEU", "RSAF"), ("CAN", "ME"))[n % 4]
                # first year included, all regions free (deterministic dynamics without abatement)
                J.append(ex.spec(regs, ((2020, 2040, 10), (2020, 2030, 5), (2025, 2065, 20))[n % 3], st,
                                 {"kind": "full", "from0": True, "depth": 3, "alphabet": [0.0], "financial_transfer": fine if deep else fine[::2] + [0.005],
                                  "financial_transfer_all": True}, cost=3))
                J.append(ex.spec(regs, ((2020, 2060, 20), (2020, 2022, 0.5), (2020, 2041, 7))[n % 3], st,
                                 {"kind": "full", "depth": 2, "alphabet": [0.0, 0.6], "joint": "rotate", "financial_transfer": fine,
                                  "financial_transfer_all": True, "import_export_mitigation_cost_balance": [0.0] if n % 2 else [0.0, 0.02]}, cost=3))
                J.append(ex.spec(regs + ("BRA",), (2020, 2060, 20), st,
                                 {"kind": "full", "depth": 2 if deep else 1, "alphabet": [0.0, 0.6], "joint": "rotate",
                                  "financial_transfer": [-0.02, -0.01, 0.0, 0.01, 0.02], "financial_transfer_all": True}, cost=4))
                # long zero-sum schedules
                J.append(ex.spec(regs, (2020, 2120, 20), st,
                                 {"kind": "switch", "k": 2, "alphabet": [0.0, 0.6], "joint": "rotate", "financial_transfer": [-0.1, 0.0, 0.02]}, cost=2))
                J.append(ex.spec(regs, (2020, 2060, 20), [s if s[0] != FIN else (FIN, "notransfer") for s in st],
                                 {"kind": "full", "alphabet": [0.0, 0.6], "joint": "rotate"}))
        J.append(ex.spec(("JAP",), (2020, 2050, 10), [(TRADE, tr), (FIN, "globaldamagepool")] + rules.OFF_LIMITS,
                         {"kind": "full", "alphabet": [0.0, 0.6], "financial_transfer": [-0.01, 0.0, 0.01], "financial_transfer_all": True}))
    J += cross.specs(9)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    res = ex.run_paths(C, sp["paths"])
    ex.account(out, res, 12)
    g = res.get
    ft, rel, gg = g("financial_transfer"), g("rel_financial_transfer"), g("GDP_gross")
    if p["model"]["financialtransfer module"] == "notransfer":
        out.tag("module off")
        ex.compare(out, res, "no transfers", ft, 0 * gg)
        ex.compare(out, res, "no relative transfers", rel, 0 * gg)
        return
    ex.compare(out, res, "relative transfers", rel, ft / gg, atol=1e-9)
    out.tag("relative transfers", (np.abs(rel) > 0).sum())
    # transfers leave net GDP and nothing is lost on the way
    dam = 0 if p["economics"]["damages"]["ignore damages"] else g("damage_costs")
    ex.compare(out, res, "net GDP pays the transfer", g("GDP_net"), gg * (1 - dam) - g("mitigation_costs") - ft)
    rules.judge(out, res, c, ex)
    if not sp["paths"].get("financial_transfer_all"):
        ex.consistent(out, res, OWNED)
        ex.determined(out, res, OWNED, first=0)
    b = res.B // 2
    out.sample(config=sp["set"][:5], regions=c.regions, time=sp["time"], path=ex.path_repr(res, b))
