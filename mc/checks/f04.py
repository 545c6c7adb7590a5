"""F04: GNGD and the VSLMS filters carry their recursions exactly."""
from mc import dom, onestep
from mc.checks import f03

PROP = "F04"
LEVEL = "model_checking"
RULE = f03.RULE
ASSUMPTIONS = f03.ASSUMPTIONS + ["points where the recursion itself amplifies rounding are skipped and counted"]
KINDS = ["GNGD", "VSLMS_Mathews", "VSLMS_Benveniste", "VSLMS_Ang"]


def jobs(tier):
    deep = tier == "thorough"
    for j in f03.jobs(tier, KINDS):
        if j["t"] == "all" and j["n"] == 1 and not deep:
            yield dict(j, depth=6, size="s")
        if j["t"] == "all" and j["n"] == 3:
            j["depth"] = 3
        yield j


cases = f03.cases
check_case = f03.check_case
