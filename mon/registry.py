"""Which module holds the scenarios of a property."""
MODULES = {
    "T01": "trafo", "T02": "trafo", "T03": "trafo",
    "E01": "electrostatics", "E02": "electrostatics", "E03": "electrostatics",
    "E04": "electro2", "E05": "electro2", "E06": "electro2", "E07": "electro2", "E08": "electro2",
    "U01": "tensors", "U02": "tensors", "U03": "tensors", "U04": "tensors",
    "S01": "systems", "S02": "systems", "S03": "systems", "S04": "systems",
    "S05": "statics", "S06": "statics", "S07": "statics",
    "S08": "optim", "S09": "optim",
    "S10": "plots",
    "S11": "state", "S12": "statics",
    "G01": "misc", "G02": "misc", "M01": "misc", "A01": "misc", "A02": "adapt", "X02": "forms", "X01": "misc", "T04": "native",
    "P01": "poly", "P02": "poly", "P03": "poly", "P04": "poly", "P05": "poly",
}
ALSO = {p: ["edited"] for p in ("E01", "E02", "E03", "E04", "E06", "E07", "S01", "S02", "S04", "S05", "S06", "S07", "G01")}
for _p in ("E01 E02 E03 E04 E05 E06 E07 E08 U01 U02 U03 U04 S01 S02 S03 S04 S06 S08 S09 S10 S12 T03 P01 P02 P03 P04 P05 G01 X01").split():
    ALSO.setdefault(_p, []).append("large")
SHARDS = {}
SPECIAL = {"T04": "native_drive"}
RULES = {}
ASSUMPTIONS = {"*": []}
TECHNIQUE = {}
LEVEL = {}
OWN_BUILD = {"T04"}       # their driver builds the tree

# How many times the number of cases that a scenario names are run.
FACTOR = {"E01": 2, "E02": 4, "E03": 3, "E04": 1, "E05": 4, "E06": 4, "E07": 8, "E08": 8, "U01": 5, "U02": 6, "U03": 8, "U04": 8,
          "S01": 3, "S02": 2, "S03": 8, "S04": 8, "S05": 3, "S06": 3, "S07": 4, "S08": 4, "S09": 4, "S10": 8, "S11": 3, "S12": 4,
          "T01": 5, "T02": 6, "T03": 5, "T04": 2, "P01": 6, "P02": 6, "P03": 6, "P04": 6, "P05": 6, "G01": 8, "G02": 8,
          "M01": 6, "A01": 8, "A02": 4, "X01": 8, "X02": 4}
