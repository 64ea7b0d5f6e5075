from . import common, isa_common

ID = "C05"
VARIANTS = ["plain"]
LEVEL = "exploration"
CPUS = ["6803", "hd6303", "68hc11"]
RULE = ("distinct (processor, instruction, addressing mode, accepted) combinations whose bytes were compared, plus "
        "distinct refused statements")
ASSUME = common.ASSUME
TECHNIQUE = "reference-model monitor over an exhaustive product of instructions and operand shapes"
NOTE = isa_common.NOTE
PLAN = isa_common.Plan(CPUS)


def cases(tier):
    return len(PLAN.items) + (5000 if tier == "quick" else 40000)


def case(r, i, tier):
    return PLAN.case(r, i, CPUS)


judge = isa_common.judge


def need(tier):
    return {"instructions": 5000, "kind shape refused": 500, "kind unknown refused": 100, "kind random ok": 1000}
