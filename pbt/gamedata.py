"""Constants of the game, written down independently of /repo."""
TANKS = ("PLD", "WAR", "DRK", "GNB")
HEALERS = ("WHM", "SCH", "AST", "SGE")
MELEE = ("MNK", "DRG", "NIN", "SAM", "RPR", "VPR")
RANGED = ("BRD", "MCH", "DNC")
CASTERS = ("BLM", "SMN", "RDM", "PCT")
JOBS = TANKS + HEALERS + MELEE + RANGED + CASTERS
ROLE = {j: r for r, js in (("Tank", TANKS), ("Healer", HEALERS), ("Melee", MELEE), ("Ranged", RANGED),
                           ("Caster", CASTERS)) for j in js}

JOB_MOD = {"PLD": 100, "WAR": 105, "DRK": 105, "GNB": 100, "WHM": 115, "SCH": 115, "AST": 115, "SGE": 115,
           "MNK": 110, "DRG": 115, "NIN": 110, "SAM": 112, "RPR": 115, "VPR": 110, "BRD": 115, "MCH": 115,
           "DNC": 115, "BLM": 115, "SMN": 115, "RDM": 115, "PCT": 115}

WEAPON_DELAY = {"PLD": 2.24, "WAR": 3.36, "DRK": 2.96, "GNB": 2.80, "DRG": 2.80, "RPR": 3.20, "MNK": 2.56,
                "SAM": 2.64, "NIN": 2.56, "VPR": 2.64, "BRD": 3.04, "MCH": 2.64, "DNC": 3.12, "BLM": 3.28,
                "SMN": 3.12, "RDM": 3.44, "PCT": 2.96, "WHM": 3.44, "SCH": 3.12, "AST": 3.20, "SGE": 2.80}

# patches with their own skill data, and the levels each supports
VERSIONS = (("6.55", 90), ("7.0", 90), ("7.0", 100), ("7.01", 90), ("7.01", 100), ("7.05", 90), ("7.05", 100),
            ("7.1", 90), ("7.1", 100))


def trait_damage(job):
    return {"Healer": 1.3, "Caster": 1.3, "Ranged": 1.2}.get(ROLE[job], 1)


def trait_haste(job, version, level):
    """Both for the global cooldown and for auto-attacks."""
    if job == "MNK":
        return 0.2
    if job == "NIN" and level == 100 and version >= "7.0":
        return 0.15
    return 0


def uses_skill_speed(job):
    return ROLE[job] in ("Tank", "Melee", "Ranged")
