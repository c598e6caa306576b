"""Writes known_findings.json."""
import json, os
CASES = ["BLM/Foul", "DRG/Dragonfire Dive", "DRG/Geirskogul", "DRG/Nastrond", "DRG/Rise of the Dragon", "DRG/Starcross",
         "DRG/Stardiver", "DRG/Wyrmwind Thrust", "MNK/Elixir Burst", "MNK/Elixir Field", "MNK/Fire's Reply",
         "MNK/Phantom Rush", "MNK/Rising Phoenix", "MNK/Wind's Reply", "NIN/Tenri Jindo", "PCT/Clawed Muse",
         "PCT/Comet in Black", "PCT/Fanged Muse", "PCT/Hammer Brush", "PCT/Hammer Stamp", "PCT/Holy in White",
         "PCT/Mog of the Ages", "PCT/Polishing Hammer", "PCT/Pom Muse", "PCT/Rainbow Drip",
         "PCT/Retribution of the Madeen", "PCT/Star Prism", "PCT/Winged Muse", "RDM/Prefulgence", "RDM/Resolution",
         "RDM/Scorch", "RDM/Verflare", "RDM/Verholy", "RDM/Vice of Thorns", "RPR/Communio", "RPR/Gluttony",
         "RPR/Harvest Moon", "RPR/Perfectio", "RPR/Sacrificium", "SAM/Hissatsu: Guren", "SAM/Kaeshi: Namikiri",
         "SAM/Ogi Namikiri", "SAM/Shoha", "SAM/Zanshin", "VPR/First Legacy", "VPR/Fourth Legacy", "VPR/Ouroboros",
         "VPR/Reawaken", "VPR/Second Legacy", "VPR/Third Legacy"]
known = [
    {"property": "C13", "id": "D5", "what": "casts and channels of skills entered in sequence (add_next) do not delay "
     "auto-attacks, only those of skills entered at given times (add) do",
     "where": "RotationBuilder.__process_q_timed records casts for get_no_auto_periods, __process_q_sequence does not",
     "why_not_repaired": "expected results of existing tests (test_nin_aggregate_rotation, test_sampling_with_buffs) contain "
     "the autos"},
    {"property": "C13", "id": "D17", "what": "after a change of target, the next auto-attack waits for the end of a downtime "
     "of the previous target, and not of its own",
     "where": "RotationBuilder.__add_autos passes the target of the auto before to __get_next_auto_time",
     "why_not_repaired": "the expected result of test_multi_target_downtime_windows contains the late auto (at 14.7 s, the end "
     "of Boss1's downtime, on Boss2)"},
    {"property": "C15", "id": "D16b", "what": "skills that declare an aoe dropoff with an unconditional damage spec hit "
     "later targets with full potency",
     "where": "Skill.__post_init__ applies aoe_dropoff to conditional (dict) damage specs only",
     "why_not_repaired": "expected damage of existing multi-target tests contains the full potency",
     "cases": CASES},
]
fixed = ["fixed: property=%s %s %s" % (p, c, w) for c, p, w in (l.split("|") for l in """\
d1f7214|C14|the downtime_windows dict given by the caller was modified
441b572|C14|downtime windows given as a list did not hold for targets added after the first get_skill_timing
f38f7c2|C16|dots and auto targets of an earlier get_skill_timing call leaked into the next
7189be6|C07|skills pressed at the same time raised TypeError or were reordered (specs were compared)
84cc4de|C08|trailing dot ticks were kept although ignored when the last event was at time 0
4aad705|C13|speed effects were applied to autos with another effect's conditions
4f7ce70|C07|follow-ups applied at the same time ran in arbitrary order
efd5f76|C07|times given in seconds were truncated to the ms below (e.g. 4.35 -> 4349 ms)
ce16583|C01|speed-scaled times lost 10 ms to floating point errors
de73411|C07|simultaneous damage instances raised TypeError (skills were compared)
7604c9c|C13|autos in downtime used absolute instead of fight time
9b8e488|C18|a rotation without damage raised with autos enabled
10722e3|C05|more than 5000 damage instances raised
5b926df|C24|example rotations used level 100 stats for libraries of level 90
c055f4c|C24|party skills with a modifier were added twice
158c3d2|C20|the LB damage was not found among other conditions
dd59e4f|C03|crit and direct hit chances above 1
333b247|C15|aoe dropoff was not applied to the 10th target
f488add|C05|simulating a rotation without damage instances raised
1589566|C26|party buff/debuff flags considered the first follow-up only
87c66e7|C11|a resource first gained at time 0 never expired; gains of the future counted
c67110c|C15|a conditional damage spec shared by several skills was modified
7f1ea79|C13|casts of timed skills with own cast times did not block autos as they are
5d43389|C15|hits on later aoe targets were processed at the first target's application time
2c426cf|C19|csv names, conditions and targets were altered on reading
9a87567|C19|printed csv conditions were not quoted
f997467|C18|Radiant Finale of a party member raised KeyError/used the player's coda
2711d11|C02|auto-attack weapon damage lost 1 to floating point errors
9c85527|C12|conditional channeling specs raised TypeError
4960906|C16|effects were carried over when a DamageBuilder was used again
7096442|C21|snapshots at the very timestamp were not counted due to floating point errors
6378f2e|C21|the last snapshot was not reported if all are before the first damage
f75ffb0|C05|variance and standard deviation were NaN when all outcomes of a hit coincide
aa1d067|C20|decimals of the damage stated for a limit break were dropped
05e75aa|C06|the skill after a cast off-GCD skill (a limit break) was pressed during its cast
570c3d1|C08|dots of the same name with other numbers (Thunder III and IV) ticked together on a target
eed8308|C13|speed effects ended by Death and the like still sped up autos
45e902b|C13|an auto delayed by a cast into downtime was lost instead of delayed until its end
10ae31a|C06|effects were merged with their later reapplication or ending when a skill was pressed, not when applied
a0c91e9|C22|a bonus of 0% was taken for a missed positional only, though the combo alone has a bonus
8725c97|C26|a follow-up whose buff or debuff table has no effect in it counted as having one
413a7a7|C14|of several targets, later ones were damaged in downtime (and kept or lost by the time of the first)""" .split("\n"))]
def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    json.dump({"known": known, "fixed": fixed}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
main()
