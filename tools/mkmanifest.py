"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.index import PROPS

NOTE = ("Every obligation generated from the current source of /repo must be accepted by z3; contracts over bounded domains and "
        "concrete runs are reported separately as bounded stand-ins. Assumes reals for floats, the stated simpy contracts and the pyded engine "
        "(see DESIGN.md).")
EXTRA = {
    "C07": " Scheduling and the start of the sub-activities: any number; the loop that awaits them: at most 3 sub-activities, 8 at random (bounded).",
    "C15": " Waiting and its log, and the off-line cases: unbounded; choosing among any number of windows: unbounded (first repetition by the stated numpy contract, nine repetitions); building windows from the series: at most 4 samples symbolically, 14 at random (bounded).",
    "C16": " Single activities, lists of sub-activities, and the registration passes over any number of activities: unbounded; nesting of whole trees: at most 4 activities, 7 at random (bounded).",
    "C18": " One step with any number of queued and newly scheduled events: unbounded; several steps: bounded.",
    "C19": " Induction step over a level of any length: unbounded; whole trees: at most 5 activities, 8 at random (bounded).",
    "C20": " Running any number of plugins in list order and keeping any number in order of priority: unbounded; whole registrations again: at most 4 plugins (bounded).",
}
EXTRA.update({
    "C17": " Bounded throughout: all times and durations of at most 3 activities with every dependency list (symbolic, decided by z3), 9 activities at random.",
    "C23": " The owner of each timeout of a move, a shift, a basic activity and a plugin: unbounded; the extraction of dependencies: at most 3 events with all causes and times (symbolic), 12 at random (bounded).",
    "C24": " Bounded throughout: at most 3 recorded rows with all times (symbolic, decided by z3), 12 at random.",
    "C25": " Bounded throughout: logs of at most 3 entries and 2 periods at all times, trees of at most 3 activities (symbolic, decided by z3); 60 entries, 16 periods, 8 activities at random.",
    "C26": " Bounded throughout: at most 2 periods at all times (symbolic, decided by z3); 12 periods of 4 activities on 4 objects at random.",
    "C22": " Routes and paths of any number of nodes: unbounded.",
})
LEVEL = {"C17": "other", "C24": "other", "C25": "other", "C26": "other"}  # bounded only
checks = []
for p in sorted(PROPS):
    checks.append(dict(
        property=p,
        quick_cmd=f"/opt/venv/bin/python check.py {p} --tier quick",
        thorough_cmd=f"/opt/venv/bin/python check.py {p} --tier thorough",
        technique="contracts on the real code discharged by symbolic deductive verification (pyded, z3)",
        level=LEVEL.get(p, "proof"),
        level_note=NOTE + EXTRA.get(p, ""),
    ))
m = dict(
    version=1,
    setup_cmd="true",
    checks=checks,
    not_applicable=[],
    notes="check.py <replay file> re-runs a violation. Known findings and fixes: KNOWN_FINDINGS.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
