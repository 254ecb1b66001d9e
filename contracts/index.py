"""Which contracts decide which property (own contracts and those of the
functions it relies on: a caller is checked against the callee's contract)."""

TRUSTED = [
    "z3 (SMT solver)",
    "CPython 3.12 executing the repository's own source",
    "the pyded engine in /verif/pyded (instrumentation of loops/displays/builtins, path exploration, loop rule)",
    "the stated contracts of simpy (timeouts, conditions, resources, process scheduling): pyded/sim.py, contracts/world.py",
]

ASSUMPTIONS = [
    "floating point numbers are treated as mathematical reals",
    "sets are iterated in one arbitrary fixed order",
    "a process that waits for an event is resumed at the time that event is due (termination of waiting is not proved)",
]

# bounded stand-ins decided by concrete runs only
CONCRETE = {"C25/whole", "C26/whole", "C14/whole", "C13/whole", "C12/whole", "C10/whole", "C09/whole", "C08/whole", "C07/whole", "C06/whole", "C05/whole", "C02/decimals", "C07/run-large", "C16/tree-large", "C19/tree-large", "C15/windows-long", "C08/many-passes", "C17/critical-large", "C23/forest-large", "C24/inferred-large", "C25/log-large", "C25/ranges-large", "C25/tables-large", "C25/activity-log-large", "C25/gantt-large", "C26/recorded-large", "C25/steps"}


def C(mod, *keys):
    return [(mod, k) for k in keys]


LEVELS = C("container", "C04/levels", "C04/default-content", "C04/multi-content")
EVENTS = C("container", "C04/events", "C04/events-again", "C04/events-two", "C04/events-burst")
LOG = C("logs", "C21/entry", "C21/label")
EXPR = C("gates", "C10/connectives", "C10/any-length", "C10/container", "C10/activity", "C10/time", "C10/invalid")
GATE = C("gates", "C09/gate")
PLUGINS = C("plugins", "C20/run", "C20/insert", "C20/order")
REG = C("registration", "C16/activity", "C16/tree", "C16/tree-large", "C16/refused", "C16/register-any", "C16/refused-any", "C16/subprocesses")

PROPS = {
    "C01": dict(contracts=C("shift", "C01/shift", "C01/shift-phase") + LEVELS),
    "C02": dict(contracts=C("shift", "C02/shift", "C02/shift-phase") + C("decimals", "C02/decimals") + LEVELS + EVENTS),
    "C03": dict(contracts=C("shift", "C03/shift", "C03/shift-multi") + LEVELS),
    "C04": dict(contracts=LEVELS + EVENTS),
    "C05": dict(contracts=C("whole", "C05/whole") + C("basic", "C05/basic") + C("shift", "C05/shift") + C("move", "C05/move") + LOG),
    "C06": dict(contracts=C("whole", "C06/whole") + C("structure", "C06/gates", "C06/run", "C07/gates") + C("gates", "C10/activity", "C09/gate") + REG),
    "C07": dict(contracts=C("whole", "C07/whole") + C("structure", "C07/gates", "C07/run-small", "C07/run-large") + GATE),
    "C08": dict(contracts=C("whole", "C08/whole") + C("structure", "C08/repeat", "C08/while", "C08/while-container", "C08/many-passes", "C06/gates", "C07/gates") + REG + EVENTS),
    "C09": dict(contracts=C("whole", "C09/whole") + GATE + EXPR + EVENTS),
    "C10": dict(contracts=C("whole", "C10/whole") + EXPR + EVENTS),
    "C11": dict(contracts=C("shift", "C11/shift", "C11/shift-keep") + C("move", "C11/move")),
    "C12": dict(contracts=C("whole", "C12/whole") + C("move", "C12/move", "C12/own-engine-order") + C("container", "C04/levels")),
    "C13": dict(contracts=C("whole", "C13/whole") + C("shift", "C13/shift", "C13/shift-quiet", "C13/shift-multi")),
    "C14": dict(contracts=C("whole", "C14/whole") + C("plugins", "C14/activity", "C14/hook")),
    "C15": dict(contracts=C("weather", "C15/start", "C15/off", "C15/choose-any", "C15/choose", "C15/windows", "C15/windows-long")),
    "C16": dict(contracts=REG),
    "C18": dict(contracts=C("recording", "C18/step-any", "C18/step", "C18/steps")),
    "C19": dict(contracts=C("export", "C19/level", "C19/tree", "C19/tree-large")),
    "C20": dict(contracts=PLUGINS),
    "C21": dict(contracts=LOG),
    "C17": dict(contracts=C("critical", "C17/critical", "C17/critical-large")),
    "C23": dict(contracts=C("critical", "C23/forest", "C23/forest-large", "C23/shift", "C23/move", "C23/basic", "C23/start")),
    "C24": dict(contracts=C("critical", "C24/inferred", "C24/inferred-large")),
    "C25": dict(contracts=C("tables", *["C25/" + k + l for k in ("log", "ranges", "tables", "activity-log", "gantt") for l in ("", "-large")], "C25/steps") + C("whole", "C25/whole")),
    "C26": dict(contracts=C("tables", "C26/recorded", "C26/recorded-large") + C("whole", "C26/whole")),
    "C22": dict(contracts=C("route", "C22/route", "C22/path", "C22/neither", "C22/along") + C("move", "C12/own-engine-order")),
}
