"""Contracts of the exported activity tree (C19)."""

import openclsim.model.base_activities as model_
import simpy

from .common import *
from .trees import build, forests

T_TREE = ["openclsim.io.get_tree_as_list"]
KEYS = {"ActivityID", "ActivityName", "ActivityClass", "ParentId", "ParentName", "ParentLevel", "activity"}


class TNode(model_.GenericActivity):
    """an activity as the export sees it"""

    __ded_leaf__ = True

    def __init__(self, label, parent=None, level=0, children=None):
        self.name, self.id, self.parent, self.level = label, label + "-id", parent, level
        if children is not None:
            self.sub_processes = children

    @property
    def pid(self):
        return None if self.parent is None else self.parent.id

    @property
    def pname(self):
        return "" if self.parent is None else self.parent.name


class TNest(TNode, model_.RegisterSubProcesses):
    __ded_leaf__ = True


def node(K, label, level, children=None, roles=None):
    """an activity: a stub in symbolic runs, else a real one"""
    if K.symbolic:
        it = (TNode if children is None else TNest)(label, None, level, children)
        for r, c in (roles or {}).items():
            setattr(it, r, c)
        return it
    import openclsim.model as m

    kw = dict(env=simpy.Environment(), registry={}, name=label, id=label + "-id")
    if children is not None:
        cls = K.choice("class", [m.SequentialActivity, m.ParallelActivity, m.WhileActivity, m.RepeatActivity])
        more = {m.WhileActivity: dict(condition_event=[]), m.RepeatActivity: dict(repetitions=2)}.get(cls, {})
        it = cls(sub_processes=children, **more, **kw)
    elif not roles:
        it = m.BasicActivity(duration=1, **kw)
    elif "mover" in roles:
        it = m.MoveActivity(**roles, **kw)
    else:
        it = m.ShiftAmountActivity(duration=1, **roles, **kw)
    it.parent, it.level = None, level
    return it


def pid(a):
    return None if a.parent is None else a.parent.id


def pname(a):
    return "" if a.parent is None else a.parent.name


def tree_check(K, sizes):
    import openclsim.io as io

    n = K.choice("activities", sizes)
    f = K.choice("tree", forests(n))
    d = K.int("depth", lo=0)
    nodes = []

    def mk(path, children):
        it = node(K, "n" + "-".join(map(str, path)), len(path) - 1, children)
        it.path = path
        for c in children or ():
            c.parent = it
        nodes.append(it)
        return it

    tops = build(f, mk)
    given = K.choice("given", ["list", "dict"] + (["single"] if len(tops) == 1 else []))
    g = {"list": tops, "dict": {t.name: t for t in tops}, "single": tops[0]}[given]
    kids = [(x, list(x.sub_processes)) for x in nodes if hasattr(x, "sub_processes")]
    res = io.get_tree_as_list(g) if K.is_true(K.eq(d, 0)) else io.get_tree_as_list(g, d)
    K.check("the fields", set(res) == KEYS)
    acts = list(res["activity"])
    K.check("every activity exactly once", len(acts) == n and {id(a) for a in acts} == {id(a) for a in nodes})
    K.check("all columns have one value per activity", all(len(v) == n for v in res.values()))
    pos = {id(a): i for i, a in enumerate(acts)}
    for i, a in enumerate(acts):
        K.check("id, name and class of the activity", res["ActivityID"][i] == a.id and res["ActivityName"][i] == a.name and res["ActivityClass"][i] == type(a).__name__)
        K.check("its direct parent", res["ParentId"][i] == pid(a) and res["ParentName"][i] == pname(a))
        K.check("its depth", K.eq(res["ParentLevel"][i], d + a.level))
        if a.parent is not None:
            K.check("a parent before its sub-activities", pos[id(a.parent)] < i)
    for x, c in kids + [(None, tops)]:
        K.check("sub-activities in order", all(pos[id(a)] < pos[id(b)] for a, b in zip(c, c[1:])))
    K.check("the activities are not changed", all(list(x.sub_processes) == c for x, c in kids))


@contract("C19", "tree", T_TREE, budget=200, bounded="every tree of at most 5 activities")
def tree5(K):
    tree_check(K, [1, 2, 3, 4, 5])


@contract("C19", "tree-large", T_TREE, budget=200, bounded="random trees of 6 to 8 activities", concrete=True)
def tree8(K):
    tree_check(K, [6, 7, 8])


@contract("C19", "level", T_TREE, budget=150)
def level(K):
    """induction step over the depth: one level with any number of activities,
    given that the function is right for the sub-activities (any number, of any
    depth) of those that have some"""
    import openclsim.io as io

    d = K.int("depth", lo=0)
    cache = {}

    def anon(label, j, parent, lvl):
        if not K.symbolic:
            j = int(j)
        k = (label, str(j))
        if k not in cache:
            cache[k] = TNode(f"{label}[{j}]", parent, lvl)
        return cache[k]

    run = lambda lab, parent, lvl, f=lambda x: x: ("run", lab, lambda j: f(anon(lab, j, parent, lvl)))
    asked = {}
    deep = {}

    def subtree(w):
        """what the function returns for the sub-activities of w, by contract:
        the direct ones without a parent, then deeper ones with theirs"""
        lab = w.name
        far = TNest(lab + ".deep")
        S = K.seq(run(lab + ".P", w, d + 1), ("one", TNode(lab + ".p", w, d + 1)), run(lab + ".Q", far, d + 2))
        deep[lab] = S
        top = lambda e: e.parent is w
        m = lambda f: mapped(K, S, f)
        return {
            "ActivityID": m(lambda e: e.id),
            "ActivityName": m(lambda e: e.name),
            "ActivityClass": m(lambda e: type(e).__name__),
            "ParentId": m(lambda e: None if top(e) else e.pid),
            "ParentName": m(lambda e: "" if top(e) else e.pname),
            "ParentLevel": m(lambda e: e.level),
            "activity": m(lambda e: e),
        }

    shape = K.choice("level", ["A", "w", "A w B x C"])
    parts, nest = [], []
    for p in shape.split():
        if p.isupper():
            parts.append(run(p, None, d))
        else:
            x = TNest(p, None, d, [p + " children"])
            nest.append(x)
            parts.append(("one", x))
    tops = K.seq(*parts)
    f0 = K.frozen(tops)
    orig = io.get_tree_as_list

    def rec(treelist, depth=0):
        w = [x for x in nest if treelist is x.sub_processes]
        K.check("only the sub-activities of an activity are visited", len(w) == 1)
        K.check("each once", w[0].name not in asked)
        K.check("one level deeper", K.eq(depth, d + 1))
        asked[w[0].name] = 1
        return subtree(w[0])

    io.get_tree_as_list = rec
    try:
        res = orig(tops, d)
    finally:
        io.get_tree_as_list = orig
    K.check("the fields", set(res) == KEYS)
    K.check("the sub-activities of every activity are visited", len(asked) == len(nest))
    want = f0
    for x in nest:
        want = want + K.frozen(deep[x.name])
    acts = res["activity"]
    total = K.len(tops)
    for x in nest:
        total = total + K.len(deep[x.name])
    K.check("every activity of the level, then those below each, in order", K.and_(K.starts_with(acts, want), K.eq(K.len(acts), total)))
    for k in KEYS:
        K.check("all columns have one value per activity", K.eq(K.len(res[k]), total))
    K.check("the given list is not changed", K.starts_with(tops, f0))
    if not K.is_true(total > 0):
        return
    j = K.int("any", lo=0)
    K.assume(j < total)
    e = acts[j]
    K.check("id, name and class of the activity", K.and_(res["ActivityID"][j] == e.id, res["ActivityName"][j] == e.name, res["ActivityClass"][j] == type(e).__name__))
    K.check("its direct parent", K.and_(K.eq(res["ParentId"][j], e.pid), K.eq(res["ParentName"][j], e.pname)), lambda: repr((e.name, e.pid, res["ParentId"][j], res["ParentName"][j], e.pname)))
    K.check("its depth", K.eq(res["ParentLevel"][j], e.level))


def mapped(K, S, f):
    if not K.symbolic:
        return [f(e) for e in S]
    from pyded.seq import SymList, SymSeq

    return SymList(SymSeq(S.segs).mapped(f))
