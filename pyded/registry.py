"""Registry of contracts."""

CONTRACTS = {}


class Contract:
    def __init__(self, fn, prop, name, targets, budget, opts):
        self.fn = fn
        self.prop = prop
        self.name = name
        self.targets = targets
        self.budget = budget
        self.opts = opts


def contract(prop, name, targets, budget=100, **opts):
    def deco(fn):
        c = Contract(fn, prop, name, targets, budget, opts)
        key = f"{prop}/{name}"
        assert key not in CONTRACTS, key
        CONTRACTS[key] = c
        return fn

    return deco
