"""Registry of contracts."""
SCEN = {}


class Scenario:
    def __init__(self, prop, name, fn, d, fns, unbounded, tier, concrete):
        self.prop, self.name, self.fn, self.d, self.fns, self.unbounded, self.tier, self.concrete = \
            prop, name, fn, d, fns, unbounded, tier, concrete


def scenario(prop, name, d=None, fns=(), unbounded=False, tier="quick", concrete=True):
    """d: tensor order the contract is stated for (None: any); unbounded: holds for every order, size, rank and value;
    concrete: can also be evaluated at run time"""
    def reg(fn):
        SCEN.setdefault(prop, []).append(Scenario(prop, name, fn, d, list(fns), unbounded, tier, concrete))
        return fn
    return reg
