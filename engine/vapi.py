"""The contract language. A contract is a python function over V; it is *proved* with the symbolic back end
(SymV, all inputs, no bound) and *run* with the concrete back end (concrete.py, real torch)."""

REG = {}


class Contract:
    def __init__(self, prop, name, fn, cfgs, opts):
        self.prop, self.name, self.fn, self.quick, self.opts = prop, name, fn, cfgs, opts
        self.tier = "quick"

    @property
    def cfgs(self):
        """configurations of the tier; the thorough tier adds those of option thorough"""
        extra = self.opts.get("thorough") or []
        return self.quick + [x for x in extra if x not in self.quick] if self.tier == "thorough" else self.quick

    @property
    def key(self):
        return self.prop + "/" + self.name


def contract(prop, name, cfgs=None, **opts):
    """opts: samples, timeout, budget, invariants, grad, only ('sym'|'conc'), bounded (label), max_paths"""
    def deco(fn):
        c = Contract(prop, name, fn, cfgs or [{}], opts)
        lst = REG.setdefault(prop, [])
        if any(x.name == name for x in lst):
            raise ValueError("duplicate contract " + c.key)
        lst.append(c)
        return fn
    return deco


def product(**kw):
    import itertools
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*kw.values())]


class Skip(Exception):
    """this concrete sample does not satisfy the precondition"""


class Violation(Exception):
    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail
        Exception.__init__(self, "%s: %s" % (label, detail))
