"""Contracts of config (C01..C03). Configurations are trees of Python values: outside the verifier's reach (no numbers, no
arrays), so these contracts are only run, on complete enumerations of the value types and on sampled trees: bounded."""
import os
import shutil
import tempfile

from engine.vapi import contract, product

BOTH = [True, False]
CFG = "gradslam.config.cfgnode:CfgNode"
WHY = "configuration trees are untyped Python objects, which the verifier does not model"
KEYS = ["A", "B", "LR", "name", "x1", "opt"]
LEAVES = {"int": [0, 1, -7, 12345], "float": [0.5, -2.0, 1e-8, 3.0], "bool": [True, False], "str": ["adam", "a b", "data/x.yaml", ""],
          "list": [[1, 2], [], ["a", [1.5, "b"]], [[1], [2]]], "tuple": [(1, 2), (), ("a", [1, 2]), ((1,), 2)]}


def cfg(V):
    return V.fn(CFG)


def leaf(V, kind):
    import copy
    return copy.deepcopy(V.rng.choice(LEAVES[kind]))


def tree(V, depth=3, lo=1):
    """a random nested dict of supported values"""
    d = {}
    for k in V.rng.sample(KEYS, V.rng.randint(lo, 4)):
        if depth > 1 and V.rng.random() < 0.4:
            d[k] = tree(V, depth - 1)
        else:
            d[k] = leaf(V, V.rng.choice(sorted(LEAVES)))
    return d


def plain(V, x):
    """value of a configuration as nested dicts with exact types"""
    if isinstance(x, dict):
        return ("node", {k: plain(V, v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(V, v) for v in x])
    return (type(x).__name__, x)


def containers(x, out=None):
    """ids of all mutable values below x"""
    out = {} if out is None else out
    if isinstance(x, dict):
        out[id(x)] = x
        for v in x.values():
            containers(v, out)
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out[id(x)] = x
        for v in x:
            containers(v, out)
    return out


def nodes(x, path=()):
    """(path, node) of every configuration node"""
    yield path, x
    for k, v in x.items():
        if isinstance(v, dict):
            yield from nodes(v, path + (k,))


def leaves(x, path=()):
    for k, v in x.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def get(c, path):
    for k in path:
        c = c[k]
    return c


def another(V, v):
    """a different or equal value of the same type; sequences may come as the other sequence type"""
    kind = type(v).__name__
    if kind in ("list", "tuple"):
        return leaf(V, V.rng.choice(["list", "tuple"]))
    if kind == "str":
        return V.rng.choice(["sgd", "left right", "path/to/x", "7seven", "x=1"])
    return leaf(V, kind)


def subset(V, d):
    """some of the keys of a tree, with new values"""
    out = {}
    for k in V.rng.sample(sorted(d), V.rng.randint(0, len(d))):
        out[k] = subset(V, d[k]) if isinstance(d[k], dict) else another(V, d[k])
    return out


def overlay(d, u):
    out = dict(d)
    for k, v in u.items():
        if isinstance(v, dict):
            out[k] = overlay(d[k], v)
        else:
            out[k] = type(d[k])(v) if isinstance(v, (list, tuple)) else v
    return out


def shuffled(V, xs):
    xs = list(xs)
    V.rng.shuffle(xs)
    return xs


def fails(V, label, thunk, excs=(Exception,)):
    V.raises(label, excs, thunk)


# ------------------------------------------------------------------------------------------------ C01
@contract("C01", "merging sets the given keys and nothing else", product(how=["other", "list", "file"], frozen=BOTH), only="conc", samples=600, why=WHY)
def c01_merge(V, how, frozen):
    import copy
    d = tree(V)
    u = subset(V, d)
    c = cfg(V)(d)
    before_d, want = plain(V, d), plain(V, overlay(d, u))
    if how == "other":
        o = cfg(V)(u)
        if frozen:
            o.freeze()      # the merged-from configuration may be frozen
        before = plain(V, o)
        c.merge_from_other_cfg(o)
        V.ensure("the merged-from configuration is unchanged", plain(V, o) == before)
        V.ensure("nothing of it is aliased", not set(containers(o)) & set(containers(c)))
        V.ensure("it keeps its state", all(n.is_frozen() == frozen for _, n in nodes(o)))
    elif how == "list":
        items = shuffled(V, leaves(u))
        flat = [x for p, v in items for x in (".".join(p), v)]
        before = copy.deepcopy(flat)
        c.merge_from_list(flat)
        V.ensure("the override list is unchanged", plain(V, flat) == plain(V, before))
        V.ensure("nothing of it is aliased", not set(containers(flat)) & set(containers(c)))
    else:
        if any(isinstance(v, tuple) for _, v in leaves(u)) or not u:
            return
        tmp = tempfile.mkdtemp(prefix="vc-cfg-")
        try:
            path = os.path.join(tmp, "o.yaml")
            with open(path, "w") as f:
                f.write(cfg(V)(u).dump())
            c.merge_from_file(path)
        finally:
            shutil.rmtree(tmp)
        if any(isinstance(x, tuple) for _, v in leaves(u) for x in (v if isinstance(v, list) else [])):
            return      # tuples inside lists return as lists
    V.ensure("every given key has the given value, the others their own", plain(V, c) == want)
    V.ensure("the dictionary it was made from is unchanged", plain(V, d) == before_d)
    V.ensure("nothing of the dictionary is aliased", not set(containers(d)) & set(containers(c)))
    V.ensure("still mutable", not any(n.is_frozen() for _, n in nodes(c)))


@contract("C01", "strings are read as literals, as documented", [{}], only="conc", samples=180, why=WHY)
def c01_literals(V):
    for old, text, new in ((1, "17", 17), (0.5, "2.5", 2.5), (True, "False", False), ([1], "[3, 'a']", [3, "a"]), ((1,), "(3, 4)", (3, 4)),
                           ((1,), "[3, 4]", (3, 4)), ([1], "(3, 4)", [3, 4]), ("a", "foo/bar", "foo/bar"), ("a", "'12'", "12"), ("a", "b c", "b c")):
        depth = V.rng.randint(0, 2)
        d = {"k": old, "other": 1}
        for q in range(depth):
            d = {"n%d" % q: d, "z": "z"}
        path = tuple("n%d" % q for q in reversed(range(depth))) + ("k",)
        c = cfg(V)(d)
        c.merge_from_list([".".join(path), text])
        V.ensure("override list: %r for %r" % (text, old), plain(V, get(c, path)) == plain(V, new))
        u = text
        for k in reversed(path):
            u = {k: u}
        c = cfg(V)(d)
        c.merge_from_other_cfg(cfg(V)(u))
        V.ensure("configuration: %r for %r" % (text, old), plain(V, get(c, path)) == plain(V, new))


TYPES = ["int", "float", "bool", "str", "list", "tuple", "node"]


@contract("C01", "other types are rejected and change nothing there", product(old=TYPES, new=TYPES, how=["other", "list"]), only="conc", samples=24, why=WHY)
def c01_types(V, old, new, how):
    mk = lambda k: {"in": 1, "q": "z"} if k == "node" else V.rng.choice(["sgd", "left right"]) if k == "str" else leaf(V, k)
    depth = V.rng.randint(0, 2)
    d, v = {"k": mk(old), "other": [1]}, mk(new)
    path = ["n%d" % q for q in range(depth)] + ["k"]
    for q in reversed(range(depth)):
        d = {path[q]: d, "side": (1, 2)}
    if old == "node" and new == "node" and how == "list":
        v = {"in": 2, "q": "w"}
    c = cfg(V)(d)
    before = plain(V, c)

    def merge():
        if how == "list":
            c.merge_from_list([".".join(path), v])
        else:
            u = v
            for k in reversed(path):
                u = {k: u}
            c.merge_from_other_cfg(cfg(V)(u))
    if old == new or {old, new} == {"list", "tuple"}:
        merge()
        w = {"list": list, "tuple": tuple}[old](v) if old in ("list", "tuple") else v
        V.ensure("set", plain(V, get(c, path)) == plain(V, w))
        return
    fails(V, "a value of another type is an error", merge, (ValueError,))
    V.ensure("the configuration is unchanged", plain(V, c) == before)


@contract("C01", "dumping then loading gives back an equal configuration", [{}], only="conc", samples=800, why=WHY)
def c01_dump(V):
    d = tree(V)
    c = cfg(V)(d)
    before = plain(V, c)
    text = c.dump()
    V.ensure("dumping changes nothing", plain(V, c) == before)

    def lists(x):
        if isinstance(x, dict):
            return {k: lists(v) for k, v in x.items()}
        return [lists(v) for v in x] if isinstance(x, (list, tuple)) else x
    want = plain(V, lists(d))
    V.ensure("loaded from text", plain(V, cfg(V).load_cfg(text)) == want)
    V.ensure("nodes are configurations", all(isinstance(n, cfg(V)) for _, n in nodes(cfg(V).load_cfg(text))))
    tmp = tempfile.mkdtemp(prefix="vc-cfg-")
    try:
        for ext, body, w in ((".yaml", text, want), (".yml", text, want), (".py", "cfg = %r\n" % (d,), plain(V, d))):
            path = os.path.join(tmp, "c" + ext)
            with open(path, "w") as f:
                f.write(body)
            with open(path) as f:
                V.ensure("loaded from a %s file" % ext, plain(V, cfg(V).load_cfg(f)) == w)
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------------------------------------ C02
def attempts(V, c):
    """every way to change a value of c: assignments and merges at every depth, new keys included"""
    for path, n in list(nodes(c)):
        for k in list(n) + ["brand_new"]:
            yield "assign " + ".".join(path + (k,)), (lambda n, k: lambda: setattr(n, k, 5))(n, k)
            if k != "brand_new" and not isinstance(n[k], dict):
                v = another(V, n[k])
                full = ".".join(path + (k,))
                yield "override " + full, (lambda full, v: lambda: c.merge_from_list([full, v]))(full, v)
                u = {k: v}
                yield "merge into the node of " + full, (lambda n, u: lambda: n.merge_from_other_cfg(cfg(V)(u)))(n, u)
                for q in reversed(path):
                    u = {q: u}
                yield "merge " + full, (lambda u: lambda: c.merge_from_other_cfg(cfg(V)(u)))(u)
            if k == "brand_new":
                u = {k: 3}
                for q in reversed(path):
                    u = {q: u}
                yield "merge a new key below " + ".".join(path), (lambda u: lambda: c.merge_from_other_cfg(cfg(V)(u)))(u)
            if k != "brand_new" and isinstance(n[k], dict):
                full = ".".join(path + (k,))
                w = cfg(V)({"other": 1})
                yield "override the node " + full, (lambda full, w: lambda: c.merge_from_list([full, w]))(full, w)


def open_everywhere(V, c):
    for _, n in nodes(c):
        n.__dict__[cfg(V).NEW_ALLOWED] = True


@contract("C02", "a frozen configuration cannot be changed at any depth", product(new=BOTH, part=BOTH), only="conc", samples=120, why=WHY)
def c02_frozen(V, new, part):
    c = cfg(V)(tree(V), new_allowed=new)
    if new:
        open_everywhere(V, c)
    top = c
    if part:        # freezing a part
        below = [n for p, n in nodes(c) if p]
        if not below:
            return
        c = V.rng.choice(below)
    c.freeze()
    V.ensure("frozen at every depth", all(n.is_frozen() for _, n in nodes(c)))
    before, whole = plain(V, c), plain(V, top)
    for what, act in attempts(V, c):
        fails(V, what.split(" ")[0] + " is an error on a frozen configuration", act)
        V.ensure("frozen: nothing changed", plain(V, c) == before and plain(V, top) == whole)
        V.ensure("still frozen", all(n.is_frozen() for _, n in nodes(c)))
    c.defrost()
    V.ensure("mutable again at every depth", not any(n.is_frozen() for _, n in nodes(c)))
    for p, n in list(nodes(c)):
        n.added = 5
        V.ensure("assignment works after defrosting", get(c, p)["added"] == 5)
        for k in list(n):
            if not isinstance(n[k], dict):
                v = another(V, n[k])
                n.merge_from_list([k, v])
                V.ensure("overrides work after defrosting", plain(V, n[k]) == plain(V, type(n[k])(v) if isinstance(v, (list, tuple)) else v))


@contract("C02", "a clone is equal, independent and keeps the frozen state", product(frozen=["no", "all", "part"]), only="conc", samples=450, why=WHY)
def c02_clone(V, frozen):
    c = cfg(V)(tree(V), new_allowed=V.rng.random() < 0.5)
    c.register_deprecated_key("old.key")
    c.register_renamed_key("was", "is")
    if frozen == "all":
        c.freeze()
    if frozen == "part":
        V.rng.choice([n for _, n in nodes(c)]).freeze()
    q = c.clone()
    before = plain(V, c)
    state = lambda x: {p: (n.is_frozen(), n.is_new_allowed(), type(n)) for p, n in nodes(x)}
    V.ensure("equal", plain(V, q) == before)
    V.ensure("frozen state and settings kept", state(q) == state(c))
    V.ensure("registered keys kept", q.key_is_deprecated("old.key") and q.key_is_renamed("was"))
    V.ensure("nothing shared", not set(containers(c)) & set(containers(q)))
    s = state(c)
    q.defrost()
    V.ensure("the original keeps its frozen state", state(c) == s)
    for _, n in list(nodes(q)):
        for k in list(n):
            if isinstance(n[k], list):
                n[k].append(1)
            elif not isinstance(n[k], dict):
                setattr(n, k, 99)
        n.extra = 1
    q.register_deprecated_key("more")
    q.register_renamed_key("more", "less")
    V.ensure("changing the clone leaves the original", plain(V, c) == before)
    V.ensure("registering on the clone leaves the original", not c.key_is_deprecated("more") and not c.key_is_renamed("more"))


# ------------------------------------------------------------------------------------------------ C03
@contract("C03", "deprecated keys are ignored, renamed ones are errors", product(kind=["deprecated", "renamed", "renamed+"], exists=BOTH, how=["other", "list"],
          new=BOTH, depth=[0, 1, 2]), only="conc", samples=24, why=WHY)
def c03_keys(V, kind, exists, how, new, depth):
    d = {"k": 1, "other": [1, 2], "z": "s"}
    if not exists:
        del d["k"]
    path = ["n%d" % q for q in range(depth)] + ["k"]
    for q in reversed(range(depth)):
        d = {path[q]: d, "side": 3}
    c = cfg(V)(d)
    if new:
        open_everywhere(V, c)
    full = ".".join(path)
    if kind == "deprecated":
        c.register_deprecated_key(full)
    else:
        c.register_renamed_key(full, "NEW.NAME", *(["see the manual"] if kind == "renamed+" else []))
    before = plain(V, c)
    u = {"k": 7} if how == "other" and V.rng.random() < 0.5 else {"other": [9], "k": 7}
    given = u.get("other")

    def merge():
        if how == "list":
            x = [full, 7] if given is None else [".".join(path[:-1] + ["other"]), given, full, 7]
            c.merge_from_list(x)
        else:
            w = dict(u)
            for k in reversed(path[:-1]):
                w = {k: w}
            c.merge_from_other_cfg(cfg(V)(w))
    if kind == "deprecated":
        merge()
        want = cfg(V)(d)
        if given is not None:
            get(want, path[:-1])["other"] = given
        V.ensure("a deprecated key is ignored, the others are merged", plain(V, c) == plain(V, want))
        return
    try:
        merge()
        msg = None
    except KeyError as e:
        msg = str(e)
    V.ensure("a renamed key is an error", msg is not None)
    V.ensure("the error names the new key", "NEW.NAME" in msg)
    V.ensure("the error carries the message", kind == "renamed" or "see the manual" in msg)
    V.ensure("the renamed key is not merged", plain(V, get(c, path[:-1])).__repr__().count("7") == 0 and ("k" in get(c, path[:-1])) == exists)


@contract("C03", "unknown keys are errors unless new keys are allowed", product(how=["other", "list"], new=["none", "there", "elsewhere"], depth=[0, 1, 2]),
          only="conc", samples=30, why=WHY)
def c03_unknown(V, how, new, depth):
    d = {"k": 1}
    path = ["n%d" % q for q in range(depth)]
    for q in reversed(range(depth)):
        d = {path[q]: d, "side": 3, "sib": {"y": 1}}
    c = cfg(V)(d)
    there = get(c, path)
    if new == "there":
        there.__dict__[cfg(V).NEW_ALLOWED] = True
    if new == "elsewhere":
        for _, n in nodes(c):
            if n is not there:
                n.__dict__[cfg(V).NEW_ALLOWED] = True
    before = plain(V, c)
    v = leaf(V, V.rng.choice(sorted(LEAVES))) if V.rng.random() < 0.7 else {"deep": 1, "list": [1]}
    if isinstance(v, str):
        v = "text"
    if how == "list":
        fails(V, "overrides name existing keys only", lambda: c.merge_from_list([".".join(path + ["fresh"]), v]))
        V.ensure("nothing changed", plain(V, c) == before)
        return
    u = {"fresh": v}
    for k in reversed(path):
        u = {k: u}
    o = cfg(V)(u)
    if new == "there":
        c.merge_from_other_cfg(o)
        V.ensure("the new key is added", plain(V, there["fresh"]) == plain(V, v))
        V.ensure("nothing else changes", plain(V, {k: x for k, x in there.items() if k != "fresh"}) == plain(V, {"k": 1} if depth else {k: x for k, x in d.items()}))
        V.ensure("nothing is aliased", not set(containers(o)) & set(containers(c)))
        V.ensure("the merged-from configuration is unchanged", plain(V, o) == plain(V, u))
        return
    fails(V, "an unknown key is an error", lambda: c.merge_from_other_cfg(o), (KeyError,))
    V.ensure("nothing changed", plain(V, c) == before)


@contract("C03", "registering a key twice is an error", [{}], only="conc", samples=15, why=WHY)
def c03_twice(V):
    c = cfg(V)(tree(V))
    for key in ("a", "A.B", "x.y.z"):
        c.register_deprecated_key(key)
        V.ensure("registered as deprecated", c.key_is_deprecated(key))
        fails(V, "deprecated twice", lambda: c.register_deprecated_key(key))
        V.ensure("not renamed", not c.key_is_renamed(key))
    for key in ("b", "B.C"):
        c.register_renamed_key(key, "n." + key)
        V.ensure("registered as renamed", c.key_is_renamed(key))
        fails(V, "renamed twice", lambda: c.register_renamed_key(key, "other"))
        fails(V, "renamed twice with a message", lambda: c.register_renamed_key(key, "other", "msg"))
        V.ensure("not deprecated", not c.key_is_deprecated(key))
        try:
            c.raise_key_rename_error(key)
            msg = ""
        except KeyError as e:
            msg = str(e)
        V.ensure("the first registration stays", "n." + key in msg and "other" not in msg)


def unsupported(V):
    class I(int):
        pass

    class L(list):
        pass
    return [None, {1, 2}, b"bytes", 1 + 2j, object(), V.np.zeros(2), V.np.float32(1), V.torch.ones(1), range(3), I(3), L([1]), frozenset(), int, len]


@contract("C03", "only supported values are stored", [{}], only="conc", samples=90, why=WHY)
def c03_values(V):
    for bad in unsupported(V):
        d = tree(V)
        path, n = V.rng.choice(list(nodes(d)))
        n["bad"] = bad
        fails(V, "construction from an unsupported value is an error", lambda: cfg(V)(d), (AssertionError,))
        del n["bad"]
        c = cfg(V)(d)
        before = plain(V, c)
        path, n = V.rng.choice(list(nodes(c)))
        for k in list(n)[:1] + ["brand_new"]:
            fails(V, "assigning an unsupported value is an error", lambda: setattr(n, k, bad), (AssertionError,))
            V.ensure("nothing is stored", plain(V, c) == before)
    c = cfg(V)(tree(V))
    before = plain(V, c)
    for k in list(vars(c)):
        fails(V, "internal state cannot be assigned", lambda: setattr(c, k, True), (AssertionError,))
    fails(V, "a plain dictionary cannot be assigned", lambda: setattr(c, "d", {"a": 1}), (AssertionError,))
    V.ensure("nothing changed", plain(V, c) == before and not c.is_frozen())
    for kind in LEAVES:
        v = leaf(V, kind)
        c.val = v
        V.ensure("supported values are stored", plain(V, c.val) == plain(V, v))
        V.ensure("read back by key and attribute", c["val"] is c.val)
    c.node = cfg(V)({"a": 1})
    V.ensure("nodes can be assigned", c.node.a == 1)
    V.ensure("missing keys are attribute errors", not hasattr(c, "missing"))
