"""Aggregation of priority lists, feature dicts and property dicts: for every
sequence of arguments (absent ones included) of the listed sizes with symbolic
items and keys, the result against the definition: the first occurrence of every
item over the lists in order."""
FUNCTIONS = ["variantlib.utils:"]
AL = "abcdefghijklmnopqrstuvwxyz"
SHAPES = {
    "quick": [
        dict(name="namespaces", kind="ns", lists=(0, 1, 2, 3), n=(0, 1, 2), covers=["absent", "overlap"]),
        dict(name="long", kind="ns", lists=(2,), n=(3,), covers=["overlap"]),
        dict(name="features", kind="feat", lists=(1, 2), keys=(0, 1, 2), n=(0, 2), covers=["absent", "overlap"]),
        dict(name="features3", kind="feat", lists=(3,), keys=(1,), n=(0, 1), covers=["absent", "overlap"]),
        dict(name="properties", kind="prop", lists=(2,), keys=(1,), n=(1, 2), covers=["absent", "overlap"]),
        dict(name="properties3", kind="prop", lists=(3,), keys=(1,), n=(1,), covers=["absent", "overlap"]),
        dict(name="many", kind="ns", lists=(2, 3), n=(1, 2), many=40, covers=["overlap"]),
        dict(name="prefixes", kind="ns", lists=(2,), n=(1, 2), al="a", grow=True, covers=["overlap"]),
    ],
    "thorough": [
        dict(name="namespaces", kind="ns", lists=(0, 1, 2, 3), n=(0, 1, 2, 3), covers=["absent", "overlap"]),
        dict(name="features", kind="feat", lists=(1, 2), keys=(0, 1, 2), n=(0, 1, 2), covers=["absent", "overlap"]),
        dict(name="features3", kind="feat", lists=(3,), keys=(1,), n=(0, 1, 2), covers=["absent", "overlap"]),
        dict(name="properties", kind="prop", lists=(2,), keys=(1, 2), n=(1, 2), covers=["absent", "overlap"]),
        dict(name="properties3", kind="prop", lists=(3,), keys=(1,), n=(0, 1, 2), covers=["absent", "overlap"]),
    ],
}


def items(S, name, n):
    """A priority list: its items are pairwise different."""
    xs = [S.str(f"{name}.{i}", 1, AL) for i in range(n)]
    S.assume(S.And(*[S.Not(S.eq(x, y)) for i, x in enumerate(xs) for y in xs[:i]]))
    if S.p.get("many"):
        xs[1:1] = [f"y{i}" for i in range(S.p["many"])]
    return xs


def merged(S, lists):
    out = []
    for x in lists:
        if x is None:
            S.cover("absent")
            continue
        for i in x:
            if S.decide(S.Or(*[S.eq(i, j) for j in out])):
                S.cover("overlap")
            else:
                out.append(i)
    return out


def grouped(S, dicts):
    """[(key, [value of that key in each dict or None])]"""
    out = []
    for k, d in enumerate(dicts):
        for key, v in (d or {}).items():
            for e in out:
                if S.decide(S.eq(e[0], key)):
                    e[1].append(v)
                    break
            else:
                out.append((key, [v]))
    return out


def copied(x):
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    return x


def scenario(S):
    from variantlib import utils

    p = S.p
    k = p["kind"]
    args = []
    for i in range(S.pick("lists", p["lists"])):
        if S.flag(f"absent{i}"):
            args.append(None)
            S.cover("absent")
            continue
        if k == "ns":
            args.append(items(S, f"a{i}", S.pick(f"n{i}", p["n"])))
            continue
        keys = items(S, f"k{i}", S.pick(f"keys{i}", p["keys"]))
        if k == "feat":
            args.append({key: items(S, f"a{i}.{j}", S.pick(f"n{i}.{j}", p["n"])) for j, key in enumerate(keys)})
        else:
            args.append({key: {f: items(S, f"a{i}.{j}.{m}", S.pick(f"n{i}.{j}.{m}", p["n"]))
                               for m, f in enumerate(items(S, f"f{i}.{j}", 1))} for j, key in enumerate(keys)})
    before = [copied(a) for a in args]
    fn = {"ns": utils.aggregate_namespace_priorities, "feat": utils.aggregate_feature_priorities,
          "prop": utils.aggregate_property_priorities}[k]
    out = fn(*args)
    S.observe("out", out)
    S.check(S.eq(args, before), "argument-changed")
    if k == "ns":
        want = merged(S, args)
    elif k == "feat":
        want = {key: merged(S, vs) for key, vs in grouped(S, args)}
    else:
        want = {key: {f: merged(S, vs) for f, vs in grouped(S, ds)} for key, ds in grouped(S, args)}
    S.check(type(out) is type(want) and S.eq(out, want), "aggregate", "not the items of all inputs by precedence")
    # the result belongs to the caller
    if k == "ns":
        out.append("zz")
    else:
        for v in out.values():
            if k == "feat":
                v.append("zz")
            else:
                for w in v.values():
                    w.append("zz")
    S.check(S.eq(args, before), "argument-shared", "the result shares a list with an argument")
