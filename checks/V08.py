"""get-variant-hash: any number of property texts, in any order and spacing, in one or several
options; the printed hash is the one of that set of properties."""
from harness import NAME, VALUE, ref_parse
from harness.wheels import World

FUNCTIONS = ["variantlib.commands.get_variant_hash:", "variantlib.models.variant:"]
SHAPES = {
    "quick": [
        dict(name="one", n=1, text=(0, 1, 2), seps=("::", " :: "), al="a_ :A", covers=["printed", "malformed"]),
        dict(name="sets", n=2, al="ab", val="1.", covers=["printed"]),
        dict(name="orders", n=3, al="a", val="12.", covers=["printed"]),
        dict(name="alphabet", n=1, al=NAME, val=VALUE, covers=["printed"]),
        dict(name="free", free=(0, 5, 7, 8), al="a:", covers=["printed", "malformed"]),
        dict(name="long", n=2, al="ab", val="1.", long=300, covers=["printed"]),
        dict(name="many", n=2, many=20, al="ab", val="1", covers=["printed"]),
        dict(name="prefixes", n=2, al="a", val="1", grow=True, covers=["printed"]),
    ],
    "thorough": [
        dict(name="one", n=1, text=(0, 1, 2, 3), seps=("::", " :: ", "::  "), al="a_ :A\n", covers=["printed", "malformed"]),
        dict(name="sets", n=2, al="ab_", val="12.", covers=["printed"]),
        dict(name="orders", n=3, al="ab", val="12.", covers=["printed"]),
        dict(name="alphabet", n=2, al=NAME, val=VALUE, covers=["printed"]),
        dict(name="free", free=(0, 5, 6, 7, 8), al="a: 1", covers=["printed", "malformed"]),
    ],
}


def scenario(S):
    from variantlib.commands.get_variant_hash import get_variant_hash
    from variantlib.models.variant import VariantDescription, VariantProperty

    p = S.p
    w = World(S)
    texts = []
    if p.get("free"):
        texts = [S.strv("text", p["free"], p["al"])]
    for i in range(p.get("n", 0)):
        if "text" in p:
            sep = S.pick("sep", p["seps"])
            texts.append(sep.join([S.strv(f"{k}{i}", p["text"], p["al"]) for k in "nfv"]))
        else:
            texts.append("::".join([S.str(f"{k}{i}", 1, p["al"]) for k in "nf"] + [S.str(f"v{i}", 1, p["val"])]))
    texts = S.perm("order", texts) + [f"yy::f::y{i}" for i in range(p.get("many", 0))]
    parts = [ref_parse(S, t, 3) for t in texts]
    for t in texts:
        S.assume(S.Not(S.And(len(t) > 0, S.eq(t[:1], "-"))))
    args = []
    for i, t in enumerate(texts):
        args += ["-p", t] if i == 0 or i < 4 and S.flag(f"option{i}") else [t]
    r, out = w.run(get_variant_hash, args, disk=True)
    S.observe("result", r)
    if any(x is None for x in parts):
        S.check(not r.ok and not bool(out), "malformed", f"{out!r} for {texts!r}")
        S.cover("malformed")
        return
    want = []
    for x in parts:
        q = VariantProperty(*x)
        if not any(S.decide(S.eq(q, y)) for y in want):
            want.append(q)
    same = len(want) == len(texts)
    if not same:
        # a variant does not have a property twice (V05)
        S.check(not r.ok and not bool(out), "repeated", f"{out!r} for {texts!r}")
        S.cover("duplicate")
        return
    S.check(r.ok, "fails", f"{r!r} for {texts!r}")
    S.check(S.eq(out, VariantDescription(want).hexdigest + "\n"), "hash", f"{out!r} for {texts!r}")
    S.cover("printed")
