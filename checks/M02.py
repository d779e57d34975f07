"""Acceptance of metadata documents against the documented rules, and what accepted documents
are represented as: every combination of names and presence in the listed shapes."""
from harness.metadata import names
from harness.metaref import verdict

FUNCTIONS = ["variantlib.models.variant_info:VariantInfo._process_common", "variantlib.validators.", "variantlib.variants_json:VariantsJson._process",
             "variantlib.pyproject_toml:", "variantlib.variant_dist_info:"]
SHAPES = {
    "quick": [
        dict(name="sets", part="sets", order=(0, 1, 2), np=(0, 1, 2), static=(0, 1), al="ab", kinds=("project", "index"), few=True,
             covers=["accepted", "priorities and providers", "static properties", "no requires"]),
        dict(name="static", part="static", fp=(0, 1, 2), sf=(0, 1, 2), al="fgh", covers=["accepted", "static priorities", "static properties"]),
        dict(name="characters", part="chars", al="aA_-. \n\xe9", lens=(0, 1, 2), covers=["accepted", "name", "value", "label", "requires", "enable-if", "plugin-api"]),
        dict(name="plugin-api", part="api", al="a.: -", lens=(1, 2, 3), covers=["accepted", "plugin-api"]),
        dict(name="unknown", part="unknown", covers=["unknown key", "accepted"]),
        dict(name="variants", part="variants", vs=(0, 1, 2), shape=(0, 1, 2), ll=(1,), al="xy-", nal="a", fal="fg", val="1",
             covers=["accepted", "null", "duplicate", "label", "count", "no variants"]),
        dict(name="texts", part="texts", covers=["accepted", "requires", "enable-if", "plugin-api"]),
        dict(name="many", part="many", many=60, al="ab", covers=["accepted", "priorities and providers", "static properties", "static priorities"]),
        dict(name="many-variants", part="many-variants", many=40, al="xy-", nal="a", fal="fg", val="12", covers=["accepted", "null", "duplicate", "label"]),
    ],
    "thorough": [
        dict(name="sets", part="sets", order=(0, 1, 2), np=(0, 1, 2), static=(0, 1, 2), al="abc", kinds=("project", "index"),
             covers=["accepted", "priorities and providers", "static properties", "no requires"]),
        dict(name="static", part="static", fp=(0, 1, 2, 3), sf=(0, 1, 2, 3), al="fgh", covers=["accepted", "static priorities", "static properties"]),
        dict(name="characters", part="chars", al="aAzZ019_-. \n\t/\x7f\u00e9", lens=(0, 1, 2, 3), covers=["accepted", "name", "value", "label", "requires",
                                                                                                "enable-if", "plugin-api"]),
        dict(name="plugin-api", part="api", al="aZ_0.: -", lens=(1, 2, 3, 4), covers=["accepted", "plugin-api"]),
        dict(name="unknown", part="unknown", covers=["unknown key", "accepted"]),
        dict(name="variants", part="variants", vs=(0, 1, 2), shape=(0, 1, 2, 3), ll=(1, 2), al="xy-", nal="ab", fal="fg", val="12",
             covers=["accepted", "null", "duplicate", "label", "count", "no variants"]),
    ],
}
CONSTANTS = ["null"]


def wrap(doc, kind):
    if kind == "project":
        return {"variant": doc}
    if "variants" not in doc:
        doc["variants"] = {}
    return doc


def scenario(S):
    {"sets": sets, "static": static, "chars": chars, "api": api, "unknown": unknown, "variants": variants, "many": many, "texts": texts,
     "many-variants": many_variants}[S.p["part"]](S)


def sets(S):
    p = S.p
    kind = S.pick("doc", p["kinds"])
    order = names(S, "o", S.pick("norder", p["order"]), (1,), p["al"], False)
    providers = {}
    for i, ns in enumerate(names(S, "n", S.pick("np", p["np"]), (1,), p["al"])):
        d = {}
        k = S.pick(f"kind{i}", ("install", "aot", "static") if p.get("few") else ("install", "aot", "static", "bare", "none"))
        if k in ("install", "aot"):
            d["requires"] = ["x >= 1"]
        if k == "none":
            d["requires"] = []
        if k in ("aot", "static", "none") and not (k == "none" and S.flag(f"inst{i}")):
            d["install-time"] = False
        providers[ns] = d
    if p.get("few") and providers and S.flag("bare"):
        providers[next(iter(providers))].pop("requires", None)
    stat = {ns: {"f": ["1"]} for ns in names(S, "s", S.pick("nstatic", p["static"]), (1,), p["al"])}
    doc = {}
    if order or S.flag("prio"):
        doc["default-priorities"] = {"namespace": order}
    if providers or S.flag("prov"):
        doc["providers"] = providers
    if stat or (not p.get("few") and S.flag("stat")):
        doc["static-properties"] = stat
    verdict(S, wrap(doc, kind), kind)


def static(S):
    p = S.p
    kind = S.pick("doc", ("project", "index"))
    feats = names(S, "s", S.pick("nsf", p["sf"]), (1,), p["al"])
    prio = names(S, "p", S.pick("nfp", p["fp"]), (1,), p["al"], False)
    at = S.pick("at", ("a", "b"))
    provider = {"install-time": False}
    if S.flag("aot"):
        provider["requires"] = ["x"]
    doc = {"default-priorities": {"namespace": ["a"], "feature": {at: prio}}, "providers": {"a": provider}}
    if S.flag("given"):
        doc["static-properties"] = {"a": {f: ["1"] for f in feats}}
    verdict(S, wrap(doc, kind), kind)


PLACES = ("ns", "feature-ns", "feature", "value-ns", "value-feature", "value", "requires", "enable-if", "static-ns", "static-feature",
          "static-value", "label", "variant-ns", "variant-feature", "variant-value", "plugin-api")


def chars(S):
    """One name of an otherwise good document is any string."""
    kind = S.pick("doc", ("project", "index", "wheel"))
    place = S.pick("place", PLACES)
    S.assume(kind != "project" or not (place == "label" or place.startswith("variant-")))
    s = S.strv("s", S.p["lens"], S.p["al"])
    if place == "label" and S.flag("long"):
        s = "x" * S.pick("more", (13, 14, 15, 16)) + s
    n = {k: "n" for k in PLACES}
    n.update({"plugin-api": "m:c", "ns": "n" if place != "static-ns" else s, "label": "l", place: s})
    if place == "ns":
        n["static-ns"] = s
    doc = {"default-priorities": {"namespace": [n["ns"]], "feature": {n["feature-ns"]: [n["feature"]]},
                                  "property": {n["value-ns"]: {n["value-feature"]: [n["value"]]}}},
           "providers": {n["ns"]: {"requires": [n["requires"]] if kind != "project" else [], "plugin-api": n["plugin-api"],
                                   "enable-if": n["enable-if"], "install-time": False}},
           "static-properties": {n["static-ns"]: {n["static-feature"]: [n["static-value"]]}}}
    if kind == "project" and place == "requires":
        doc["providers"]["n"]["requires"] = [s]
        del doc["static-properties"]
    if kind != "project":
        doc["variants"] = {n["label"]: {n["variant-ns"]: {n["variant-feature"]: [n["variant-value"]]}}}
    verdict(S, wrap(doc, kind), kind)


def api(S):
    kind = S.pick("doc", ("project", "index"))
    s = S.strv("s", S.p["lens"], S.p["al"])
    verdict(S, wrap({"default-priorities": {"namespace": ["n"]}, "providers": {"n": {"requires": ["x"], "plugin-api": s}}}, kind), kind)


TEXTS = ("", "x", "X.y-z_1", "not valid !", " x", "x ", "x\ny", "x\n", "x\ty", "x ; nonsense", "x>=", "x >= 1, < 2", "x[", "[]", "#", "-", "x @ ", "\xe9", "x y",
         "os_name == 'x'", "python_version < '3'", "m:c", "m : c", "m.n:c.d", "m:", ":c", "m:c:d")


def texts(S):
    """What is written in the free-text settings of a provider, alone and next to others."""
    kind = S.pick("doc", ("project", "index", "wheel"))
    setting = S.pick("setting", ("requires", "second", "first", "enable-if", "plugin-api"))
    s = S.pick("text", TEXTS)
    d = {"requires": ["x"]}
    if setting == "requires":
        d["requires"] = [s]
    elif setting in ("first", "second"):
        t = S.pick("other", ("x", "X", "y >= 1 ; os_name == 'x'", "not one !", s))
        d["requires"] = [s, t] if setting == "first" else [t, s]
    else:
        d[setting] = s
    doc = {"default-priorities": {"namespace": ["n"]}, "providers": {"n": d}}
    if S.flag("more"):
        doc["providers"]["n2"] = {"requires": ["y", "x", "y"], "enable-if": "os_name == 'x'", "plugin-api": "m:c"}
        doc["default-priorities"]["namespace"].append("n2")
    if kind == "wheel":
        doc["variants"] = {"l": {"n": {"f": ["1"]}}}
    verdict(S, wrap(doc, kind), kind)


def unknown(S):
    """A key that no table has (or that belongs to another table)."""
    kind = S.pick("doc", ("project", "index"))
    doc = {"default-priorities": {"namespace": ["n"], "feature": {"n": ["f"]}, "property": {"n": {"f": ["1"]}}},
           "providers": {"n": {"requires": ["x"], "optional": True}}}
    key = S.pick("key", ("requires", "optional", "enable-if", "plugin-api", "install-time", "namespace", "feature", "property", "provider", "any"))
    if key == "any":
        key = S.strv("key", (1, 2), "abz-")
    value = [["x"], True, "x", {"x": ["x"]}][S.pick("value", range(4))]
    place = S.pick("place", ("default-priorities", "providers"))
    if place == "providers":
        doc["providers"]["n"][key] = value
    else:
        doc["default-priorities"][key] = value
    verdict(S, wrap(doc, kind), kind)


def variants(S):
    p = S.p
    kind = S.pick("doc", ("index", "wheel"))
    doc = {"$schema": "x", "providers": {}}
    if S.flag("given"):
        vs = {}
        for i in range(S.pick("variants", p["vs"])):
            label = S.strv(f"label{i}", p["ll"], p["al"]) if not S.flag(f"null{i}") else "null"
            S.assume(not any(label == x for x in vs))
            v = {}
            for j in range(S.pick(f"shape{i}", p["shape"])):
                ns, f = S.str(f"n{i}.{j}", 1, p["nal"]), S.str(f"f{i}.{j}", 1, p["fal"])
                x = S.str(f"v{i}.{j}", 1, p["val"])
                v.setdefault(ns, {}).setdefault(f, []).append(x)
            if not v and S.flag(f"empty{i}"):
                v = [{"n": {}}, {"n": {"f": []}}][S.flag(f"deeper{i}")]
            vs[label] = v
        doc["variants"] = vs
    verdict(S, doc, kind)


def many(S):
    """Much of one kind, all good, and something at the end."""
    p = S.p
    kind = S.pick("doc", ("project", "index"))
    n = p["many"]
    what = S.pick("what", ("providers", "features", "static", "requires"))
    a, b = S.str("a", 1, p["al"]), S.str("b", 1, p["al"])
    spaces = [f"n{i}" for i in range(n if what == "providers" else 0)]
    feats = [f"f{i}" for i in range(n if what in ("features", "static") else 0)]
    provider = {"install-time": False}
    if what == "requires":
        provider["requires"] = [f"r{i}" for i in range(n)] + [a]
    doc = {"default-priorities": {"namespace": [*spaces, "n"], "feature": {"n": [*feats, a]}},
           "providers": {**{x: {"requires": ["x"]} for x in spaces}, "n": provider}, "static-properties": {"n": {b: ["1"]}}}
    if what == "static":
        doc["static-properties"]["n"] = {**{f: ["1"] for f in feats}, b: [f"v{i}" for i in range(n)]}
    if what == "providers":
        doc["default-priorities"]["namespace"].append(a)
        doc["providers"][b] = {"requires": ["x"]}
    verdict(S, wrap(doc, kind), kind)


def many_variants(S):
    p = S.p
    n = p["many"]
    kind = S.pick("doc", ("index",))
    vs = {f"y{i}": {"n": {"f": [f"v{i}"]}} for i in range(n)}
    v = {"n": {"g": [f"v{i}" for i in range(S.pick("values", (0, 1, n)))]}}
    v["n"]["g"].append(S.str("v", 1, p["val"]))
    if S.flag("more"):
        v["n"]["g"].append(S.str("v2", 1, p["val"]))
    if S.flag("empty"):
        v = {}
    vs[S.str("label", 1, p["al"]) if not S.flag("null") else "null"] = v
    verdict(S, {"providers": {}, "variants": vs}, kind)
