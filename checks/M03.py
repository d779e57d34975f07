"""A wrong value anywhere in a metadata document: refused with a validation error, or accepted
only when the documented rules allow it.  One or two places of a full document hold any value
of a grammar of JSON values."""
from harness.metaref import verdict

FUNCTIONS = ["variantlib.models.variant_info:VariantInfo._process_common", "variantlib.validators.", "variantlib.variants_json:VariantsJson._process",
             "variantlib.pyproject_toml:", "variantlib.variant_dist_info:", "variantlib.models.variant:VariantDescription.from_dict"]
SHAPES = {
    "quick": [
        dict(name="one", kinds=("project", "index", "wheel"), depth=2, covers=["type", "accepted", "name"]),
        dict(name="two", kinds=("index",), depth=0, second=True, covers=["type"]),
    ],
    "thorough": [
        dict(name="one", kinds=("project", "index", "wheel"), depth=3, covers=["type", "accepted", "name"]),
        dict(name="two", kinds=("index",), depth=1, second=True, covers=["type"]),
    ],
}
PLACES = ((), ("default-priorities",), ("default-priorities", "namespace"), ("default-priorities", "namespace", 0),
          ("default-priorities", "feature"), ("default-priorities", "feature", "n"), ("default-priorities", "feature", "n", 0),
          ("default-priorities", "property"), ("default-priorities", "property", "n"), ("default-priorities", "property", "n", "f"),
          ("default-priorities", "property", "n", "f", 0),
          ("providers",), ("providers", "n"), ("providers", "n", "requires"), ("providers", "n", "requires", 0), ("providers", "n", "optional"),
          ("providers", "n", "plugin-api"), ("providers", "n", "enable-if"), ("providers", "n", "install-time"),
          ("static-properties",), ("static-properties", "n"), ("static-properties", "n", "f"), ("static-properties", "n", "f", 0),
          ("variants",), ("variants", "l"), ("variants", "l", "n"), ("variants", "l", "n", "f"), ("variants", "l", "n", "f", 0), ("$schema",))
CONSTANTS = ["null", "n", "f", "1", "l", "x"]


def value(S, name, depth):
    """Any JSON value of the grammar."""
    kind = S.pick(name, ("null", "true", "false", "int", "zero", "float", "string", "empty string", "list", "table")[:10 if depth else 8])
    if kind in ("null", "true", "false"):
        return {"null": None, "true": True, "false": False}[kind]
    if kind in ("int", "zero", "float"):
        return {"int": 3, "zero": 0, "float": 1.5}[kind]
    if kind == "string":
        return S.str(name + ".s", 1, "nf ")
    if kind == "empty string":
        return ""
    if kind == "list":
        return [value(S, f"{name}.{i}", depth - 1) for i in range(S.pick(name + ".len", (0, 1)))]
    if not S.flag(name + ".filled"):
        return {}
    return {S.str(name + ".k", 1, "nf "): value(S, name + ".v", depth - 1)}


def document(kind):
    doc = {"default-priorities": {"namespace": ["n"], "feature": {"n": ["f"]}, "property": {"n": {"f": ["1"]}}},
           "providers": {"n": {"requires": [] if kind == "project" else ["x", "y >= 1"], "optional": False, "plugin-api": "m:c", "enable-if": "x",
                               "install-time": False}},
           "static-properties": {"n": {"f": ["1"]}}}
    if kind != "project":
        doc["variants"] = {"l": {"n": {"f": ["1"]}}}
        doc["$schema"] = "x"
    return doc


def put(doc, place, v):
    if not place:
        return v
    d = doc
    for k in place[:-1]:
        d = d[k]
    if isinstance(d, list) and not d:
        d.append(v)
    else:
        d[place[-1]] = v
    return doc


def scenario(S):
    p = S.p
    kind = S.pick("kind", p["kinds"])
    i = S.pick("place", range(len(PLACES)))
    S.assume(kind != "project" or PLACES[i][:1] not in (("variants",), ("$schema",)))
    doc = document(kind)
    if p.get("second"):
        j = S.pick("place2", range(len(PLACES)))
        S.assume(i < j and PLACES[j][:len(PLACES[i])] != PLACES[i])
        doc = put(doc, PLACES[j], value(S, "w", p["depth"]))
    doc = put(doc, PLACES[i], value(S, "v", p["depth"]))
    if kind == "project" and (PLACES[i] or S.flag("inside")):
        doc = {"variant": doc}
    if kind == "project":
        S.assume(isinstance(doc, dict))
    verdict(S, doc, kind)
