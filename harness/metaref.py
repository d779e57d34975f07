"""The documented rules for variant metadata documents, as a reference reader: it says for any
JSON-shaped value whether it is acceptable and, if so, what it states."""

NAME = "abcdefghijklmnopqrstuvwxyz0123456789_"
VALUE = NAME + "."
LABEL = NAME.replace("_", "") + "._"
WORD = "".join(chr(i) for i in range(0x800) if chr(i).isalnum() or chr(i) in "_.")
# no line breaks or other whitespace but the space character
FREE = "".join(chr(i) for i in range(0x800) if i == 32 or not chr(i).isspace())
SETTINGS = ("requires", "optional", "plugin-api", "enable-if", "install-time")


class Bad(Exception):
    def __init__(self, why):
        self.why = why


def need(f, why):
    if not f:
        raise Bad(why)


class Ref:
    def __init__(self, S):
        self.S = S

    def name(self, s, al=NAME, why="name"):
        need(isinstance(s, str), "type")
        need(len(s) > 0, why)
        need(self.S.decide(self.S.all_in(s, al)), why)

    def names(self, v, al=NAME, why="name"):
        need(isinstance(v, list), "type")
        for s in v:
            self.name(s, al, why)
        return v

    def table(self, v, keys=None):
        need(isinstance(v, dict), "type")
        if keys is not None:
            for k in v:
                need(any(k == x for x in keys), "unknown key")
        return v

    def nested(self, v):
        """namespace -> feature -> values."""
        out = {}
        for ns, feats in self.table(v).items():
            self.name(ns)
            for f, values in self.table(feats).items():
                self.name(f)
                self.names(values, VALUE, "value")
                out.setdefault(ns, {})[f] = values
        return out

    def reference(self, s):
        need(isinstance(s, str), "type")
        parts = s.split(":")
        need(len(parts) <= 2, "plugin-api")
        if len(parts) == 2:
            parts = [parts[0].rstrip(), parts[1].lstrip()]
        for x in parts:
            self.name(x, WORD, "plugin-api")
        return s

    def common(self, doc, expected):
        doc = self.table(doc)
        prio = self.table(doc.get("default-priorities", {}), ("namespace", "feature", "property"))
        order = self.names(prio.get("namespace", []))
        features = self.table(prio.get("feature", {}))
        for ns, fs in features.items():
            self.name(ns)
            self.names(fs)
        values = self.nested(prio.get("property", {}))
        providers = {}
        for ns, d in self.table(doc.get("providers", {})).items():
            self.name(ns)
            self.table(d, SETTINGS)
            requires = self.names(d.get("requires", []), FREE, "requires")
            optional, install = d.get("optional", False), d.get("install-time", True)
            need(isinstance(optional, bool) and isinstance(install, bool), "type")
            api = self.reference(d["plugin-api"]) if "plugin-api" in d else None
            marker = None
            if "enable-if" in d:
                marker = d["enable-if"]
                self.name(marker, FREE, "enable-if")
            need(requires or not install, "no requires")
            providers[ns] = (api, marker, install, optional, requires)
        static = self.nested(doc.get("static-properties", {}))
        for ns, fs in static.items():
            if len(fs) > 1:
                for f in fs:
                    need(any(f == g for g in features.get(ns, [])), "static priorities")
        for a, b in ((order, providers), (providers, order)):
            for ns in a:
                need(any(ns == x for x in b), "priorities and providers")
        aot = [ns for ns, x in providers.items() if not x[2] and (expected == "all" or not x[4])]
        for a, b in ((aot, static), (static, aot)):
            for ns in a:
                need(any(ns == x for x in b), "static properties")
        return {"namespace_priorities": order, "feature_priorities": features, "property_priorities": values,
                "providers": providers, "static_properties": static}

    def variants(self, doc):
        need("variants" in doc, "no variants")
        out = []
        for label, v in self.table(doc["variants"]).items():
            self.name(label, LABEL, "label")
            need(len(label) <= 16, "label")
            triples = []
            for ns, feats in self.table(v).items():
                for f, values in self.table(feats).items():
                    for x in self.names(values, VALUE, "value"):
                        self.name(ns)
                        self.name(f)
                        need(not any(x == c and f == b and ns == a for a, b, c in triples), "duplicate")
                        triples.append((ns, f, x))
            null = label == "null"
            need(bool(null) == (not triples), "null")
            out.append((label, triples))
        return out


def accepts(S, doc, kind):
    """(reason it is refused, None) or (None, (fields, variants))."""
    r = Ref(S)
    try:
        if kind == "project":
            table = r.table(r.table(doc).get("variant", {}))
            return None, (r.common(table, "no plugin"), None)
        fields = r.common(doc, "all")
        vs = r.variants(doc)
        need(kind != "wheel" or len(vs) == 1, "count")
        return None, (fields, vs)
    except Bad as e:
        return e.why, None


def read(S, doc, kind):
    """The product's reader on this document."""
    import json

    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    if kind == "project":
        return S.call(VariantPyProjectToml, doc)
    if kind == "wheel":
        return S.call(VariantDistInfo, json.dumps(doc))
    return S.call(VariantsJson, json.loads(json.dumps(doc)))


def states(S, x, said):
    """The object says what the document says."""
    fields, vs = said
    from harness.metadata import same

    fs = [same(S, x, fields)]
    if vs is not None:
        got = list(x.variants.items())
        fs.append(len(got) == len(vs))
        fs += [S.Or(*[S.And(S.eq(k, label), len(d.properties) == len(triples), *[S.Or(*[S.And(
            S.eq(a, q.namespace), S.eq(b, q.feature), S.eq(c, q.value)) for q in d.properties]) for a, b, c in triples])
            for k, d in got]) for label, triples in vs]
    return S.And(*fs)


def verdict(S, doc, kind, only=None):
    """Reads the document and compares with the reference."""
    from variantlib.errors import ValidationError

    why, said = accepts(S, doc, kind)
    S.cover(why or "accepted")
    r = read(S, doc, kind)
    S.observe("result", r)
    if why is not None:
        S.check(r.refused(ValidationError), why, ("accepted" if r.ok else f"{r!r}") + f" for {kind} {doc!r}")
        return
    S.check(r.ok, "accept", f"{r!r} for {kind} {doc!r}")
    S.check(states(S, r.value, said), "faithful", f"{r.value!r} for {kind} {doc!r}")
