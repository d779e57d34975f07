"""The whole way: make-variant for one or two property sets (and perhaps the null variant),
generate-index-json on the results, get_variants_by_priority on the index and the target's
plugins.  The labels come out as the documented rules say for the original inputs."""
import json

from harness.env import platform
from harness.files import config_files, toml
from harness.plugins import Feature, hosted, isolated, plugin
from harness.resolver import compatible, expected, ranked
from harness.wheels import build, world

FUNCTIONS = ["variantlib.commands.make_variant:", "variantlib.commands.generate_index_json:", "variantlib.api:", "variantlib.pyproject_toml:",
             "variantlib.variant_dist_info:", "variantlib.variants_json:", "variantlib.models.variant_info:", "variantlib.resolver.",
             "variantlib.plugins.loader:", "variantlib.plugins._subprocess:", "variantlib.utils:"]
SHAPES = {
    "quick": [
        dict(name="one", np=1, kinds=("install", "aot"), nf=(1,), nv=(1, 2), wheels=(1,), labels=True, null=True, al="a", fal="f", val="12",
             covers=["offered", "not offered", "null made", "only null"]),
        dict(name="two", np=1, kinds=("install",), nf=(1,), nv=(2,), wheels=(2,), al="a", fal="f", val="12", covers=["offered", "two offered"]),
        dict(name="features", np=1, kinds=("aot",), nf=(2,), nv=(1,), wheels=(2,), al="a", fal="fg", val="1", prio=True, covers=["two offered"]),
        dict(name="providers", np=2, kinds=("install", "aot"), nf=(1,), nv=(1,), wheels=(1, 2), al="ab", fal="f", val="1", covers=["offered", "two offered"]),
        dict(name="preference", np=2, each=("aot", "install"), nf=(1,), nv=(2, 1), wheels=(2,), al="ab", fal="f", val="12", covers=["offered", "two offered"]),
        dict(name="long", np=1, kinds=("install", "aot"), nf=(1,), nv=(1, 2), wheels=(1,), al="a", fal="f", val="12", long=300, short=["label"], covers=["offered", "not offered"]),
        dict(name="many", np=1, kinds=("install", "aot"), nf=(1,), nv=(1,), wheels=(2,), al="a", fal="f", val="12", many=(12, 60), prio=True,
             covers=["two offered", "not offered"]),
        dict(name="prefixes", np=1, kinds=("install", "aot"), nf=(1,), nv=(1, 2), wheels=(1,), al="a", fal="f", val="1", grow=True, covers=["offered", "not offered"]),
    ],
    "thorough": [
        dict(name="one", np=1, kinds=("install", "aot"), nf=(1, 2), nv=(1, 2), wheels=(1,), labels=True, null=True, al="ab", fal="fg", val="123", prio=True,
             covers=["offered", "not offered", "null made", "only null"]),
        dict(name="two", np=1, kinds=("install", "aot"), nf=(1, 2), nv=(1, 2), wheels=(2,), al="a", fal="fg", val="12", prio=True, covers=["offered", "two offered"]),
        dict(name="three", np=1, kinds=("install", "aot"), nf=(1,), nv=(3,), wheels=(3,), al="a", fal="f", val="123", covers=["offered", "two offered"]),
        dict(name="providers", np=2, kinds=("install", "aot"), nf=(1,), nv=(1, 2), wheels=(1, 2), al="ab", fal="f", val="12", covers=["offered", "two offered"]),
    ],
}
CONSTANTS = ["null", "a", "f"]


def scenario(S):
    from variantlib.api import get_variants_by_priority
    from variantlib.commands.generate_index_json import generate_index_json
    from variantlib.commands.make_variant import make_variant
    from variantlib.models.variant import VariantDescription, VariantProperty

    p = S.p
    # providers and what their plugins say where the wheels are built and on the target
    spaces, providers, built, target, answers = [], {}, {}, {}, []
    for i in range(p["np"]):
        ns = S.str(f"ns{i}", 1, p["al"])
        S.assume(S.And(*[S.Not(S.eq(ns, x)) for x in spaces]))
        spaces.append(ns)
        aot = (S.pick(f"kind{i}", p["kinds"]) if "kinds" in p else p["each"][i]) == "aot"
        feats, here = [], []
        for j in range(S.pick(f"nf{i}", p["nf"])):
            f = S.str(f"f{i}.{j}", 1, p["fal"])
            S.assume(S.And(*[S.Not(S.eq(f, g)) for g, _ in feats]))
            vs = []
            for k in range(S.pick(f"nv{i}.{j}", p["nv"] if "kinds" in p else (p["nv"][i],))):
                v = S.str(f"v{i}.{j}.{k}", 1, p["val"])
                S.assume(S.And(*[S.Not(S.eq(v, x)) for x in vs]))
                vs.append(v)
            vs += [f"y{k}" for k in range(S.pick("many", p["many"]))] if p.get("many") else []
            feats.append((f, vs))
            sup = [v for k, v in enumerate(vs) if aot or (p.get("many") and 0 < k < len(vs) - 1) or S.flag(f"has{i}.{j}.{k}")]
            if sup:
                here.append((f, sup))
        providers[ns] = {"requires": ["plug"], "plugin-api": f"m{i}", **({"install-time": False} if aot else {})}
        full = [Feature(f, list(vs)) for f, vs in feats]
        built[f"m{i}"] = plugin(ns, full, aot=aot)
        if not aot:
            target[f"m{i}"] = plugin(ns, [Feature(f, list(vs)) for f, vs in here], full, aot=aot)
        answers.append((ns, feats, here, aot))
    order = S.perm("order", spaces)
    prio = {"namespace": list(order)}
    feat = {}
    if p.get("prio") and len(answers[0][1]) == 2 and S.flag("prefer second feature"):
        feat = {spaces[0]: [answers[0][1][1][0]]}
        prio["feature"] = {k: list(v) for k, v in feat.items()}
    doc = {"project": {"name": "x"}, "variant": {"default-priorities": prio, "providers": providers}}
    with world(S) as w:
        for d in ("w/s", "w/d"):
            w.dir(d)
        entries, _ = build(S, {"files": (1,), "which": [[0]], "dl": (0,)})
        w.zip("w/s/x-1-py3-none-any.whl", entries)
        w.file("w/pyproject.toml", toml(doc, not w.real))
        made = []
        # the wheels
        for i in range(S.pick("wheels", p["wheels"])):
            props = []
            for m, (ns, feats, _, _) in enumerate(answers):
                for j, (f, vs) in enumerate(feats):
                    k = S.pick(f"w{i}.{m}.{j}", range(len(vs) + 1) if len(vs) < 9 else (0, 1, 2, len(vs) - 1, len(vs)))
                    if k:
                        props.append(VariantProperty(ns, f, vs[k - 1]))
            S.assume(len(props) > 0)
            if any(aot and not any(q.namespace is ns for q in props) for ns, _, _, aot in answers):
                # known finding W02-unused-aot-plugin
                S.assume(False)
            S.assume(S.And(*[S.Not(S.eq(VariantDescription(props), VariantDescription(o))) for o, _ in made]))
            label = f"l{i}" if p.get("labels") and S.flag(f"label{i}") else None
            args = ["-f", "w/s/x-1-py3-none-any.whl", "-o", "w/d", "--pyproject-toml", "w/pyproject.toml", "-p", *[q.to_str() for q in props]]
            if label:
                args += ["--variant-label", label]
            with hosted({}) as host, isolated(host, built):
                r, _ = w.run(make_variant, args)
            S.check(r.ok, "made", f"{r!r} for {args!r} with {answers!r}")
            made.append((props, label or VariantDescription(props).hexdigest))
        null = p.get("null") and not any(aot for *_, aot in answers) and S.flag("null wheel")
        if null:
            with hosted({}) as host, isolated(host, built):
                r, _ = w.run(make_variant, ["-f", "w/s/x-1-py3-none-any.whl", "-o", "w/d", "--pyproject-toml", "w/pyproject.toml", "--null-variant"])
            S.check(r.ok, "null made", f"{r!r}")
            S.cover("null made")
        # the index
        r, _ = w.run(generate_index_json, ["-d", "w/d"])
        S.check(r.ok, "indexed", f"{r!r}")
        data = w.read("w/d/x-1-variants.json")
        S.check(data is not None, "index written")
    # the choice
    with hosted(target), platform(), config_files({}):
        r = S.call(get_variants_by_priority, variants_json=json.loads(data))
    S.observe("resolved", r.ok)
    S.check(r.ok, "resolves", f"{r!r} for {data!r}")
    flat = [VariantProperty(ns, f, v) for n in order for ns, _, here, _ in answers if n is ns for f, vs in here for v in vs]
    ordered = expected(S, flat, list(order), feat, {})
    offered = [(VariantDescription(q), label) for q, label in made if S.decide(compatible(S, VariantDescription(q), flat))]
    rank = ranked(S, [d for d, _ in offered], ordered)
    want = [next(label for e, label in offered if e is d) for d in rank] + ["null"]
    S.check(S.eq(list(r.value), want), "labels", f"{r.value!r} instead of {want!r} for {answers!r}")
    S.observe("offered", [i for d in rank for i, (q, _) in enumerate(made) if S.decide(S.eq(VariantDescription(q), d))])
    S.cover("only null" if len(want) == 1 else "offered" if len(want) == 2 else "two offered")
    if len(offered) < len(made):
        S.cover("not offered")
