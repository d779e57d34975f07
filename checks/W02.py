"""make-variant on wheels, project tables, property lists and plugin answers of the listed shapes."""
import base64
import hashlib
import json

from harness.files import toml
from harness.metadata import common, names, nested, same_variant, variant
from harness.metaref import accepts
from harness.plugins import Feature, hosted, isolated, plugin
from harness.wheels import META, RECORD, blanks, build, lines, records, same_entries, same_rows, same_triples, world

FUNCTIONS = ["variantlib.commands.make_variant:", "variantlib.api:", "variantlib.pyproject_toml:", "variantlib.variant_dist_info:",
             "variantlib.variants_json:", "variantlib.constants:"]
LABEL = "abcdefghijklmnopqrstuvwxyz0123456789._"
SHAPES = {
    "quick": [
        dict(name="wheel", files=(1,), modes=(0o644, 0o755), dl=(0, 2), after=(0, 1), meta_at=(0, 1), meta_row=(0, 1), had=(0, 1, 2), n=(0, 1),
             np=(0,), nal="a", fal="f", val="1", covers=["made", "replaced"]),
        dict(name="records", files=(1,), which=[[0, 12]], dl=(1,), had=(0, 1), meta_row=(0, 1), eol=("\n", "\r\n"), tail=("", "none", "blank"),
             quote=(False, True), n=(1,), np=(0,), nal="a", fal="f", val="v", covers=["made", "replaced"]),
        dict(name="names", files=(0,), n=(0, 1), np=(0,), nal="a", fal="f", val="1", label=True, ll=(1, 2), lal="x-.", inl=(1,), inal="x", covers=["made", "refused"]),
        dict(name="long", files=(0,), n=(1,), np=(0,), nal="a", fal="f", val="1", label=True, ll=(16, 17), lal="x", inl=(1,), inal="x", covers=["made", "refused"]),
        dict(name="same-place", files=(0,), n=(1,), np=(0,), nal="a", fal="f", val="1", label=True, had=(1,), ll=(1,), lal="xy", inl=(1,), inal="xy", inplace=True,
             covers=["made", "in place"]),
        dict(name="project", files=(0,), np=(0, 1), kinds=("install", "static"), settings=True, req=(0, 1), fp=(0, 1), pp=(0, 1), n=(0, 1),
             nal="ab", fal="fg", val="1", covers=["made"]),
        dict(name="broken-project", files=(0,), broken=True, n=(0,), covers=["refused"]),
        dict(name="plugins", files=(0,), plugins=True, np=(1,), kinds=("install", "aot"), req=(0, 1), fp=(0,), pp=(0,), n=(1, 2), nf=(1,), nv=(1, 2),
             nal="ab", fal="f", val="12", covers=["made", "invalid", "unknown", "multi", "isolated", "installed"]),
        dict(name="wide", files=(0,), n=(2,), np=(1,), kinds=("static",), req=(1,), fp=(0, 1), pp=(0, 1), nal="ab", fal="f", val="1", long=300, short=["label"], covers=["made"]),
        dict(name="installers", files=(0,), plugins=True, installers=True, np=(1,), kinds=("install",), req=(1,), fp=(0,), pp=(0,), n=(1,), nf=(1,), nv=(1,),
             nal="a", fal="f", val="12", covers=["made", "invalid", "isolated", "installed"]),
        dict(name="big", files=(1,), which=[[0]], dl=(1,), long=1100000, only=["data"], n=(1,), np=(0,), nal="a", fal="f", val="1", covers=["made"]),
        dict(name="texts", files=(0,), np=(1,), kinds=("install",), settings=True, free="a\xe9", tl=(1, 2), req=(1,), fp=(0,), pp=(0,), n=(0,), nal="a", covers=["made"]),
        dict(name="spellings", files=(0,), n=(0, 1), np=(0,), nal="a", fal="f", val="1", label=True, ll=(1,), lal="xX", inl=(1,), inal="x", projects=("X-1", "x_Y-1.0+l", "x.y-1"),
             covers=["made", "refused"]),
        dict(name="prefixes", files=(0,), n=(1, 2), np=(1,), kinds=("static",), req=(1,), fp=(1,), pp=(0,), nal="a", fal="f", val="1", grow=True, covers=["made"]),
    ],
    "thorough": [
        dict(name="wheel", files=(0, 1, 2), modes=(0o644, 0o755), dl=(0, 2), after=(0, 1), meta_at=(0, 1), meta_row=(0, 1), had=(0, 1, 2), n=(0, 1),
             np=(0,), nal="a", fal="f", val="1", covers=["made", "replaced"]),
        dict(name="records", files=(2,), dl=(1,), had=(0, 1), meta_row=(0, 1), eol=("\n", "\r\n"), tail=("", "none", "blank"),
             quote=(False, True), n=(1,), np=(0,), nal="a", fal="f", val="v", covers=["made", "replaced"]),
        dict(name="names", files=(0,), n=(0, 1), np=(0,), nal="a", fal="f", val="1", label=True, ll=(0, 1, 2, 3), lal="x-.1", inl=(1, 2), inal="x1", covers=["made", "refused"]),
        dict(name="null-like", files=(0,), n=(0, 1), np=(0,), nal="a", fal="f", val="1", label=True, ll=(4,), lal="nul", inl=(1,), inal="x", covers=["made", "refused"]),
        dict(name="long", files=(0,), n=(1,), np=(0,), nal="a", fal="f", val="1", label=True, ll=(15, 16, 17), lal="xy", inl=(1,), inal="x", covers=["made", "refused"]),
        dict(name="same-place", files=(0, 1), n=(0, 1), np=(0,), nal="a", fal="f", val="1", label=True, had=(0, 1, 2), ll=(1, 2), lal="xy", inl=(1, 2), inal="xy", inplace=True,
             covers=["made", "in place"]),
        dict(name="project", files=(0,), np=(0, 1, 2), kinds=("install", "static"), settings=True, req=(0, 1), fp=(0, 1), pp=(0, 1), n=(0, 1),
             nal="ab", fal="fg", val="1", covers=["made"]),
        dict(name="broken-project", files=(0,), broken=True, n=(0, 1), nal="a", fal="f", val="1", covers=["refused"]),
        dict(name="plugins", files=(0,), plugins=True, np=(1, 2), kinds=("install", "aot"), req=(0, 1), fp=(0,), pp=(0,), n=(1, 2), nf=(1, 2), nv=(1, 2),
             nal="ab", fal="fg", val="12", covers=["made", "invalid", "unknown", "multi", "isolated", "installed"]),
    ],
}
CONSTANTS = ["null", "f", "g"]
BROKEN = (b"[variant", b"variant = 1\n", b"[variant.providers.a]\n", b"[variant.default-priorities]\nnamespace = ['a']\n", None)


def scenario(S):
    from variantlib.commands.make_variant import make_variant

    p = S.p
    with world(S) as w:
        for d in ("w/in", "w/out"):
            w.dir(d)
        had = S.pick("had", p.get("had", (0,)))
        entries, rows = build(S, p, meta=json.dumps({"any": S.str("any", 1, "ab")}) if had else None, listed=had == 1)
        base = S.pick("project", p.get("projects", ("x-1",))) + ("-1a" if p.get("label") and S.flag("build") else "") + "-py3-none-any"
        old = S.strv("old", p["inl"], p["inal"]) if p.get("label") and S.flag("was-variant") else None
        src = "w/in/" + base + ("-" + old if old is not None else "") + ".whl"
        w.zip(src, entries)
        outdir = "w/in" if p.get("inplace") and S.flag("in-place") else "w/out"
        fields = {"namespace_priorities": [], "feature_priorities": {}, "property_priorities": {}, "providers": {}, "static_properties": {}}
        if p.get("broken"):
            text = BROKEN[S.pick("broken", range(len(BROKEN)))]
            if text is not None:
                w.file("w/pyproject.toml", text)
        else:
            doc, fields = common(S, p)
            modules = hosts(S, doc, fields) if p.get("plugins") else {}
            w.file("w/pyproject.toml", toml({"variant": doc, "project": {"name": "x"}} if doc else {}))
        n = S.pick("n", p["n"])
        props = variant(S, "p", n, p)
        args = ["-f", src, "-o", outdir, "--pyproject-toml", "w/pyproject.toml"]
        args += ["-p", *[q.to_str() for q in props]] if n else ["--null-variant"]
        label = S.strv("label", p["ll"], p["lal"]) if p.get("label") and S.flag("with-label") else None
        if label is not None:
            # (a value that begins with "-" needs the other spelling)
            S.assume(S.Not(S.And(len(label) > 0, S.eq(label[:1], "-"))))
            args += ["--variant-label", label]
        before = w.all()
        refused, env = None, None
        if p.get("plugins"):
            isolation, skip, fails = S.pick("mode", ((True, False, False), (False, False, False), (True, True, False), (True, False, True)))
            if not isolation:
                args.append("--no-isolation")
            if skip:
                args.append("--skip-plugin-validation")
            installer = S.pick("installer", (None, "pip", "uv")) if p.get("installers") else None
            if installer:
                args += ["--installer", installer]
            here = modules["host"] if not isolation or skip else {}
            with hosted(here) as host, isolated(host, modules["venv"], fails) as env:
                r, out = w.run(make_variant, args)
            refused, fields = judge(S, fields, props, modules["table"], "venv" if isolation and not skip else "host", skip, fails and bool(n))
            if isolation and not skip:
                S.cover("isolated")
                want = [q for ns, x in fields["providers"].items() for q in x[4] if S.decide(S.Or(*[S.eq(ns, y.namespace) for y in props]))]
                if refused is None:
                    S.cover("installed")
                    S.check(installer in (None, env.installer) if env.installed else True, "installer", f"{env.installer!r} instead of {installer!r}")
                    S.check(S.And(*[q in env.installed for q in want], *[q in want for q in env.installed]), "installed",
                            f"{env.installed!r} instead of {want!r}")
            else:
                S.check(env.entered == 0 and not env.installed, "no isolation")
        else:
            args.append("--skip-plugin-validation")
            r, out = w.run(make_variant, args)
        S.observe("result", r)
        if p.get("broken"):
            refused = "project"
        if label is not None and (not n or not S.decide(S.And(0 < len(label) <= 16, S.all_in(label, LABEL))) or S.decide(S.eq(label, "null"))):
            refused = "label"
        if refused is not None:
            S.cover("refused" if not p.get("plugins") else refused)
            S.check(not r.ok, refused, f"accepted with {args!r}")
            S.check(w.unchanged(before), "refused, nothing written", f"{[t for t, _ in w.all()]!r} after {r!r}")
            return
        if label is None:
            label = "null" if not n else hash_label(props)
        dst = outdir + "/" + base + "-" + label + ".whl"
        if S.decide(S.eq(dst, src)):
            S.cover("in place")
            if not r.ok:
                S.check(w.unchanged(before), "in place: input kept", f"{r!r}")
                return
        S.check(r.ok, "runs", f"{r!r} for {args!r}")
        S.cover("made")
        if had:
            S.cover("replaced")
        got = w.unzip(dst)
        S.check(got is not None, "output", f"no {dst!r}")
        S.check(w.unchanged(before, [dst]), "only the output")
        S.check(same_entries(S, got, entries, [META, RECORD]), "files", f"{got!r} from {entries!r}")
        S.check(S.eq([e[0] for e in got if e[0] != META], [e[0] for e in entries if e[0] != META]), "order")
        meta = [e[1] for e in got if e[0] == META]
        S.check(len(meta) == 1, "one metadata file")
        data = json.loads(meta[0])
        why, said = accepts(S, data, "wheel")
        unused = [ns for ns, x in fields["providers"].items() if not x[2] and x[4] and not S.decide(S.Or(*[S.eq(ns, q.namespace) for q in props]))]
        S.check(why is None, "valid metadata", f"{why} in {data!r}", finding=("W02-unused-aot-plugin", unused != []))
        S.check(len(said[1]) == 1 and S.decide(S.eq(said[1][0][0], label)), "label", f"{said[1]!r}")
        S.check(same_triples(S, said[1][0][1], props), "properties", f"{said[1]!r} for {props!r}")
        S.check(S.eq({k: list(v) if k == "namespace_priorities" else v for k, v in said[0].items()}, fields), "project data", f"{said[0]!r} instead of {fields!r}")
        rec = [e[1] for e in got if e[0] == RECORD]
        S.check(len(rec) == 1, "record list")
        found = records(rec[0])
        mine = [x for x in found if x[0] == META]
        S.check(len(mine) == 1, "one record", f"{found!r}")
        digest = base64.urlsafe_b64encode(hashlib.sha256(meta[0]).digest()).rstrip(b"=").decode()
        S.check(S.eq(mine[0], [META, "sha256=" + digest, str(len(meta[0]))]), "true record", f"{mine!r}")
        S.check(blanks(rec[0]) <= sum(blanks(e[1]) for e in entries if e[0] == RECORD), "empty records", f"{rec[0]!r}")
        old = next(e[1] for e in entries if e[0] == RECORD)
        S.check(S.eq(lines(rec[0], META), lines(old, META)), "record lines", f"{rec[0]!r} from {old!r}")
        S.check(same_rows(S, [x for x in found if x[0] != META], [x for x in rows if x[0] != META]), "records", f"{found!r} instead of {rows!r}")


def hash_label(props):
    from variantlib.models.variant import VariantDescription

    return VariantDescription(list(props)).hexdigest


def hosts(S, doc, fields):
    """Plugins for the providers, with different answers in the two environments."""
    p = S.p
    modules = {"host": {}, "venv": {}, "table": {}}
    for i, (ns, (api, marker, install, optional, requires)) in enumerate(list(fields["providers"].items())):
        if not requires:
            continue
        doc["providers"][ns]["plugin-api"] = f"m{i}"
        fields["providers"][ns] = (f"m{i}", marker, install, optional, requires)
        for where in ("host", "venv"):
            feats = [(f, names(S, f"{where}{i}.{f}", S.pick(f"nv{i}.{f}.{where}", p["nv"]) if where == "venv" else 1, (1,), p["val"]), j)
                     for j, f in enumerate(p["fal"][:S.pick(f"nf{i}.{where}", p["nf"]) if where == "venv" else 1])]
            multi = S.flag(f"multi{i}")  if where == "venv" else False
            modules[where][f"m{i}"] = plugin(ns, [Feature(f, list(v), multi and j == 0) for f, v, j in feats], aot=True)
            modules["table"][i, where] = [(f, v, multi and j == 0) for f, v, j in feats]
    return modules


def judge(S, fields, props, table, where, skip, fails):
    """(why it must be refused, the fields that must be written)."""
    static = {k: dict(v) for k, v in fields["static_properties"].items()}
    prios = dict(fields["feature_priorities"])
    problem = "install" if fails else None
    for i, (ns, (_, _, install, _, requires)) in enumerate(fields["providers"].items()):
        mine = [q for q in props if S.decide(S.eq(q.namespace, ns))]
        if not mine or not requires:
            continue
        feats = table[i, where]
        if not skip:
            for q in mine:
                if not any(S.decide(S.And(S.eq(q.feature, f), S.Or(*[S.eq(q.value, v) for v in vs]))) for f, vs, _ in feats):
                    problem = problem or "invalid"
            for f, vs, multi in feats:
                if not multi and sum(1 for q in mine if S.decide(S.eq(q.feature, f))) > 1:
                    problem = problem or "multi"
        if not install:
            if any(multi for _, _, multi in feats):
                problem = problem or "multi"
            for q in mine:
                if not any(S.decide(S.And(S.eq(q.feature, f), S.Or(*[S.eq(q.value, v) for v in vs]))) for f, vs, _ in feats):
                    problem = problem or "invalid"
            static[ns] = {f: list(vs) for f, vs, _ in feats}
            if len(feats) > 1:
                prios[ns] = prios.get(ns, []) + [f for f, _, _ in feats if f not in prios.get(ns, [])]
    if not skip and not all(any(S.decide(S.eq(q.namespace, ns)) for ns, x in fields["providers"].items() if x[4]) for q in props):
        problem = problem or "unknown"
    return problem, {**fields, "static_properties": static, "feature_priorities": prios}
