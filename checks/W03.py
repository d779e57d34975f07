"""unmake-variant: on every wheel of the listed shapes, and after make-variant."""
import json

from harness.wheels import META, RECORD, build, records, same_entries, same_rows, without, world

FUNCTIONS = ["variantlib.commands.unmake_variant:", "variantlib.commands.make_variant:_make_variant", "variantlib.constants:"]
LABEL = "abcdefghijklmnopqrstuvwxyz0123456789._"
SHAPES = {
    "quick": [
        dict(name="unmake", files=(1,), modes=(0o644, 0o755), dl=(0, 2), labels=(1,), lal="xn", meta_at=(0, 1), meta_row=(0, 1), after=(0, 1),
             covers=["unmade", "unlisted"]),
        dict(name="records", files=(2,), which=[[0], [12]], dl=(1,), labels=(1,), lal="x", meta_row=(0, 1), eol=("\n", "\r\n"), tail=("", "none", "blank"),
             quote=(False, True), covers=["unmade", "unlisted"]),
        dict(name="names", plain=True, files=(0, 1), which=[[0]], dl=(1,), labels=(1, 2), lal="x1.-", builds=True,
             covers=["plain", "unmade", "refused"]),
        dict(name="lengths", plain=True, files=(0,), labels=(16, 17), lal="x", builds=True, covers=["plain", "unmade", "refused"]),
        dict(name="missing", missing=True, files=(0,), labels=(1,), lal="x", covers=["missing"]),
        dict(name="roundtrip", roundtrip=True, files=(1,), modes=(0o644, 0o755), dl=(0, 2), after=(0, 1), n=(0, 1), al="ab", covers=["back"]),
        dict(name="roundtrip-records", roundtrip=True, files=(1,), which=[[0, 12]], dl=(1,), n=(1,), al="a", eol=("\n", "\r\n"), tail=("", "none", "blank"),
             covers=["back"]),
        dict(name="big", files=(1,), which=[[0]], dl=(1,), long=1100000, only=["data"], labels=(1,), lal="x", covers=["unmade"]),
        dict(name="spellings", files=(0,), labels=(1,), lal="xX", builds=True, plain=True, projects=("X-1", "x_Y-1.0+l", "x.y-1"), covers=["unmade", "plain", "refused"]),
    ],
    "thorough": [
        dict(name="unmake", files=(0, 1, 2), modes=(0o644, 0o755), dl=(0, 1, 2), labels=(1, 2), lal="xn", meta_at=(0, 1), meta_row=(0, 1), after=(0, 1),
             covers=["unmade", "unlisted"]),
        dict(name="records", files=(2,), dl=(1,), labels=(1,), lal="x", meta_row=(0, 1), eol=("\n", "\r\n"), tail=("", "none", "blank"),
             quote=(False, True), covers=["unmade", "unlisted"]),
        dict(name="names", plain=True, files=(0, 1), which=[[0]], dl=(1,), labels=(1, 2, 3), lal="x1._-", builds=True,
             covers=["plain", "unmade", "refused"]),
        dict(name="lengths", plain=True, files=(0,), labels=(15, 16, 17), lal="x1", builds=True, covers=["plain", "unmade", "refused"]),
        dict(name="missing", missing=True, files=(0,), labels=(1,), lal="x", covers=["missing"]),
        dict(name="roundtrip", roundtrip=True, files=(0, 1, 2), modes=(0o644, 0o755), dl=(0, 2), after=(0, 1), n=(0, 1, 2), al="ab", covers=["back"]),
        dict(name="roundtrip-records", roundtrip=True, files=(2,), dl=(1,), n=(0, 1), al="a", eol=("\n", "\r\n"), tail=("", "none", "blank"),
             covers=["back"]),
    ],
}


def scenario(S):
    from variantlib.commands.unmake_variant import unmake_variant

    p = S.p
    with world(S) as w:
        for d in ("w/in", "w/out"):
            w.dir(d)
        if p.get("missing"):
            return missing(S, w)
        if p.get("roundtrip"):
            return roundtrip(S, w)
        listed = S.flag("listed")
        entries, rows = build(S, p, meta=json.dumps({"any": S.str("any", 1, "ab")}), listed=listed)
        base = S.pick("project", p.get("projects", ("x-1",))) + ("-1a" if p.get("builds") and S.flag("build") else "") + "-py3-none-any"
        label = S.strv("label", p["labels"], p["lal"]) if not p.get("plain") or S.flag("variant") else None
        name = base + ("-" + label if label is not None else "") + ".whl"
        src = "w/in/" + name
        w.zip(src, entries)
        dst = "w/out/" + base + ".whl"
        if S.flag("exists"):
            w.file(dst, b"old")
        before = w.all()
        r, out = w.run(unmake_variant, ["-f", src, "-o", "w/out"])
        S.observe("result", r)
        if label is not None and not S.decide(S.And(len(label) <= 16, S.all_in(label, LABEL))):
            # (another split of the name could make it valid)
            S.cover("refused")
            S.check(not r.ok and r.exc is not None, "refused", f"{name!r} is accepted")
            S.check(w.unchanged(before), "refused, nothing written")
            return
        S.check(r.ok, "runs", f"{r!r} for {name!r} with {entries!r}")
        if label is None:
            S.cover("plain")
            S.check(w.unchanged(before), "plain wheel left alone")
            return
        S.cover("unmade" if listed else "unlisted")
        got = w.unzip(dst)
        S.check(w.unchanged(before, [dst]), "only the output")
        S.check(got is not None, "output")
        S.check(same_entries(S, got, entries, [META, RECORD]), "files", f"{got!r} from {entries!r}")
        S.check(sum(1 for e in got if e[0] == META) == 0, "metadata removed")
        order = [e[0] for e in got]
        S.check(S.eq(order, [e[0] for e in entries if e[0] != META]), "order", f"{order!r}")
        rec = [e for e in got if e[0] == RECORD]
        S.check(len(rec) == 1, "record list")
        want = [x for x in rows if x[0] != META]
        S.check(same_rows(S, records(rec[0][1]), want), "records", f"{rec[0][1]!r} instead of {want!r}")
        old = next(e[1] for e in entries if e[0] == RECORD)
        S.check(S.eq(rec[0][1].decode("utf-8"), without(old, META)), "record lines", f"{rec[0][1]!r} from {old!r}")


def missing(S, w):
    from variantlib.commands.unmake_variant import unmake_variant

    S.cover("missing")
    entries, _ = build(S, S.p, meta="{}")
    if S.flag("input-there"):
        w.zip("w/in/x-1-py3-none-any-l.whl", entries)
        args = ["-f", "w/in/x-1-py3-none-any-l.whl", "-o", "w/none"]
    else:
        args = ["-f", ("w/in/x-1-py3-none-any-l.whl", "w/out")[S.flag("dir")], "-o", "w/out"]
    before = w.all()
    r, _ = w.run(unmake_variant, args)
    S.check(not r.ok, "missing file or directory")
    S.check(w.unchanged(before), "nothing written")


def roundtrip(S, w):
    from variantlib.commands.make_variant import make_variant
    from variantlib.commands.unmake_variant import unmake_variant

    entries, rows = build(S, S.p)
    name = "x-1-py3-none-any.whl"
    w.zip("w/in/" + name, entries)
    w.file("w/pyproject.toml", b"[variant]\n")
    w.dir("w/mid")
    args = ["-f", "w/in/" + name, "-o", "w/mid", "--pyproject-toml", "w/pyproject.toml", "--skip-plugin-validation", "--no-isolation"]
    n = S.pick("props", S.p["n"])
    if n:
        args += ["-p"] + [S.str(f"p{i}", 1, S.p["al"]) + "::f" + str(i) + "::v" for i in range(n)]
    else:
        args.append("--null-variant")
    r, _ = w.run(make_variant, args)
    S.check(r.ok, "made", f"{r!r}")
    made = [t for t, _ in w.all() if t.startswith("w/mid/")]
    S.check(len(made) == 1, "one wheel")
    r, _ = w.run(unmake_variant, ["-f", made[0], "-o", "w/out"])
    S.check(r.ok, "unmade", f"{r!r}")
    S.cover("back")
    got = w.unzip("w/out/" + name)
    S.check(got is not None, "filename")
    S.check(same_entries(S, got, entries, [RECORD]), "files", f"{got!r} from {entries!r}")
    S.check(S.eq([e[0] for e in got], [e[0] for e in entries]), "order")
    rec = [e[1] for e in got if e[0] == RECORD]
    S.check(same_rows(S, records(rec[0]), rows), "records", f"{rec[0]!r} instead of {rows!r}")
