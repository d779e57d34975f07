"""The wheel filename pattern on every name built from parts of the listed lengths, and on
every string made of up to nine pieces."""
FUNCTIONS = ["variantlib.constants:"]
SHAPES = {
    "quick": [
        dict(name="built", al="aZ1._+", lens=(1, 2), ll=(1, 2), lal="a1._", covers=["plain", "variant", "build"]),
        dict(name="lengths", al="b2", lens=(1, 2), ll=(1, 16), lal="b", covers=["plain", "variant", "build"]),
        dict(name="long", al="aZ1", lens=(1,), ll=(1,), lal="a", long=40, only=["name", "ver", "py", "abi", "plat"], covers=["plain", "variant", "build"]),
        dict(name="pieces", pieces=(1, 4, 5, 6, 7, 8), plens=(0, 1), pal="a1A", ends=3, covers=["plain", "variant", "refused"]),
        dict(name="odd", pieces=(5, 6, 7), plens=(1,), pal="aA \n_", fixed=4, ends=1, covers=["plain", "variant", "refused"]),
        dict(name="label-length", label=True, lens=(15, 16, 17), covers=["variant", "refused"]),
    ],
    "thorough": [
        dict(name="built", al="aZ1._+", lens=(1, 2), ll=(1, 2), lal="az19._", covers=["plain", "variant", "build"]),
        dict(name="lengths", al="b2", lens=(1, 2, 3), ll=(1, 2, 16), lal="b", covers=["plain", "variant", "build"]),
        dict(name="pieces", pieces=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9), plens=(0, 1), pal="a1A", ends=3, covers=["plain", "variant", "refused"]),
        dict(name="odd", pieces=(5, 6, 7), plens=(1, 2), pal="aA \n_1", fixed=4, ends=1, covers=["plain", "variant", "refused"]),
        dict(name="label-length", label=True, lens=tuple(range(1, 20)), covers=["variant", "refused"]),
    ],
}
LABEL = "abcdefghijklmnopqrstuvwxyz0123456789._"
DIGITS = "0123456789"
CLEAN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._+"
ENDS = (".whl", ".zip", "", ".WHL", ".whl\n", " .whl")


def match(S, name):
    from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX

    return VALIDATION_WHEEL_NAME_REGEX.fullmatch(name)


def scenario(S):
    p = S.p
    if p.get("label"):
        return label_length(S)
    if "pieces" in p:
        return pieces(S)
    part = {k: S.strv(k, p["lens"] if k in ("name", "ver", "py") else (1,), p["al"]) for k in ("name", "ver", "py", "abi", "plat")}
    # a python tag starts with the interpreter's name
    S.assume(S.Not(S.all_in(part["py"][0], DIGITS)))
    build = label = None
    if S.flag("has-build"):
        build = S.str("b", 1, "12") + (S.str("b2", 1, "a1_.+") if S.flag("longer") else "")
        S.cover("build")
    if S.flag("has-label"):
        label = S.strv("label", p["ll"], p["lal"])
    S.cover("plain" if label is None else "variant")
    namever = part["name"] + "-" + part["ver"]
    base = namever + ("-" + build if build is not None else "") + "-" + part["py"] + "-" + part["abi"] + "-" + part["plat"]
    name = base + ("-" + label if label is not None else "") + ".whl"
    m = match(S, name)
    S.check(m is not None, "recognised", f"{name!r} is refused")
    if m is None:
        return
    got = m.groupdict()
    S.observe("groups", got)
    want = {"base_wheel_name": base, "namever": namever, "variant_label": label, "name": part["name"], "ver": part["ver"], "build": build,
            "pyver": part["py"], "abi": part["abi"], "plat": part["plat"]}
    for k, v in want.items():
        if k in got:
            S.check(S.eq(got[k], v), k, f"{got[k]!r} instead of {v!r} in {name!r}")
    plain = got["base_wheel_name"] + ".whl"
    m = match(S, plain)
    S.check(m is not None and m.group("variant_label") is None, "plain again", f"{plain!r}")
    S.check(m is not None and S.decide(S.eq(m.group("base_wheel_name"), base)), "same base", f"{plain!r}")


def pieces(S):
    """Any number of dash-separated pieces."""
    p = S.p
    n = S.pick("pieces", p["pieces"])
    parts = []
    for i in range(n):
        if i < n - p.get("fixed", 99) and i != 2:
            parts.append("x")
        else:
            parts.append(S.strv(f"p{i}", p["plens"], p["pal"]))
    end = ENDS[S.pick("end", range(p["ends"]))]
    name = "-".join(parts) + end
    m = match(S, name)
    S.observe("result", m.groupdict() if m else None)
    good = end == ".whl" and 5 <= n <= 7 and all(len(x) > 0 for i, x in enumerate(parts) if i != 1)
    clean = S.And(*[S.all_in(x, CLEAN + "_") for x in parts])
    label = build = None
    if good and n >= 6:
        if S.decide(S.all_in(parts[2][0], DIGITS)):
            build = parts[2]
            label = parts[6] if n == 7 else None
        elif n == 6:
            label = parts[5]
        else:
            good = False
    if good and label is not None and not S.decide(S.all_in(label, LABEL)):
        good = False
    rest = [x for i, x in enumerate(parts) if build is None or i != 2]
    spaces = S.Or(*[S.Not(S.all_in(x, CLEAN + "_")) for x in rest])
    if not good or S.decide(spaces):
        # (white space in a build tag and an empty version are left open)
        S.cover("refused")
        S.check(m is None, "not a wheel", f"{name!r} is accepted")
        return
    if not parts[1] or not S.decide(clean):
        return
    S.cover("plain" if label is None else "variant")
    S.check(m is not None, "recognised", f"{name!r} is refused")
    if m is None:
        return
    S.check(S.eq(m.group("variant_label"), label), "label", f"{name!r}")
    S.check(S.eq(m.group("base_wheel_name"), "-".join(parts[:-1] if label is not None else parts)), "base", f"{name!r}")
    S.check(S.eq(m.group("namever"), parts[0] + "-" + parts[1]), "namever", f"{name!r}")


def label_length(S):
    label = S.strv("label", S.p["lens"], "z9_")
    m = match(S, "x-1-py3-none-any-" + label + ".whl")
    S.cover("variant" if len(label) <= 16 else "refused")
    S.check((m is not None) == (len(label) <= 16), "label length", f"{label!r}")
    if m is not None:
        S.check(S.eq(m.group("variant_label"), label), "label", f"{label!r}")
