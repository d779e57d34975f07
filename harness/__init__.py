"""Reference definitions shared by the harnesses (written from the documented behaviour)."""
NAME = "abcdefghijklmnopqrstuvwxyz0123456789_"
VALUE = NAME + "."
LABEL = NAME.replace("_", "") + "._"
# names over these letters cannot equal a literal of the source (no vowels)
CONS = "bcdfghjklmnpqrstvwxyz0123456789_"
CVAL = CONS + "."
ANY = (1 << 0x800) - 1


def ref_name_ok(S, s, alphabet=NAME):
    """Formula: s is a non-empty string over the alphabet."""
    return len(s) > 0 and S.all_in(s, alphabet)


def ref_parse(S, text, n):
    """Documented text form: n names separated by '::', whitespace around each
    is insignificant.  Returns the parts or None."""
    parts = [p.strip() for p in text.split("::")]
    if len(parts) != n:
        return None
    for i, p in enumerate(parts):
        if len(p) == 0 or not S.decide(S.all_in(p, VALUE if i == 2 else NAME)):
            return None
    return parts


def prop(S, name, lens, vlens, ns=None, alphabet=NAME, valphabet=VALUE):
    from variantlib.models.variant import VariantProperty

    if ns is None:
        ns = S.strv(name + ".n", lens, alphabet)
    return VariantProperty(ns, S.strv(name + ".f", lens, alphabet), S.strv(name + ".v", vlens, valphabet))


def props(S, name, n, lens, vlens, **kw):
    """n pairwise different symbolic properties."""
    out = []
    for i in range(n):
        p = prop(S, f"{name}{i}", lens, vlens, **kw)
        for q in out:
            S.assume(S.Not(S.eq(p, q)))
        out.append(p)
    return out


class StrSub(str):
    """A str subclass (documented as accepted wherever str is)."""


JUNK = (None, 1, True, 1.5, b"ab", ["ab"], ("ab",), {"ab": "ab"})


def junk(S, name, options=JUNK):
    i = S.pick(name, range(len(options)))
    v = options[i]
    return list(v) if type(v) is list else dict(v) if type(v) is dict else v
