"""Variants, platforms and the reference order for the resolver checks."""
from harness import NAME, VALUE, prop


def count(S, name, n):
    return n if isinstance(n, int) else S.pick(name, n)


BIG = 1 << 40


def index(S, x, xs):
    for i, y in enumerate(xs):
        if S.decide(S.eq(x, y)):
            return i
    return BIG


def pads(S, name):
    """Names in front of a list that equal none of the symbolic ones."""
    return [f"y{i}" for i in range(S.pick(name, S.p["many"]))] if S.p.get("many") else []


def lookup(S, d, k):
    for key, v in (d or {}).items():
        if S.decide(S.eq(key, k)):
            return v
    return None


def expected(S, props, ns_prio, feat_prio, prop_prio):
    """The documented total order of supported properties."""
    keys = []
    for i, p in enumerate(props):
        fi = index(S, p.feature, lookup(S, feat_prio, p.namespace) or [])
        first = 0
        if fi == BIG:
            first = next(j for j, q in enumerate(props) if S.decide(same_feature(S, p, q)))
        vi = index(S, p.value, lookup(S, lookup(S, prop_prio, p.namespace), p.feature) or [])
        keys.append((index(S, p.namespace, ns_prio), fi, first, vi, i))
    return [props[k[-1]] for k in sorted(keys)]


def sprop(S, name):
    """A symbolic property in the ranges of the shape."""
    p = S.p
    from variantlib.models.variant import VariantProperty

    return VariantProperty(
        p["ns"] if isinstance(p.get("ns"), str) and not p.get("nsym") else S.strv(name + ".n", p.get("nl", (1,)), p.get("nal", NAME)),
        S.strv(name + ".f", p.get("fl", (1,)), p.get("fal", NAME)),
        S.strv(name + ".v", p.get("vl", (1,)), p.get("val", VALUE)))


def distinct(S, xs):
    return S.And(*[S.Not(S.eq(x, y)) for i, x in enumerate(xs) for y in xs[:i]])


def sprops(S, name, n, unique=True):
    out = []
    for i in range(n):
        p = sprop(S, f"{name}{i}")
        if unique:
            S.assume(S.And(*[S.Not(S.eq(p, q)) for q in out]))
        out.append(p)
    return out


def variant(S, name, n):
    from variantlib.models.variant import VariantDescription

    return VariantDescription(sprops(S, name, n))


def same_feature(S, a, b):
    return S.And(S.eq(a.namespace, b.namespace), S.eq(a.feature, b.feature))


def same_prop(S, a, b):
    return S.And(S.eq(a.namespace, b.namespace), S.eq(a.feature, b.feature), S.eq(a.value, b.value))


def among(S, p, ps):
    return S.Or(*[same_prop(S, p, q) for q in ps])


def same_variant(S, a, b):
    """Equality of the property sets."""
    if len(a.properties) != len(b.properties):
        return False
    return S.And(*[among(S, p, b.properties) for p in a.properties])


def compatible(S, d, allowed, forbidden_ns=(), forbidden_features=(), forbidden_props=()):
    """The documented rule, as a formula."""
    ps = d.properties
    return S.And(
        *[S.Or(*[S.And(same_feature(S, p, q), among(S, q, allowed), S.Not(among(S, q, forbidden_props)))
                 for q in ps]) for p in ps],
        *[S.Not(S.eq(p.namespace, n)) for p in ps for n in forbidden_ns],
        *[S.Not(same_feature(S, p, f)) for p in ps for f in forbidden_features])


def prefer(S, a, b, ordered):
    """Formula: a ranks strictly before b, for the ordered supported properties.

    Feature by feature in the order of first mention; the better (earlier)
    value wins, and using the feature beats not using it."""
    if not ordered:
        return False
    seen = []
    alts = []
    tied = []
    for p in ordered:
        if any(S.decide(same_feature(S, p, q)) for q in seen):
            continue
        seen.append(p)
        vals = [q for q in ordered if S.decide(same_feature(S, p, q))]
        ra = rank(S, a, vals)
        rb = rank(S, b, vals)
        better = S.Or(*[S.And(ra[i], *[S.Not(rb[j]) for j in range(i + 1)]) for i in range(len(vals))])
        same = S.And(*[S.Iff(ra[i], rb[i]) for i in range(len(vals))])
        alts.append(S.And(*tied, better))
        tied.append(same)
    return S.Or(*alts)


def rank(S, d, vals):
    """rank[i]: the best value of d for this feature is vals[i]."""
    has = [among(S, v, d.properties) for v in vals]
    return [S.And(has[i], *[S.Not(has[j]) for j in range(i)]) for i in range(len(vals))]


def supported(S, d, ordered):
    """Every feature of d has a value among the supported properties."""
    return S.And(*[S.Or(*[S.And(same_feature(S, p, q), among(S, q, ordered)) for q in d.properties])
                   for p in d.properties])


def ranked(S, ds, ordered):
    """Stable sort of ds by preference."""
    out = []
    for d in ds:
        i = len(out)
        while i > 0 and S.decide(prefer(S, d, out[i - 1], ordered)):
            i -= 1
        out.insert(i, d)
    return out
