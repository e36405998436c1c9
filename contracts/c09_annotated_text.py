"""C09: markup wraps exactly the annotated text and changes nothing else."""
import re

from immutablecollections import ImmutableDict

from pyvc.harness import contract

MOD = "vistautils.annotated_text_utils"
OPTS = dict(modules=["vistautils.range", "vistautils.span", MOD])


@contract("C09.markup", prove=False, covers=["nested", "identical", "clipped", "dropped", "crossing", "attributes"], runs=30000, rand=6000, scope="texts of <=3 characters (random: 12), <=3 annotations (random: 6), any offsets")
def markup(h):
    at, sm = h.mod(MOD), h.mod("vistautils.span")
    n = h.size("len", 1, 3, 12)
    text = "".join("abcdefghijkl"[i] for i in range(n))
    off = h.choice("offset", [0, 2])
    anns = []
    # several of one label, or the same annotation twice
    one = h.choice("labels", ["each its own", "each its own", "one"]) == "one"
    for i in range(h.size("annotations", 0, 3, 6)):
        if one and anns and h.bool("again"):
            anns.append(anns[-1])
            continue
        a = h.int("start", small=(0, n), wide=(0, n + 2 + off))
        b = a + h.int("length", small=(1, n), wide=(1, n + 1))
        attrs = h.choice("attributes", [None, {"b": "2", "a": "1"}, {"a": "2", "A": "1"}, {"A": "1", "a": "2"}]) if i == 0 else None
        if attrs:
            h.cover("attributes")
            anns.append(at.AnnotatedSpan("t" if one else "t%d" % i, sm.Span(a, b), list(attrs.items())))
        else:
            anns.append(at.AnnotatedSpan("t" if one else "t%d" % i, sm.Span(a, b)))
    f = at.HTMLStyleAnnotationFormatter()
    as_collection = h.choice("as", ["list", "tuple"])
    given = anns if as_collection == "list" else tuple(anns)
    if off:
        out = f.annotated_text(text, given, text_offsets=sm.Span(off, off + n))
    else:
        out = f.annotated_text(text, given)
    h.ensure("without its tags the output is the text", re.sub("<[^>]*>", "", out) == text, (text, anns, out))
    # tags with their offsets in the text
    tags = []
    pos = 0
    for m in re.finditer("<[^>]*>|.", out):
        if m.group().startswith("<"):
            tags.append((m.group(), pos))
        else:
            pos += 1
    want = []
    live = []
    for i, a in enumerate(anns):
        lo, hi = max(a.span.start - off, 0), min(a.span.end - off, n)
        if lo < hi:
            if (hi - lo) < len(a.span):
                h.cover("clipped")
            attrs = "".join(' %s="%s"' % x for x in sorted(a.attributes.items())) if a.attributes else ""
            want += [("<%s%s>" % (a.label, attrs), lo), ("</%s>" % a.label, hi)]
            live.append((i, lo, hi))
        else:
            h.cover("dropped")
    h.ensure("each annotation reaching into the text is marked at its clipped offsets, once", sorted(tags) == sorted(want), (text, anns, out))
    names = [re.sub("[<>]| .*", "", t) for t, _ in tags]
    if one:
        h.ensure("an annotation opens before it closes", all(names[:i].count("t") >= names[:i].count("/t") for i in range(len(names) + 1)), out)
        return
    for i, _, _ in live:
        h.ensure("an annotation opens before it closes", names.index("t%d" % i) < names.index("/t%d" % i), out)
    crossing = False
    for i, lo, hi in live:
        for j, lo2, hi2 in live:
            if i >= j:
                continue
            if lo < lo2 < hi < hi2 or lo2 < lo < hi2 < hi:
                crossing = True
                h.cover("crossing")
                continue
            if (lo, hi) == (lo2, hi2):
                h.cover("identical")
            p = [names.index(x) for x in ("t%d" % i, "/t%d" % i, "t%d" % j, "/t%d" % j)]
            nest = p[1] < p[2] or p[3] < p[0] or p[0] < p[2] < p[3] < p[1] or p[2] < p[0] < p[1] < p[3]
            h.ensure("annotations which do not cross are marked without crossing", nest, (text, anns, out))
    if not crossing and len(live) > 1:
        h.cover("nested")


@contract("C09.refusals", prove=False, covers=["fits", "refused"], scope="offsets of up to 4 characters for texts of up to 4; the two kinds of element", **OPTS)
def refusals(h):
    at, sm = h.mod(MOD), h.mod("vistautils.span")
    text = "abcd"[: h.size("len", 1, 4)]
    a = h.choice("offset", [0, 1, 3])
    n = h.size("length", 1, 4)
    f = at.HTMLStyleAnnotationFormatter()
    span = sm.Span(a, a + 1)
    ann, name = h.choice("element", [(at.AnnotatedSpan.create_div_of_class(span, "x y"), "div"), (at.AnnotatedSpan.create_span_of_class(span, "x y"), "span")])
    h.ensure("an element of a class has its name, span and class", (ann.label, ann.span, dict(ann.attributes.items())) == (name, span, {"class": "x y"}), ann)
    k, r = h.outcome(lambda: f.annotated_text(text, [ann], text_offsets=sm.Span(a, a + n)))
    if n == len(text):
        h.cover("fits")
        h.ensure("the element is marked", k == "return" and r == '<%s class="x y">%s</%s>%s' % (name, text[:1], name, text[1:]), r)
    else:
        h.cover("refused")
        h.ensure("offsets of another length than the text are a ValueError", k == "raise" and isinstance(r, ValueError), r)


# ---------------------------------------------------------------------------- proved, for any text and annotations
def same(h, label, got, want):
    h.T.ensure_same(h, label, got, h.T.SymText(want))


def annotations(h, at, sm, start, end, n):
    lab, att = h.fn("label", "int", "any"), h.fn("attributes", "int", "any")

    def make(i):
        a = object.__new__(at.AnnotatedSpan)
        object.__setattr__(a, "label", h.MM.SymStr(lab(i)))
        object.__setattr__(a, "span", h.raw_span(sm, h.C.mkint(start(i)), h.C.mkint(end(i))))
        attributes = h.A.SymAny(att(i))
        h.C.cur().axiom(h.C.B(h.is_a(attributes, ImmutableDict)))
        object.__setattr__(a, "attributes", attributes)
        return a

    z3 = h.z3
    h.C.cur().axiom(n >= 0)
    h.always(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(start(i) >= 0, start(i) < end(i))))
    return h.S.SymSeq(n, make)


@contract("C09.order", concrete=False, covers=["tags", "nested", "identical"], **OPTS)
def order(h):
    """the tags of any number of annotations"""
    at, sm = h.mod(MOD), h.mod("vistautils.span")
    z3, I, B = h.z3, h.C.I, h.C.mkbool
    start, end, n = h.fn("start", "int", "int"), h.fn("end", "int", "int"), z3.Int("annotations")
    anns = annotations(h, at, sm, start, end, n)
    opening, closing = h.fn("start_tag", "any", "any", "any"), h.fn("end_tag", "any", "any")
    t = h.MM.any_term
    h.patch(at, "to_start_tag", lambda a: h.MM.SymStr(opening(t(a.label), t(a.attributes))))
    h.patch(at, "to_end_tag", lambda a: h.MM.SymStr(closing(t(a.label))))
    out = h.items(at.HTMLStyleAnnotationFormatter._tag_sequence(h.give("list", anns)))
    h.cover("tags")
    claim = h.choice("claim", ["number", "offsets", "content", "only", "nesting"])
    if claim == "number":
        h.ensure("two tags for each annotation", B(out.n == 2 * n))
        return
    if claim == "offsets":
        i, j = h.position(out, "position"), h.position(out, "another position")
        h.assume(i < j)
        a, b = out.at(I(i)), out.at(I(j))
        h.ensure("the tags come in the order of their offsets", a.offset <= b.offset)
        return

    def where(i):
        ps = h.SM.places(out, anns, I(i))
        if len(ps) != 2:
            raise h.C.Unsupported("origin of the tags")
        for p in ps:
            h.instantiate(p)
        return ps[1], ps[0]

    if claim == "only":
        r = h.position(out, "position")
        x = out.at(I(r))
        q = h.SM.origin(out, anns, I(r))
        if q is None:
            raise h.C.Unsupported("origin of the tags")
        h.ensure("each tag is one of an annotation's two", B(z3.And(q >= 0, q < n, z3.Or(*[p == I(r) for p in h.SM.places(out, anns, q)]))))
        return
    i = h.position(anns, "annotation")
    o, c = where(i)
    if claim == "content":
        x, y = out.at(o), out.at(c)
        a = anns.at(I(i))
        h.ensure("the start tag is where the annotation starts", h.And(B(t(x.string) == opening(t(a.label), t(a.attributes))), x.offset == a.span.start))
        h.ensure("the end tag is where the annotation ends", h.And(B(t(y.string) == closing(t(a.label))), y.offset == a.span.end))
        h.ensure("an annotation opens before it closes", B(z3.And(0 <= o, o < c, c < out.n)))
        return
    j = h.position(anns, "another annotation")
    h.assume(i < j)
    o2, c2 = where(j)
    s, e, s2, e2 = start(I(i)), end(I(i)), start(I(j)), end(I(j))
    h.ensure("tags of different annotations are at different positions", B(z3.And(o != o2, c != c2, o != c2, c != o2)))
    h.assume(B(z3.Not(z3.Or(z3.And(s < s2, s2 < e, e < e2), z3.And(s2 < s, s < e2, e2 < e)))))
    h.cover("nested")
    if h.And(B(s == s2), B(e == e2)):
        h.cover("identical")
        h.ensure("of annotations of the same span the first is the outer one", B(z3.And(o < o2, c2 < c)))
    h.ensure("annotations which do not cross are marked without crossing", B(z3.Or(c < o2, c2 < o, z3.And(o < o2, c2 < c), z3.And(o2 < o, c < c2))))


@contract("C09.clip", concrete=False, covers=["done"], **OPTS)
def clip(h):
    """annotations are cut to the text and shifted; those outside are dropped"""
    at, sm = h.mod(MOD), h.mod("vistautils.span")
    z3, I, B = h.z3, h.C.I, h.C.mkbool
    start, end, n = h.fn("start", "int", "int"), h.fn("end", "int", "int"), z3.Int("annotations")
    anns = annotations(h, at, sm, start, end, n)
    a, b = h.int("from"), h.int("to")
    h.assume(h.And(a >= 0, a < b))
    span = h.raw_span(sm, a, b)
    out = at.HTMLStyleAnnotationFormatter._clip_to_offsets_and_shift(h.give("list", anns), span)
    h.cover("done")
    lo, hi = I(a), I(b)

    def want(i):
        s, e = start(i), end(i)
        return s, e

    t = h.MM.any_term
    comp = h.S.as_comp(out)
    i = h.position(anns, "annotation")
    s, e, x = start(I(i)), end(I(i)), anns.at(I(i))
    ms = comp.members_at(I(i)) if comp.seq.at is anns.at and comp.seq.n.eq(anns.n) else None
    if ms is None:
        raise h.C.Unsupported("origin of the clipped annotations")
    inside = z3.And(s < hi, lo < e)
    given = [z3.And(g, t(y.label) == t(x.label), t(y.attributes) == t(x.attributes), I(y.span.start) == z3.If(s > lo, s, lo) - lo, I(y.span.end) == z3.If(e < hi, e, hi) - lo) for g, y in ms]
    h.ensure("an annotation reaching into the text is kept once, cut and shifted", B(z3.Implies(inside, z3.Or(*given or [False]))))
    h.ensure("an annotation is kept at most once", B(z3.AtMost(*[g for g, _ in ms], 1)) if ms else True)
    h.ensure("an annotation outside the text is dropped", B(z3.Implies(z3.Not(inside), z3.Not(z3.Or(*[g for g, _ in ms] or [False])))))


@contract("C09.text", concrete=False, covers=["whole text", "part of a text", "refused", "tags"], **OPTS)
def text(h):
    """the text between the tags, for any tags in order of their offsets (C09.order)"""
    at, sm = h.mod(MOD), h.mod("vistautils.span")
    z3, I, B = h.z3, h.C.I, h.C.mkbool
    src = h.SM.SymInput(h.z3.Const("text", h.A.ANY))
    length = I(src.__pyvc_len__())
    off, string, k = h.fn("offset", "int", "int"), h.fn("tag", "int", "any"), z3.Int("tags")
    h.C.cur().axiom(k >= 0)
    F = at.HTMLStyleAnnotationFormatter

    def tag(i):
        x = object.__new__(F.Tag)
        for name, v in (("string", h.MM.SymStr(string(i))), ("is_start", True), ("offset", h.C.mkint(off(i)))):
            object.__setattr__(x, name, v)
        return x

    h.always(lambda i: z3.Implies(z3.And(i >= 0, i < k), z3.And(off(i) >= 0, off(i) <= length, z3.Implies(i > 0, off(i - 1) <= off(i)))))
    tags = h.S.SymSeq(k, tag)
    given = h.any_list("annotations")
    part = h.bool("part of a text")
    a, b = h.int("from"), h.int("to")
    span = None
    if part:
        h.assume(h.And(a >= 0, a < b))
        span = h.raw_span(sm, a, b)
    else:
        h.assume(B(length > 0))
    clipped = []

    def clip_by_contract(anns, offsets):
        h.ensure("the annotations given are clipped", anns is given)
        h.ensure("to the offsets of the text", h.And(offsets.start == a, offsets.end == b) if part else h.And(offsets.start == 0, offsets.end == h.C.mkint(length)))
        clipped.append(h.S.mklist([]))
        return clipped[-1]

    def tags_by_contract(anns):
        h.ensure("the tags are those of the clipped annotations", bool(clipped) and anns is clipped[-1])
        return tags

    h.patch(F, "_clip_to_offsets_and_shift", staticmethod(clip_by_contract))
    h.patch(F, "_tag_sequence", staticmethod(tags_by_contract))
    written = h.fn("written", "int", "any")

    def before(i):
        i = I(i)
        return z3.If(i == 0, z3.IntVal(0), off(i - 1))

    def stream(env):
        v = [x for x in env.values() if isinstance(x, h.SM.SymStringIO)]
        if len(v) != 1:
            raise h.C.Unsupported("text stream")
        return v[0]

    def state(env, i):
        now = stream(env)
        now.parts = [h.MM.SymStr(written(I(i)))]
        now.parts = [h.T.text(x) for x in now.parts]
        return {"last_uncopied_offset": h.C.mkint(before(i))}

    def check(env, i, say):
        out = stream(env).getvalue()
        say("the next character is the one after the last tag", B(I(h.var(env, "last_uncopied_offset")) == before(i)))
        j = z3.simplify(I(i) - 1)
        if z3.is_int_value(I(i)):
            same(h, "nothing is written before the first tag", out, [""])
        else:
            same(h, "the text up to the tag, then the tag", out, [h.T.text(h.MM.SymStr(written(j))), src[h.C.mkint(before(j)) : h.C.mkint(off(j))], h.T.text(h.MM.SymStr(string(j)))])

    h.invariant("annotated_text_utils.HTMLStyleAnnotationFormatter.annotated_text#1", state, check, lambda env: [stream(env)])
    kind, r = h.outcome(lambda: F().annotated_text(src, given, text_offsets=span) if part else F().annotated_text(src, given))
    fits = (b - a == h.C.mkint(length)) if part else True
    if kind == "raise":
        h.cover("refused")
        h.ensure("refused only if the offsets do not fit the text", h.Not(fits), repr(r))
        h.ensure("refusal is a ValueError", isinstance(r, ValueError), repr(r))
        return
    h.cover("part of a text" if part else "whole text")
    h.ensure("the offsets fit the text", fits)
    if h.C.cur().decide(k > 0):
        h.cover("tags")
    h.instantiate(k - 1)
    same(h, "then the text after the last tag", r, [h.T.text(h.MM.SymStr(written(k))), src[h.C.mkint(before(k)) : None]])
