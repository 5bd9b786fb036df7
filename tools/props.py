"""The rules that decide each property."""
import re
from vlib import *  # noqa

ASSUMPTIONS = [
    "MIR built by the installed nightly rustc is the meaning of the source",
    "serde, erased-serde, inventory, once_cell and the standard library behave as modelled in /verif/driver and /verif/harness",
]

LOCAL = re.compile(r"^return #1\(\((local:|message).*\)\)$")


def canon_ser(l):
    if LOCAL.match(l):
        return "return #1((an error of typetag))"
    m = LISTED.match(l)
    if m:
        return "%s(%s(how many are held))" % (m.group(1), m.group(2) or "")
    return l


# How many parts a list holds is told apart up to a point that depends on how the code goes about it; that what is
# declared is what is written is decided by C04, with lists of each small length.
LISTED = re.compile(r'^(seq|tuple|tuple_struct|tuple_variant|struct|struct_variant)\((.*,)?(?:#1\((?:\d+|len>=\*\(\d+,"[1*]+"\))\)|\d+|len>=\*\(\d+,"[1*]+"\))\)$')
LISTED_MAP = re.compile(r'^map\(#1\((?:\d+|len>=\*\(\d+,"[1*]+"\))\)\)$')


def canon_deep(l):
    return "map(how many are held)" if LISTED_MAP.match(l) else canon_ser(l)


PART = re.compile(r"^(elem|key|field\(.*\))$")


def how_many(required, code):
    """Of the parts that are not told apart the reference may write any number. Code that keeps more of them apart
    knows more about how many there are; that none is lost is decided with the watched one."""
    return required == "end" and all(PART.match(l) for l in code) or bool(PART.match(required)) and set(code) == {"end"}


# ------------------------------------------------------------------------------------- writing
def c01(c):
    g = c.graphs(["ser_ext", "spec_ser_ext"])
    c.rule("event language of externally tagged serialization = reference")
    c.equal(g["ser_ext"], g["spec_ser_ext"], "ser_ext", canon_ser)


def c02(c):
    g = c.graphs(["ser_adj", "spec_ser_adj"])
    c.rule("event language of adjacently tagged serialization = reference")
    c.equal(g["ser_adj"], g["spec_ser_adj"], "ser_adj", canon_ser)


def c03(c):
    g = c.graphs(["ser_int", "spec_ser_int"])
    c.rule("event language of internally tagged serialization = reference, for every kind of concrete value")
    c.equal(g["ser_int"], g["spec_ser_int"], "ser_int", canon_ser, excuse=how_many)


def c05(c):
    names = ["ser_long_" + k for k in ("seq", "tuple", "tuple_struct", "tuple_variant", "struct_variant")]
    names += ["ser_longin_" + k for k in ("seq", "tuple", "tuple_struct", "tuple_variant", "map", "struct", "struct_variant")]
    g = c.graphs(["ser_int", "spec_ser_int", "ser_int_deep", "spec_ser_int_deep"] + names + ["spec_" + n for n in names])
    c.rule("captured parts are written back as they were written to the capture")
    c.equal(g["ser_int"], g["spec_ser_int"], "ser_int", canon_ser, excuse=how_many)
    c.equal(g["ser_int_deep"], g["spec_ser_int_deep"], "ser_int_deep", canon_deep, excuse=how_many)
    c.rule("every element of a captured sequence, map or struct of any length is written, in its place")
    for n in names:
        c.equal(g[n], g["spec_" + n], n, canon_deep, excuse=how_many)


def c06(c):
    g = c.graphs(["ser_collide", "spec_ser_collide", "ser_collide_any", "spec_ser_collide_any"])
    c.rule("a struct field named like the tag key is accepted exactly when it is the tag string, and then not written again")
    c.equal(g["ser_collide"], g["spec_ser_collide"], "ser_collide", canon_ser)
    c.rule("... whatever the name of the implementation is")
    c.equal(g["ser_collide_any"], g["spec_ser_collide_any"], "ser_collide_any", canon_ser)


OPEN = re.compile(r"^(seq|tuple|tuple_struct|tuple_variant|map|struct|struct_variant)\((.*)\)$")
VALUE_FAILS = {"fail", "is:error", "error", "value.err"}
CHOICES = re.compile(r"^(ok|err)$")


def protocol(o, l):
    """o = (pending, depth, failed, collided)"""
    pending, depth, failed, coll = o
    if l.startswith(("PROTOCOL", "PANIC")):
        return l
    if l.startswith("return "):
        if failed == "err":
            return (0, 0, "returned", coll) if l == "return #1((err))" else "an error of the serializer became: " + l
        if failed == "err.value":
            if l == "return #1((err.value))" or (coll and l.startswith("return #1((")):
                return (0, 0, "returned", coll)
            return "an error of the value became: " + l
        if l == "return ((done))":
            return "success with %d compounds still open" % depth if depth else (0, 0, "returned", coll)
        if LOCAL.match(l) and coll:
            return (0, 0, "returned", coll)
        return "neither the serializer's result nor an error it reported: " + l
    if failed:
        return "event %s after a failure" % l
    if l == "ok":
        return (0, depth + pending, failed, coll)
    if l == "err":
        return (0, depth, "err", coll)
    if l in VALUE_FAILS:
        return (0, depth, "err.value", coll)
    if l == "field named type":
        return (pending, depth, failed, True)
    if OPEN.match(l):
        return (1, depth, failed, coll)
    if l == "end":
        return (-1, depth, failed, coll)
    return (pending, depth, failed, coll)


def c07(c):
    roots = ["ser_ext", "ser_adj", "ser_int", "ser_int_deep", "ser_collide"]
    g = c.graphs(roots)
    c.rule("typestate: each compound opened is ended once on success, nothing follows a failure, the first error is returned unchanged")
    for r in roots:
        c.observe(g[r], r, (0, 0, None, False), protocol, "serializer protocol")


LIT = re.compile(r"^(?:#1\()?(\d+)\)?$")


def last_arg(s):
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ")":
            d += 1
        elif s[i] == "(":
            d -= 1
        elif s[i] == "," and d == 0:
            return s[i + 1:]
    return s


def lengths(o, l):
    """o = (stack of (kind, declared, written), pending, collided)"""
    stack, pending, coll = o
    m = OPEN.match(l)
    if l.startswith(("PANIC", "PROTOCOL")):
        return l
    if l.startswith("return") or l == "err":
        return None
    if m:
        d = last_arg(m.group(2))
        x = LIT.match(d)
        if not x and d not in ("()",) and not d.startswith("#1(len>=") and not d.startswith("len>="):
            return "length of %s is %s" % (m.group(1), d)
        return (stack, (m.group(1), int(x.group(1)) if x else None), coll)
    if l == "ok":
        if pending == "end":
            k, dec, wr = stack[-1]
            if dec is not None and dec != wr:
                return "%s declares %d %s than it writes%s" % (
                    k, abs(dec - wr), "more" if dec > wr else "fewer", ", when a field of the value is named like the tag" if coll else "")
            return (stack[:-1], None, coll)
        if pending:
            return (stack + ((pending[0], pending[1], 0),), None, coll)
        return o
    if l == "end":
        return (stack, "end", coll)
    if l in ("elem", "value") or l.startswith(("field(",)):
        if not stack:
            return "part written outside a compound"
        k, dec, wr = stack[-1]
        if dec is not None:
            wr = min(wr + 1, dec + 1)
        return (stack[:-1] + ((k, dec, wr),), None, coll)
    if l == "field named type":
        return (stack, pending, True)
    return (stack, pending, coll)


def c04(c):
    roots = ["serlen_ext", "serlen_adj", "serlen_int", "serlen_int_deep", "ser_collide"]
    g = c.graphs(roots + ["ser_int", "spec_ser_int"])
    c.rule("for every compound opened with a literal length, the parts written before its successful end are counted")
    for r in roots:
        c.observe(g[r], r, ((), None, False), lengths, "declared length")
    c.rule("for symbolic lengths: a map or struct of length n is declared as n+1 and its parts are forwarded one by one")
    c.equal(g["ser_int"], g["spec_ser_int"], "ser_int", lambda l: re.sub(r'"[^"]*"', "s", canon_ser(l)))


# ------------------------------------------------------------------------------------- reading
INVALID = re.compile(r"local:invalid_(\w+)(?:(\(\d+\))|\(.*\))?(?=\)\)$)")
STRS = re.compile(r"^(ask|got):(?:borrowed_)?str(?:ing)?\b")
ASK_STRS = re.compile(r"^ask:str(?:ing)?\b")
REPEATED = re.compile(r'("\w+")(?:,\1)+')


def split(s):
    """top-level parts of a comma-separated list"""
    out, d, q, cur = [], 0, False, ""
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            d += ch in "([{"
            d -= ch in ")]}"
            if ch == "," and d == 0:
                out.append(cur)
                cur = ""
                continue
        cur += ch
    return out + [cur]


def mentioned(m):
    """which tags or keys a message names; failing that, whether it names the trait"""
    t = sorted({re.sub(r'^"(\w+)"$', r"tag=\1", x) for x in split(m.group(1) or "") if re.match(r'^(tag[=.]\w+|otherkey\.[\w*]+|"\w+")$', x)})
    if t and t != ["tag=Tr"]:
        t = [x for x in t if x != "tag=Tr"]
    return "local(%s)" % ",".join(t) if t else "local"


def reading(lengths=False, borrow=True):
    """Error values are compared up to wording and error class of type errors; what they name is kept. With `lengths`
    the number of elements an invalid-length error states is kept. With `borrow` the way the concrete type receives a
    string (owned, borrowed, transient) is kept."""
    def canon(l):
        if l.startswith("return"):
            l = INVALID.sub(lambda m: "local:invalid_length%s" % m.group(2) if lengths and m.group(2) else "local", l)
            l = re.sub(r"message(?:\((.*)\))?(?=\)\)$)", mentioned, l)
        l = l.replace("[", "(").replace("]", ")")
        l = REPEATED.sub(r"\1", l)
        return (ASK_STRS.sub("ask:str", l) if borrow else STRS.sub(r"\1:str", l))
    return canon


def same(c, pairs, **kw):
    g = c.graphs([r for p in pairs for r in p])
    for a, b in pairs:
        c.equal(g[a], g[b], a, reading(**kw))
    return g


def spec(*roots):
    return [(r, "spec_" + r) for r in roots]


MARK = {"s": "Send", "y": "Sync", "b": "Send + Sync", "n": "no marker"}


def c08(c):
    ser = ["mser_%s_%s" % (r, m) for r in ("ext", "adj", "int") for m in "syb"] + [
        "mser_ext_b_s", "mser_ext_b_y", "mser_ext_b_b", "mser_ext_b_n", "mser_ext_s_n", "mser_ext_y_n"]
    de = ["mde_%s_%s_%s" % (r, t, m) for r in ("ext", "int", "adj") for t, ms in (("s", "ns"), ("y", "ny"), ("b", "nsyb")) for m in ms]
    g = c.graphs(ser + de + ["spec_ser_ext", "spec_ser_adj", "spec_ser_int", "spec_de_ext", "spec_de_int", "spec_de_adj"])
    c.rule("every marked object is written as the reference writes the unmarked one")
    for r in ser:
        c.equal(g[r], g["spec_ser_" + r[5:8]], r, canon_ser)
    c.rule("every marked object that can be read is read as the reference reads the unmarked one")
    for r in de:
        c.equal(g[r], g["spec_de_" + r[4:7]], r, reading())


def d01(c):
    c.rule("for every program registering up to four implementations under any of three names, in any order, the function "
           "applied for a tag is the one registered under it, and other tags are unknown-variant errors listing all names sorted")
    same(c, spec("de_reg", "de_reg_int", "de_reg_adj"))


def d02(c):
    c.rule("a name registered twice or more is refused with an error naming it, in every registration order; other names still work")
    same(c, spec("de_reg", "de_reg_int", "de_reg_adj"))


def d03(c):
    c.rule("event language of externally tagged reading = reference")
    same(c, spec("de_ext"))


def d04(c):
    c.rule("event language of internally tagged reading = reference: any number of entries, the tag at any position or absent")
    same(c, spec("de_int", "de_int_def"))


def d05(c):
    c.rule("the default variant applies exactly when there is no tag; without one a missing-field error names the tag key")
    same(c, spec("de_int", "de_int_def", "de_adj", "de_adj_def", "de_adj_both", "de_reg_int_def", "de_reg_adj_def"))


def d06(c):
    c.rule("event language of adjacently tagged reading = reference: any sequence of keys")
    same(c, spec("de_adj", "de_adj_def", "de_adj_deny", "de_adj_both"), lengths=True)


def d07(c):
    c.rule("event language of adjacently tagged reading = reference, from a sequence of any length")
    same(c, spec("de_adj", "de_adj_def"), lengths=True)


ANY = re.compile(r"^wants:(?!any$)")


def d08(c):
    g = c.graphs(["de_buffered", "spec_de_buffered", "de_int", "spec_de_int", "de_enum", "spec_de_enum"])
    c.rule("a buffered value of every kind, replayed through an untyped or any other request, is what serde's own buffer replays")
    only_any = lambda f: lambda l: None if ANY.match(l) else f(l)
    c.equal(g["de_buffered"], g["spec_de_buffered"], "de_buffered", only_any(reading()))
    c.equal(g["de_int"], g["spec_de_int"], "de_int", reading())
    c.rule("values nested two levels deep, as far as enum requests reach them")
    c.equal(g["de_enum"], g["spec_de_enum"], "de_enum", reading())


def d09(c):
    c.rule("every typed request on a buffered value of every kind is answered as by serde's own buffered deserializer")
    same(c, spec("de_buffered", "de_enum"))
    c.rule("every element of a buffered sequence or map of any length is replayed, in its place")
    same(c, spec("de_longseq", "de_longmap"))


def d10(c):
    c.rule("every typed request on an internally tagged object whose tag came first = reference")
    same(c, spec("de_stream"))
    c.rule("and the same requests when entries before the tag, or the absence of a tag, made it buffer")
    same(c, spec("de_late", "de_late_def"))


KINDS = ("bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str bytes none some unit unit_struct unit_variant newtype "
         "newtype_variant seq tuple tuple_struct tuple_variant map map_keys struct struct_variant").split()


def loopback(how):
    """One text or byte buffer may be handed over owned or not."""
    f = reading(borrow=how == "strict")
    return lambda l: re.sub(r"^got:byte_buf", "got:bytes", f(l)) if how != "strict" else f(l)


def d11(c):
    pairs = [(r + "_" + k, "spec_loop_" + k) for k in KINDS for r in ("loop", "loopext", "loopadj")]
    g = c.graphs([r for p in pairs for r in p])
    c.rule("writer and reader composed over a format that answers a request only if it is for what was written: the concrete type "
           "sees what it wrote, for every kind and representation")
    for a, b in pairs:
        c.equal(g[a], g[b], a, loopback("strict"))


def d15(c):
    pairs = [(r + "_" + k, ("spec_late_" if k == "newtype" else "spec_loop_") + k) for k in KINDS for r in ("late", "lateadj")]
    g = c.graphs([r for p in pairs for r in p])
    c.rule("writer and reader composed over a format that describes itself and moved the tag behind the rest: the concrete type "
           "sees what it wrote, for every kind")
    for a, b in pairs:
        c.equal(g[a], g[b], a, loopback("late"))
    c.rule("every request on what precedes a late tag = the reference for an early one")
    same(c, spec("de_late", "de_late_def"))


READ_FAILS = {"err": "(err)", "reads.rejects": "(err.concrete)", "rejects": "(err.concrete)"}
LOCAL_FAILS = {"does not fit", "key is not a string", "tag is not a string", "is something else", "tag is unknown", "tag is dup"}


def propagated(o, l):
    """o = None, or what has to be returned next"""
    if l.startswith("PANIC"):
        return None
    if l.startswith("return"):
        if o is None:
            return None
        if o == "local":
            return None if l.startswith("return #1((") and l not in ("return #1((err))", "return #1((err.concrete))") else (
                "an input that was refused became: " + l)
        return None if l == "return #1(%s)" % o else "an error of the %s became: %s" % (
            "format" if o == "(err)" else "concrete type", l)
    if o is not None:
        return "%s after a failure" % l
    if l in READ_FAILS:
        return READ_FAILS[l]
    if l in LOCAL_FAILS:
        return "local"
    return None


class Go:
    """observer state without a pending failure (None means: stop here)"""


def propagated2(o, l):
    r = propagated(None if o is Go else o, l)
    if isinstance(r, str) and r not in ("(err)", "(err.concrete)", "local"):
        return r
    if r is None:
        return None if l.startswith("return") or l.startswith("PANIC") else (Go, "")
    return (r, "")


def d12(c):
    roots = ["de_ext", "de_int", "de_int_def", "de_adj", "de_adj_def", "de_adj_deny", "de_adj_both", "de_stream", "de_late", "de_late_def", "de_buffered", "de_enum"]
    g = c.graphs(roots)
    c.rule("typestate: after a failure of the format, of the concrete type or of a lookup nothing happens but the return of that error")

    def step(o, l):
        r = propagated2(o[0], l)
        return r
    for r in roots:
        c.observe(g[r], r, (Go, ""), step, "error propagation")


def d13(c):
    roots = ["de_ext", "de_int", "de_int_def", "de_adj", "de_adj_def", "de_adj_deny", "de_adj_both", "de_stream", "de_late", "de_late_def", "de_buffered", "de_enum"] + [
        r + "_" + k for k in KINDS for r in ("late", "lateadj", "loop", "loopadj", "loopext")]
    g = c.graphs(roots)
    c.rule("no panicking operation is reachable while reading, and no capacity or overflow check depends on the input")
    for r in roots:
        c.observe(g[r], r, (), lambda o, l: "reading can panic: " + l if l.startswith("PANIC") else o, "no panic")
        for kind, what, site in g[r].obs:
            # sums of lengths of what is in memory, in serde's own code, cannot overflow
            if "typetag::" in site and not (kind == "may_panic" and "/.cargo/registry/" in site and "arithmetic overflow" in what):
                c.obligation(False)
                c.violation("%s:%s:%s" % (r, kind, what), "%s: %s\n  at %s" % (
                    {"capacity": "a collection is allocated with a capacity taken from the input",
                     "may_panic": "an operation can panic depending on the input"}[kind], what, site))


def d14(c):
    ser = ["serhr_ext", "serhr_adj", "serhr_int", "serhr_int_deep", "serhr_collide"]
    de = ["hrde_ext", "hrde_adj", "hrde_int", "hrde_stream", "hrde_buffered"]
    g = c.graphs(ser + de)
    c.rule("wherever the concrete type can ask, it is told the human readability of the user's format")

    for r in ser + de:
        def step(buffered, l):
            if l.startswith("hr of"):
                where, v = l.rsplit("(", 1)
                if v != "human_readable)":
                    return Report("%s, %s: is_human_readable is %s" % (
                        where[6:], "buffered" if buffered == 1 else "direct", "true" if v == "1)" else "false" if v == "0)" else v[:-1]), buffered)
            if l.startswith("ask:any"):
                return 1
            if l.startswith("return"):
                return None
            return buffered
        c.observe(g[r], r, 0, step, "human readability")


# -------------------------------------------------------------------------------------- macros
def witnesses(c, which):
    import witness
    import witnesses as ws
    witness.decide(c, getattr(ws, which), ws.PRELUDE)


def pairs_equal(c, pairs, canon):
    g = c.graphs([r for p in pairs for r in p], "macros")
    if g is None:
        return
    for a, b in pairs:
        c.equal(g[a], g[b], a, canon)


def m01(c):
    c.rule("for every spelling of the attribute and of the type: an object is written under the expected name, and what is read "
           "under that name is an object of exactly that type, which is written under that name again; other names are unknown")
    pairs_equal(c, spec(*["names_%s_%s" % (w, r) for w in ("ser", "de", "un") for r in ("ext", "int", "adj")]), reading())


def m02(c):
    c.rule("each trait's registry holds exactly the implementations marked for reading, once; each object is written under its own trait's name")
    pairs_equal(c, spec("modes_de_both", "modes_de_reads", "modes_de_again", "modes_de_other", "modes_de_empty", "modes_ser",
                        "shapes_de_supers", "shapes_de_items", "shapes_de_unsafe", "shapes_de_attrs", "shapes_ser",
                        "names_de_ext", "names_un_ext", "names_un_int", "names_un_adj"), reading())
    c.rule("Serialize and Deserialize are implemented exactly for the modes asked for, for every set of markers")
    witnesses(c, "M02")


def m03(c):
    c.rule("each program lacking an attribute is refused at that impl, and accepted with it")
    witnesses(c, "M03")


def m04(c):
    c.rule("each unsupported item is refused by the macro at that item, and its supported neighbour accepted")
    witnesses(c, "M04")


def m05(c):
    c.rule("the expansion compiles in every scope: each program with hostile names, lints, positions and macros around it is accepted")
    witnesses(c, "M05")


def m06(c):
    c.rule("Box<dyn Trait + markers> implements Deserialize exactly for the markers among the supertraits, decided by trait selection")
    witnesses(c, "M06")


def m07(c):
    c.rule("each argument list outside the grammar is refused by the macro, each inside is accepted")
    witnesses(c, "M07")
    c.rule("each spelling of an argument list writes and reads as the reference of the representation it stands for")
    sp = {"ext": 2, "int": 4, "int_def": 2, "adj": 2, "adj_def": 1, "adj_deny": 1, "adj_both": 4}
    ser = [("sp_%sser_%s_%d" % (b, k, i), "spec_ser_" + k[:3]) for k, n in sp.items() for i in range(1, n + 1) for b in ("b", "")]
    de = [("sp_%sde_%s_%d" % (b, k, i), "spec_de_" + k) for k, n in sp.items() for i in range(1, n + 1) for b in ("b", "")]
    g = c.graphs([r for p in ser + de + [("odd", "spec_odd")] for r in p], "macros")
    if g is None:
        return
    for a, b in ser:
        c.equal(g[a], g[b], a, canon_ser)
    for a, b in de:
        c.equal(g[a], g[b], a, reading())
    c.equal(g["odd"], g["spec_odd"], "odd")


def m10(c):
    c.rule("each program observing a part of what the user wrote (attribute, visibility, safety, bound, item) is accepted with and refused without it, as without the macro")
    witnesses(c, "M10")


def m08(c):
    c.rule("no unsafe block, function, trait, impl, foreign item, exported symbol or mutable static in the crates' source, nor in what "
           "the macros expand to (the registry crate's own macro excepted)")
    c.cov["examined"] = {}
    try:
        r = safety()
    except CompileFailure as e:
        raise Broken(str(e))
    for krate, (head, found) in r.items():
        n = [int(x) for x in head.split()[1:]]
        c.cov["examined"][krate] = {"items": n[0], "bodies": n[1], "blocks": n[2]}
        c.cov["obligations"] += n[0] + n[2]
        c.cov["discharged"] += n[0] + n[2] - len(found)
        for what, site, by in found:
            c.violation("%s:%s" % (krate, what), "%s at %s%s" % (what, site, ", from the expansion of " + by if by else ""))


def m09(c):
    pairs = spec("twice_ext", "twice_int", "twice_adj", "twice_reg")
    g = c.graphs([r for p in pairs for r in p])
    c.rule("two reads in a row, with any other thread initialising in between, equal two reads of the reference; the whole registry "
           "is there for both, whatever the program registers")
    for a, b in pairs:
        c.equal(g[a], g[b], a, reading())
    c.rule("every static that the reading side refers to is published once, by a once cell, and what it publishes has no interior mutability")
    c.cov["statics"] = c.statics
    for path, ty, at, why in c.statics:
        c.obligation(not why)
        if why:
            c.violation("static:" + path, "the static %s: %s %s\n  at %s" % (path, ty, why, at))
    # the registry is looked up in a static, not built anew or per thread
    n = sum("typetag" in ty and "Registry" in ty for _, ty, _, _ in c.statics)
    c.cov["registries"] = n


CHECKS = {
    "C01": (c01, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "C02": (c02, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "C03": (c03, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "C04": (c04, "abstract interpretation of MIR; counting observer over event graphs"),
    "C05": (c05, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "C06": (c06, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "C07": (c07, "abstract interpretation of MIR; typestate observer over event graphs"),
    "C08": (c08, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D01": (d01, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D02": (d02, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D03": (d03, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D04": (d04, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D05": (d05, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D06": (d06, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D07": (d07, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D08": (d08, "abstract interpretation of MIR; language equality of event graphs with serde's own buffer"),
    "D09": (d09, "abstract interpretation of MIR; language equality of event graphs with serde's own buffered deserializer"),
    "D10": (d10, "abstract interpretation of MIR; language equality of event graphs with a reference transducer"),
    "D11": (d11, "abstract interpretation of the composition of writer and reader; language equality of event graphs"),
    "D15": (d15, "abstract interpretation of the composition of writer and reader; language equality of event graphs"),
    "D12": (d12, "abstract interpretation of MIR; typestate observer over event graphs"),
    "D13": (d13, "abstract interpretation of MIR; reachability of panicking and allocating operations"),
    "D14": (d14, "abstract interpretation of MIR; observer of is_human_readable over event graphs"),
    "M01": (m01, "abstract interpretation of the expansions' MIR with the registrations decoded from their statics; language equality of event graphs"),
    "M02": (m02, "abstract interpretation of the expansions' MIR with the registrations decoded from their statics; trait selection on witness programs"),
    "M03": (m03, "type-level witnesses: programs that must be refused or accepted by the compiler, with the error located"),
    "M04": (m04, "type-level witnesses: programs that must be refused or accepted by the compiler, with the error located"),
    "M05": (m05, "type-level witnesses: hostile scopes around the expansions, checked by the compiler's name resolution and type system"),
    "M06": (m06, "type-level witnesses: trait selection decides which objects are deserializable"),
    "M10": (m10, "type-level witnesses: programs observing each part of the annotated item, refused or accepted by the compiler, with the error located"),
    "M09": (m09, "abstract interpretation of MIR with once cells modelled as states, language equality of event graphs; type walk over the statics referred to"),
    "M08": (m08, "walk over the type-checked program (HIR) of the crates and of expansions: inventory of unsafe code"),
    "M07": (m07, "type-level witnesses for the grammar; abstract interpretation of MIR and language equality of event graphs for the meaning"),
}

NOTE = (
    "Decided from the MIR of the current source for every input, format response and failure point: sequences are widened after two "
    "distinguished elements and nesting is unfolded twice, deeper structure being covered by treating captured parts as opaque. "
    "Trusts rustc's MIR, the models of std/serde/erased-serde/inventory/once_cell in driver and harness, and the reference transducer."
)
NOTES = {}
NA = {
    "X01": "Quantifies over arbitrary third-party formats and concrete Serialize/Deserialize impls, whose code is not part of the repository; the parts typetag contributes are C03, D10 and D11.",
    "X02": "Stack depth consumed at run time depends on frame sizes and on the format's own recursion limit; typetag has no bound of its own and no static argument over its source bounds the recursion of the format.",
    "X03": "Depends on the linker and the loader collecting constructors from every linked object, which is outside the source that is analysed.",
}
