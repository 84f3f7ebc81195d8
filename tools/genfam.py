"""The families of interface definitions on which the generator is validated (C21 structs, C22 enums, C23 unions): a fixed core
and, from VERIF_SEED, random members."""
import random
from xdrfam import D, Const, Typedef, XEnum, XStruct, XUnion, Spec
v = lambda ty, name: D("var", ty, name)
MODES = [(e, u) for e in ("comp", "std", "idx") for u in ("comp", "idx", "uni")]

def structs(small=False, kept=False):
    """kept: typedefs are kept as types of their own, which the generator refuses for opaque data"""
    d = [
        Const("N", "3"), Const("HEXN", "0x5"), Const("OCTN", "010"), Const("ALIAS", "N"), Const("Deep", "ALIAS"),
        XEnum("color", [("RED", "1"), ("GREEN", "2"), ("BLUE", "4")]),
        Typedef(v("int", "number")), Typedef(v("number", "alias_number")), Typedef(v("color", "paint")), Typedef(D("vopq", None, "cookie")), Typedef(D("fopq", None, "key", 6)),
        Typedef(D("str", None, "label", 64)), Typedef(D("varr", "alias_number", "numbers", "N")), Typedef(D("farr", "hyper", "longs", "Deep")), Typedef(D("opt", "label", "maybe_label")), Typedef(v("cookie", "token")), Typedef(v("token", "ticket")), Typedef(v("key", "digest")), Typedef(v("numbers", "series")),
        XUnion("shape", "color", [(["RED"], v("int", "r")), (["GREEN"], D("void")), (["BLUE"], D("str", None, "s"))]),
        XStruct("scalars", [v("int", "a"), v("uint", "b"), v("hyper", "c"), v("uhyper", "d"), v("float", "e"), v("double", "f"), v("bool", "g"), v("char", "h"), v("uchar", "i"), v("short", "j"), v("ushort", "k")]),
        XStruct("arrays", [D("farr", "int", "three", 3), D("farr", "uint", "named", "N"), D("farr", "short", "chained", "Deep"), D("farr", "bool", "by_enumerator", "BLUE"), D("varr", "hyper", "list"), D("varr", "ushort", "bounded", "N"), D("str", None, "text"), D("str", None, "short_text", 5), D("opt", "int", "maybe")]),
        XStruct("opaques", [D("vopq", None, "data"), D("fopq", None, "sum", 16), D("vopq", None, "bounded", "N"), D("fopq", None, "three", "HEXN"), D("fopq", None, "nothing", 0), D("fopq", None, "oct", "OCTN")]),
        XStruct("typedefs", [v("number", "a"), v("alias_number", "b"), v("cookie", "c"), v("key", "d"), v("label", "e"), v("numbers", "f"), v("longs", "g"), v("maybe_label", "h"), D("opt", "label", "i"), D("varr", "label", "j"), D("varr", "cookie", "k"), D("farr", "alias_number", "l", 2)]),
        XStruct("enums", [v("color", "one"), D("varr", "color", "many"), D("opt", "color", "perhaps"), D("farr", "color", "two", 2), v("paint", "aliased"), D("varr", "paint", "aliases")]),
        XStruct("nested_Struct", [v("scalars", "s"), D("varr", "enums", "es"), D("opt", "opaques", "o")]),
        XStruct("unions", [v("shape", "one"), D("varr", "shape", "many"), D("opt", "shape", "perhaps"), v("uint", "last")]),
        XStruct("Names", [v("int", "userID"), v("int", "type"), v("int", "Ref"), v("int", "UPPER"), v("uint", "snake_case_1"), v("int", "self"), v("hyper", "x2Y"), v("short", "_lead")]),
        XStruct("single", [v("uhyper", "only")]),
        XStruct("options", [D("opt", "single", "one"), D("opt", "scalars", "more"), D("varr", "single", "list"), D("farr", "single", "two", 2), D("opt", "number", "aliased"), D("opt", "numbers", "array")]),
        XStruct("chains", [v("token", "a"), v("ticket", "b"), v("digest", "c"), D("varr", "token", "d"), D("varr", "ticket", "e", 3), v("series", "f"), D("varr", "series", "g")]),
    ]
    if kept:
        gone = ("cookie", "key", "token", "ticket", "digest")
        d = [x for x in d if x.name not in gone]
        for x in d:
            if isinstance(x, XStruct): x.decls = [q for q in x.decls if q.ty not in gone]
    if small: d = [x for x in d if not isinstance(x, XStruct) or x.name in ("enums", "unions")]
    return Spec(d)
def opaque_typedefs():
    """refused where typedefs are kept, or generated in the form they have"""
    cookie, key = Typedef(D("vopq", None, "cookie")), Typedef(D("fopq", None, "key", 6))
    holder = lambda t: XStruct("holder", [v(t, "a"), v("int", "n")])
    return [Spec([cookie, holder("cookie")]), Spec([key, holder("key")]), Spec([cookie, Typedef(v("cookie", "token")), holder("token")]), Spec([Typedef(D("varr", "cookie", "list")), cookie, holder("list")]),
            Spec([cookie, XUnion("either", "int", [(["1"], v("cookie", "c")), (["0"], D("void"))])])]
def recursive():
    """replayed only"""
    return Spec([
        XStruct("node", [v("int", "value"), D("opt", "node", "next")]),
        XStruct("tree", [D("varr", "tree", "children"), D("vopq", None, "data")]),
    ])
def enums():
    return Spec([
        Const("FIVE", "5"), Const("SIX", "0x6"), Const("VIA", "SIX"), Const("OCT", "012"),
        XEnum("plain", [("ZERO", "0"), ("ONE", "1"), ("TWO", "2")]),
        XEnum("sparse", [("S_B", "7"), ("S_A", "2"), ("S_C", "0x9")]),
        XEnum("by_const", [("C_SIX", "VIA", 6), ("C_FIVE", "FIVE", 5), ("C_OCT", "OCT", 10)]),
        XEnum("by_enumerator", [("E_TWO", "TWO", 2), ("E_C", "S_C", 9), ("E_NIL", "0")]),
        XEnum("negative", [("M_ONE", "-1"), ("M_SEVEN", "-7"), ("P_TWO", "2"), ("NIL", "0")]),
        XEnum("onlyNegative", [("ALL", "-3")]),
        XEnum("Single", [("only_one", "3")]),
        XEnum("octal_e", [("Q1", "01"), ("Q17", "017"), ("Q10", "8")]),
        XEnum("names", [("lowerName", "3"), ("Upper_Name", "1"), ("a1", "4"), ("ab_c_d", "5"), ("MAX", "6")]),
        XStruct("holder", [v("plain", "p"), D("varr", "sparse", "s"), D("opt", "negative", "n"), D("farr", "by_const", "c", 2)]),
    ])
def extremes():
    """numbers at the limits of the type: only where no variants are needed in between"""
    return Spec([XEnum("extreme", [("LOW", "-2147483648"), ("HIGH", "2147483647"), ("MID", "0"), ("BIG", "0x40000000")])])
def unions(emode="", umode="", kept=False):
    d = [
        Const("FOUR", "4"), Const("NINE", "0x9"), Const("AGAIN", "FOUR"),
        XEnum("color", [("RED", "1"), ("GREEN", "3"), ("BLUE", "4")]), XEnum("shade", [("DARK", "2"), ("LIGHT", "0"), ("NONE", "1")]),
        Typedef(v("int", "number")), Typedef(D("vopq", None, "cookie")), Typedef(v("cookie", "token")), Typedef(D("str", None, "label")),
        XStruct("point", [v("int", "x"), v("hyper", "y")]),
        XUnion("by_enum", "color", [(["RED"], v("int", "r")), (["GREEN"], D("void")), (["BLUE"], D("str", None, "s"))]),
        XUnion("shared", "shade", [(["LIGHT", "DARK"], v("uhyper", "n")), (["NONE"], D("void"))]),
        XUnion("by_int", "int", [(["FOUR"], D("varr", "int", "list")), (["NINE"], v("point", "p")), (["2"], v("bool", "flag")), (["0"], D("void"))]),
        XUnion("by_uint", "uint", [(["AGAIN"], D("opt", "point", "maybe")), (["0x10", "7"], D("farr", "short", "pair", 2))]),
        XUnion("by_bool", "bool", [(["TRUE"], v("label", "reason")), (["FALSE"], D("void"))]),
        XUnion("by_alias", "number", [(["1"], v("double", "d")), (["3"], v("color", "c"))]),
        XUnion("data", "int", [(["1"], D("vopq", None, "raw")), (["2"], v("cookie", "c")), (["3"], D("varr", "cookie", "list")), (["5"], D("str", None, "last", 9))]),
        XUnion("outer", "color", [(["BLUE"], v("by_enum", "inner")), (["RED"], D("varr", "by_bool", "flags"))]),
        XUnion("One", "shade", [(["DARK"], v("ushort", "only"))]),
        Typedef(v("color", "paint")), Typedef(v("paint", "coat")),
        XUnion("by_paint", "paint", [(["GREEN", "RED"], v("int", "r")), (["BLUE"], D("vopq", None, "raw"))]),
        XUnion("by_coat", "coat", [(["BLUE"], D("void"))] + ([] if umode == "idx" else [(["RED"], v("bool", "b"))]), None if umode == "idx" else v("uint", "rest")),
        XUnion("three", "int", [(["0"], D("void")), (["7", "5", "6"], v("uint", "n")), (["FOUR", "2", "3", "1"], D("void"))]),
        XUnion("chained", "uint", [(["1"], v("token", "t")), (["2"], D("varr", "token", "ts"))]),
    ]
    if umode != "comp":
        # the numbers without a case are filled with variants otherwise
        d += [
            XUnion("large", "uint", [(["2147483651"], v("int", "a")), (["0xffffffff"], D("void")), (["0x80000000"], D("str", None, "s")), (["2147483647"], v("uhyper", "b")), (["70000"], D("void"))]),
        ]
    if kept:
        for x in d:
            if isinstance(x, XUnion): x.cases = [(l, D("vopq", None, c.name) if c.ty in ("cookie", "token") else c) for l, c in x.cases]
        d = [x for x in d if x.name not in ("cookie", "token")]
    if umode != "idx":
        d += [
            XUnion("dflt", "color", [(["GREEN"], v("uint", "n"))], v("hyper", "rest")),
            XUnion("dflt_void", "int", [(["1"], v("int", "one")), (["FOUR"], D("vopq", None, "four"))], D("void")),
            XUnion("dflt_bool", "bool", [(["TRUE"], v("int", "n"))], D("void")),
            XUnion("dflt_opaque", "uint", [(["0"], D("void"))], D("vopq", None, "raw")),
        ]
    if umode == "comp":
        d.append(XUnion("fixed_data", "int", [(["1"], D("fopq", None, "digest", 5)), (["2"], D("fopq", None, "key", 8)), (["3"], D("vopq", None, "raw"))]))
    return Spec(d)
def idx_defaults():
    """replayed only, under the indexer option"""
    return Spec([XEnum("color", [("RED", "1"), ("GREEN", "3")]), XUnion("dflt", "color", [(["GREEN"], v("uint", "n")), (["RED"], D("void"))], v("hyper", "rest"))])

SCAL = ["int", "uint", "hyper", "uhyper", "float", "double", "bool", "char", "uchar", "short", "ushort"]
def rand_decl(r, name, named, umode=None, depth=0):
    k = r.randrange(12)
    ty = r.choice(SCAL + list(named) * 3)
    if k < 4: return v(ty, name)
    if k < 6: return D("varr", ty, name, r.choice([None, 4]))
    if k < 7: return D("farr", ty, name, r.randrange(1, 5))
    if k < 8: return D("opt", ty, name)
    if k < 9: return D("str", None, name, r.choice([None, 80]))
    if k < 10: return D("vopq", None, name, r.choice([None, 33]))
    if k < 11 and umode is None: return D("fopq", None, name, r.randrange(1, 33))
    return v(r.choice(SCAL), name)
FN = ["a", "b", "len", "userName", "x1", "first_item", "lastItem", "count", "cb_data", "URL", "fileID", "match", "value", "n"]
def rand_struct(seed, n):
    r = random.Random(f"s{seed}"); d = []
    named = []; opq = []
    for t in range(n):
        if r.random() < .4:
            k = r.choice([1, 2, 3])
            d.append(XEnum(f"renum{t}", [(f"RE{t}_{i}", str(x)) for i, x in enumerate(r.sample(range(0, 12), k))])); named.append(f"renum{t}")
        if r.random() < .5:
            td = rand_decl(r, f"rtype{t}", named); d.append(Typedef(td))
            if td.kind in ("vopq", "fopq"): opq.append((td.name, td.kind))
            elif td.kind != "var" or td.ty not in [n for n, k in opq]: named.append(td.name)
        if opq and r.random() < .5:
            n, k = r.choice(opq); d.append(Typedef(v(n, f"ralias{t}"))); opq.append((f"ralias{t}", k))
        fs = [rand_decl(r, f, named) for f in r.sample(FN, r.choice([1, 2, 3, 4, 6, 9]))]
        for q in fs:
            if opq and r.random() < .25:
                n, k = r.choice(opq); q.__init__("varr" if k == "vopq" and r.random() < .4 else "var", n, q.name)
        d.append(XStruct(f"rnd{t}", fs))
        named.append(f"rnd{t}")
    return Spec(d)
def rand_enum(seed, n):
    r = random.Random(f"e{seed}"); d = []
    for t in range(n):
        k = r.choice([1, 2, 3, 5, 8])
        lo = r.choice([0, 0, -20, -1])
        d.append(XEnum(f"rnd{t}", [(f"V{t}x{i}", r.choice([str(x), hex(x)] if x >= 0 else [str(x)]), x) for i, x in enumerate(r.sample(range(lo, lo + 20), k))]))
    return Spec(d)
def rand_union(seed, n, umode):
    r = random.Random(f"u{seed}"); d = [XEnum("rsel", [("RA", "0"), ("RB", "3"), ("RC", "5"), ("RD", "6")]), XStruct("rst", [v("int", "a"), D("str", None, "b")])]
    for t in range(n):
        disc = r.choice(["int", "uint", "rsel", "rsel", "bool"])
        pool = {"bool": ["TRUE", "FALSE"], "rsel": ["RA", "RB", "RC", "RD"]}.get(disc) or [str(x) for x in r.sample(range(0, 15), 6)]
        r.shuffle(pool); cases = []
        while pool and len(cases) < 4:
            m = min(len(pool), r.choice([1, 1, 1, 2]))
            cases.append((pool[:m], D("void") if r.random() < .3 else rand_decl(r, f"f{len(cases)}", ["rst", "rsel"], umode)))
            pool = pool[m:]
            if r.random() < .2: break
        dflt = None
        if umode != "idx" and r.random() < .4 and (pool or disc not in ("bool", "rsel")): dflt = D("void") if r.random() < .4 else rand_decl(r, "other", ["rst"], umode)
        d.append(XUnion(f"rnd{t}", disc, cases, dflt))
    return Spec(d)
