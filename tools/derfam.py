"""The family of enums on which the derive macros are validated: a fixed core and, from VERIF_SEED, random members."""
import random
from famlib import Struct, Enum

CYC = ["u32", "String", "bool", "i64", "u8", "Vec<u32>", "i16", "Option<u64>", "u64", "f32", "(u8, i32)", "i8", "f64", "u16", "#VA#", "i32"]
def cyc(n, o=0): return [CYC[(o + i) % len(CYC)] for i in range(n)]

def core_indexer():
    return [
        Enum("Plain", "indexer", None, [("A", 0, None), ("B", 1, None), ("C", -5, None)]),
        Enum("Mixed", "indexer", None, [("Num", 7, ["u32"]), ("Text", -1, ["String"]), ("Flag", -2147483648, ["bool"]), ("Both", 2147483647, ["i64", "u8"]), ("Nothing", 0, None)]),
        Enum("Wide", "indexer", None, [("Two", 2, cyc(2)), ("Three", 3, cyc(3, 4)), ("Eight", 8, cyc(8, 1)), ("Nine", 9, cyc(9, 2)), ("Ten", 10, cyc(10, 3)), ("Twelve", 12, cyc(12))]),
        Enum("Alike", "indexer", None, [("A", 1, ["u32", "String"]), ("Aa", 2, ["String", "u32"]), ("AaB", 3, ["u32", "u32"]), ("AB", 4, ["i32", "i32"]), ("Ab", 10, ["u32", "i32"]), ("B", 5, ["u32"]), ("Empty", 6, [])]),
        Enum("Single", "indexer", None, [("Only", 0, ["u32", "u32"])]),
        Struct("Inner", [("id", "u32"), ("label", "String"), ("kind", "%Plain%")]),
        Enum("Nest", "indexer", None, [("In", 3, ["%Mixed%"]), ("List", 4, ["Vec<%Mixed%>"]), ("Maybe", 5, ["Option<%Mixed%>"]), ("Pair", 6, ["(u8, %Plain%)", "%Plain%"]), ("Rec", 8, ["%Inner%", "u32"]), ("Raw", 9, ["#VA#", "[u16; 3]"])]),
    ]
def core_union():
    return [
        Enum("Color", "indexer", None, [("Red", 0, None), ("Green", 1, None), ("Blue", 4, None)]),
        Enum("ByInt", "union", "i32", [("A", [0], ["i32", "u32"]), ("B", [-1, 2], ["i32", "String"]), ("C", [-2147483648], ["i32"]), ("D", [2147483647], ["i32", "i64", "u8"])]),
        Enum("ByUint", "union", "u32", [("A", [1], ["u32", "u32"]), ("Big", [4294967295, 4294967294], ["u32", "bool"]), ("Other", None, ["u32", "Vec<u32>"])]),
        Enum("ByBool", "union", "bool", [("Yes", [1], ["bool", "u32"]), ("No", [0], ["bool"])]),
        Enum("Wide", "union", "u32", [("One", [1], cyc(1)), ("Nine", [9], ["u32"] + cyc(8, 1)), ("Ten", [10], ["u32"] + cyc(9, 2)), ("Eleven", [11], ["u32"] + cyc(10, 3)), ("Twelve", [12], ["u32"] + cyc(11, 5))]),
        Enum("Single", "union", "i32", [("Only", [5], ["i32", "u32", "u32"])]),
        Enum("Alike", "union", "i32", [("A", [1], ["i32", "u32", "String"]), ("Aa", [2], ["i32", "String", "u32"]), ("AaB", [3, 4, 5], ["i32", "u32", "u32"]), ("AB", [-3], ["i32", "i32", "i32"]), ("Ab", [-4], ["i32", "i32", "u32"]), ("Void", [7], ["i32"])]),
        Enum("ByLong", "union", "u64", [("A", [1 << 40], ["u64", "u8"]), ("B", [0], ["u64"])]),
        Struct("Inner", [("id", "u32"), ("body", "%ByInt%")], rt=False),
        Enum("Nest", "union", "u32", [("In", [1], ["u32", "%ByInt%"]), ("List", [2], ["u32", "Vec<%ByBool%>"]), ("Maybe", [3], ["u32", "Option<%Color%>"]), ("Rec", [4], ["u32", "%Inner%", "i8"]), ("Raw", [5], ["u32", "#VA#", "[u16; 2]"])], rt=False),
    ]
def big(kind):
    """replayed only: wide variants and many variants"""
    d = [] if kind == "indexer" else ["u32"]
    k = (lambda i: i) if kind == "indexer" else (lambda i: [i])
    disc = None if kind == "indexer" else "u32"
    return [
        Enum("Huge", kind, disc, [("One", k(1), d + ["u32"])] + [(f"W{n}", k(n), d + cyc(n - len(d), n)) for n in (16, 17, 20, 32, 33, 40, 64)]),
        Enum("Many", kind, disc, [(f"V{n}", k(n * 7 % 300), d + cyc(n % 4, n)) for n in range(120)]),
    ]
def rand_ty(r, d=0, named=()):
    k = r.randrange(20)
    if k < 14 or d > 1: return r.choice(CYC + ["u32", "i32", "String"])
    if k < 15 and named: return f"%{r.choice(named)}%"
    if k < 16: return f"Vec<{rand_ty(r, d + 1)}>"
    if k < 17: return f"Option<{rand_ty(r, d + 1)}>"
    if k < 18: return f"({rand_ty(r, d + 1)}, {rand_ty(r, d + 1)})"
    if k < 19: return f"[{r.choice(['u8', 'u16', 'u32', 'i64', 'bool'])}; {r.randrange(0, 5)}]"
    return f"Box<{rand_ty(r, d + 1)}>"
NAMES = ["A", "B", "Get", "Set", "GetAll", "Ab", "V1", "V10", "Err", "Ok", "Some", "None", "Data", "X", "Status", "Value", "Index", "I32"]
def rand_family(kind, seed, n):
    r = random.Random(f"{kind}{seed}")
    out = []
    for t in range(n):
        nv = r.choice([1, 2, 3, 4, 5, 7])
        names = r.sample(NAMES, nv)
        if kind == "indexer":
            idx = r.sample([0, 1, 2, 3, 5, -1, -2, 100, 255, 256, 65536, -65536, 2147483647, -2147483648, r.randrange(-2**31, 2**31)], nv)
            vs = [(v, i, None if r.random() < .2 else [rand_ty(r) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9]))]) for v, i in zip(names, idx)]
            out.append(Enum(f"Rnd{t}", kind, None, vs))
        else:
            disc = r.choice(["i32", "u32", "i32", "u32", "u64", "i16"])
            lo, hi = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "i16": (-2**15, 2**15 - 1)}[disc]
            pool = [x for x in [0, 1, 2, 3, 4, 5, 9, 10, 255, 256, 32767, lo, hi, hi - 1, r.randrange(lo, hi)]]
            pool = list(dict.fromkeys(pool)); r.shuffle(pool)
            vs = []
            for i, v in enumerate(names):
                m = r.choice([1, 1, 1, 2, 3])
                ks, pool = pool[:m], pool[m:]
                if not ks: break
                vs.append((v, ks, [disc] + [rand_ty(r) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 9]))]))
            if len(vs) > 1 and r.random() < .3: vs[-1] = (vs[-1][0], None, vs[-1][2])
            out.append(Enum(f"Rnd{t}", kind, disc, vs))
    return out
