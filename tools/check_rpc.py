#!/usr/bin/env python3
"""Check of one property of the parser and the code generator (C17..C20, C24, C25): contracts on the functions extracted from
rpcgen/src/*.rs, discharged by Verus, plus a replay on the real crate. usage: check_rpc.py PROP"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from decide import decide

FILES = ["error", "keyword", "parser", "gen_code"]
PARSE = ["rpc_base", "rpc_num", "rpc_parse"]
NAMES = ["rpc_base", "rpc_num", "rpc_seq", "rpc_names"]
TEXT = ["rpc_base", "rpc_seq", "rpc_text"]
GEN = ["rpc_base", "rpc_num", "rpc_seq", "rpc_names", "rpc_text", "rpc_gen"]
LEM = [r"^g::(vx|vxs|nom|lit|g|names|naming|gen|spec_\w+)::"]
CONV = r"^(parser::(Vx)?TryFrom\[\w+\]::.*|Constant::value)$"
LIT = r"^(parser::(decimal_nonzero|hexadecimal|octal|constant|(Vx)?TryFrom\[\w+\]::.*)|Constant::value|Value::constants)$"
DECL = r"^(keyword::xdr_reserved|parser::(identifier|value|declaration|type_specifier|enum_type_spec|struct_type_spec|union_type_spec|word_end))$"
# specs, core, support, rounds (quick, thorough), what the replay does
P = {
    "C17": (PARSE, [LIT], [r"^parser::(value|identifier|comment0|word_end)$", r"^keyword::xdr_reserved$"], (4000, 100000),
            "integer literals of every base around every power of two and ten, the limits of the types and the numbers of the code, and random ones, in every place of a definition, parsed and converted and compared with exact arithmetic and with an independent parser"),
    "C18": (PARSE, [DECL], [LIT, r"^parser::"], (4000, 60000),
            "every keyword and every name made from one, in every place for a type or a name; random definitions written in random layouts; each compared with an independent parser"),
    "C19": (PARSE, [r"^parser::(?!(decimal_nonzero|hexadecimal|octal|constant|identifier|declaration|type_specifier|enum_type_spec|struct_type_spec|union_type_spec|word_end|value)$)\w+$"], [LIT, DECL], (4000, 60000),
            "random definitions in random layouts, their prefixes, and texts made from them by deletions, insertions and repetitions, each compared with an independent parser"),
    "C20": (NAMES, [r"^Context::(find_const|find_enumerator|count_names|resolve_\w+)$", r"^gen_code::setup_context$"], [CONV, r"^Context::(is_cyclic_typedef|find_alias)$", r"^Declaration::name$"], (40000, 600000),
            "chains of constants and of enumerators of every length up to 40, with an end, with an undefined end and leading back; random constants, enums, structs and unions whose names refer to one another; the numbers in the generated code compared with an independent resolver"),
    "C25": (TEXT, [r"^gen_code::(upper_camel_case|capitalize|snake_case|with_underscore|upper_camel_case_ident|snake_case_ident)$"], [r"^keyword::rust_reserved$"], (20000, 400000),
            "all names of up to four characters over letters of both cases, digits and underscores, the words of both languages with what can stand around them, and random names, each as the name of a struct, a member, an enumerator and a union, in several places and with several options; the names in the generated code compared with the given one"),
    "C24": (GEN, [r"^gen_code::(setup_context|gen_code|\w+_token)$", r"^Context::(new|is_\w+|find_alias)$"],
            [r"^gen_code::(upper_camel_case|capitalize|snake_case|with_underscore|upper_camel_case_ident|snake_case_ident)$", r"^keyword::rust_reserved$", r"^Context::", r"^Declaration::name$", CONV], (2000, 40000),
            "chains, cycles and trees of typedefs, names that are reserved or no Rust names in every place, enums with extreme, repeated and negative values, unions over every kind of discriminant, and random definitions, prefixes and mutations of them, with every option: generate must give code or an error, in time"),
}

def main(prop):
    wd = f"{WORK}/{prop}"
    os.makedirs(wd, exist_ok=True)
    build_vx()
    specs, core, support, rounds, rule = P[prop]
    srcs = [(f"{REPO}/rpcgen/src/{f}.rs", f) for f in FILES]
    build_replay("rpc")
    rp = replay("rpc", prop, rounds[0 if TIER == "quick" else 1], literals([s for s, _ in srcs]), wd, timeout=300 if TIER == "quick" else 700)
    def run(tag, extra):
        go = lambda specs: verify(srcs, [f"{VERIF}/specs/{s}.vspec" for s in specs], wd, tag, ("--rpc", *extra), timeout=250)
        r = go(specs)
        if "rpc_seq" not in specs and "crate :: vxs ::" in "\n".join(r.lines):
            # the code walks through sequences: it needs the contracts of those
            r = go(specs[:1] + ["rpc_seq"] + specs[1:])
        return r
    decide(prop, run, core, support, LEM, rp,
           source="rpcgen/src/{" + ",".join(FILES) + "}.rs (functions reachable from the contracts)", rule=rule,
           extra_assume=["nom's primitives (tag, take_until, one_of, character classes, line endings, eof) and the std functions listed under trusted_base meet the contracts stated in specs/rpc_base.vspec; nom's combinators are written out by the extraction"])

if __name__ == "__main__":
    try:
        main(sys.argv[1])
    except Broken as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
