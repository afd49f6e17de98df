#!/usr/bin/env python3
"""Writes abi/*.json and src/gen.rs: the family of ABIs whose generated bindings C22 checks.

The output is committed; checks do not run this script."""
import itertools, json, os, re, shutil

here = os.path.dirname(os.path.abspath(__file__))
os.chdir(here)
shutil.rmtree("abi", ignore_errors=True)
os.mkdir("abi")


def rust(t):
    if t.endswith("]"):
        i = t.rindex("[")
        n = t[i + 1 : -1]
        inner = rust(t[:i])
        return "[%s; %s]" % (inner, n) if n else "Vec<%s>" % inner
    if t == "address":
        return "Address"
    if t == "bool":
        return "bool"
    if t == "string":
        return "String"
    if t == "bytes":
        return "Vec<u8>"
    if t == "bytes32":
        return "Hash"
    if t.startswith("bytes"):
        return "[u8; %s]" % t[5:]
    return "Uint"


def snake(name):
    """heck's snake case"""
    words = []
    for w in re.split(r"[^0-9A-Za-z]+", name):
        if not w:
            continue
        cur, mode = "", None
        for i, ch in enumerate(w):
            nxt = w[i + 1] if i + 1 < len(w) else ""
            nm = "l" if ch.islower() else "u" if ch.isupper() else mode
            if nxt and nm == "l" and nxt.isupper():
                words.append(cur + ch)
                cur, mode = "", None
                continue
            if cur and mode == "u" and ch.isupper() and nxt.islower():
                words.append(cur)
                cur = ""
            cur += ch
            mode = nm
        if cur:
            words.append(cur)
    return "_".join(words).lower()


def bindings(i):
    """The ways to ask for the bindings of one document."""
    pre = "#[allow(dead_code, unused_imports, unused_mut, unused_variables)]\npub mod c%d {\n" % i
    path = 'path = "abi/c%d.json"' % i
    if i % 4 == 1:
        return pre + "    /// Documented.\n    #[allow(dead_code)]\n    #[derive(ethabi_derive::EthabiContract)]\n    #[ethabi_contract_options(%s)]\n    struct Named;\n}\n" % path
    if i % 4 == 2:
        return pre + "    #[derive(ethabi_derive::EthabiContract)]\n    #[doc(hidden)]\n    #[ethabi_contract_options(%s, name = \"other\")]\n    /// After.\n    pub struct Other;\n}\n" % path
    if i % 4 == 3:
        return pre + "    #[derive(ethabi_derive::EthabiContract)]\n    #[ethabi_contract_options(flag, name = \"other\", %s)]\n    enum Empty {}\n}\n" % path
    return 'ethabi_contract::use_contract!(c%d, "abi/c%d.json");\n' % (i, i)


contracts = []


class Contract:
    def __init__(self):
        self.items = []
        self.fns = []
        self.ctor = None
        contracts.append(self)

    def fn(self, ins, outs, names=None, name=None, mut="nonpayable"):
        name = name or "fun%d" % len(self.fns)
        names = names or ["a%d" % i for i in range(len(ins))]
        self.items.append(
            {
                "type": "function",
                "name": name,
                "inputs": [{"name": n, "type": t} for n, t in zip(names, ins)],
                "outputs": [{"name": "" if i % 2 == 0 else "r%d" % i, "type": t} for i, t in enumerate(outs)],
                "stateMutability": mut,
            }
        )
        self.fns.append((name, ins, outs))

    def constructor(self, ins, names=None):
        names = names or ["a%d" % i for i in range(len(ins))]
        self.items.insert(0, {"type": "constructor", "inputs": [{"name": n, "type": t} for n, t in zip(names, ins)]})
        self.ctor = ins


kinds = ["address", "bytes", "bytes32", "bytes4", "int256", "uint256", "uint8", "bool", "string"]
elementary = (
    ["address", "bool", "string", "bytes"]
    + ["uint%d" % (8 * i) for i in range(1, 33)]
    + ["int%d" % (8 * i) for i in range(1, 33)]
    + ["bytes%d" % i for i in range(1, 33)]
)

# every elementary type, as argument and as result
c = Contract()
for t in elementary:
    c.fn([t], [t])
# every array type of up to three levels over the kinds
c = Contract()
for t in kinds:
    for s in ("[]", "[1]", "[2]", "[3]"):
        c.fn([t + s], [t + s])
c = Contract()
for t in kinds:
    for s in itertools.product(("[]", "[2]", "[1]"), ("[]", "[3]")):
        c.fn([t + "".join(s)], [t + "".join(s)])
c = Contract()
for t in ("uint256", "bytes", "bytes4", "bytes32"):
    for s in itertools.product(("[]", "[2]"), repeat=3):
        c.fn([t + "".join(s)], [t + "".join(s)])
c.fn(["uint256[40]"], ["uint256[40]"])
c.fn(["string[33]"], ["bytes32[33]"])
# every ordered pair of kinds, arrays included: arguments one way round, results the other
two = ["address", "bytes", "bytes32", "bytes4", "int256", "uint256", "bool", "string", "uint256[]", "bytes[2]"]
c = Contract()
for a, b in itertools.product(two, repeat=2):
    c.fn([a, b], [b, a])
three = ["uint256", "string", "bytes4[]", "bool[2]"]
c = Contract()
for x in itertools.product(three, repeat=3):
    c.fn(list(x), list(reversed(x)))
# arities, and names of every style
c = Contract()
c.fn([], [])
c.fn([], ["uint256"])
c.fn(["uint256"], [])
c.fn(["uint256"] * 8, ["uint256"] * 8)
c.fn(kinds, kinds)
c.fn(["uint256"] * 12, ["string"] * 12)
c.fn(["address", "address"], ["bool"], ["from", "toAddress"], "transferFrom", "view")
c.fn(["uint256", "uint256", "uint256"], [], ["", "", ""], "noNames", "pure")
c.fn(["uint256", "uint256", "uint256"], [], ["param2", "", "x"], "mixedNames", "payable")
c.fn(["uint256", "uint256"], [], ["_from", "_ToAddr"], "Upper_Case_Name")
c.fn(["uint256", "uint256"], ["uint256"], ["self", "v1"], "setURL2")
c.fn(["bytes", "string", "bytes"], ["uint256"], ["data", "tokens", "output"], "snake_case_name")
c.constructor([])
# longer lists, every combination of static and dynamic, and every kind in every place
c = Contract()
for x in itertools.product(("uint256", "string", "bool"), repeat=4):
    c.fn(list(x), list(x))
c = Contract()
for x in itertools.product(("bytes4", "bytes"), repeat=5):
    c.fn(list(x), list(x))
c = Contract()
mixed = ["uint256", "string", "bool", "bytes32", "uint8[2]", "address", "bytes[]", "int64", "bytes", "string[2]", "bytes3", "bool[]"]
for n in range(4, 13):
    for r in range(len(mixed)):
        x = [mixed[(i * 5 + r) % len(mixed)] for i in range(n)]
        c.fn(x, list(reversed(x)))
for t in kinds:
    for n in (4, 5, 7, 12):
        c.fn([t] * n, [t] * n)
# every elementary type in arrays
c = Contract()
for t in elementary:
    c.fn([t + "[]", t + "[2]"], [t + "[2]", t + "[]"])
# lengths of arrays
c = Contract()
for n in list(range(4, 35)) + [48, 64, 65, 100]:
    c.fn(["uint256[%d]" % n], ["bytes4[%d]" % n])
    c.fn(["string[%d]" % n, "bool"], ["string[%d]" % n, "bool"])
    c.fn(["bytes32[][%d]" % n], ["uint8[%d][]" % n])
# deep arrays
c = Contract()
for t in kinds:
    for s in itertools.product(("[]", "[2]"), repeat=3):
        c.fn(["bool", t + "".join(s)], [t + "".join(s), "bool"])
for t in ("uint256", "string"):
    for s in itertools.product(("[]", "[2]"), repeat=4):
        c.fn([t + "".join(s)], [t + "".join(s)])
    c.fn([t + "[]" * 7], [t + "[]" * 7])
    c.fn([t + "[1]" * 7], [t + "[1]" * 7])
# names, mutability, and everything else a document can hold
c = Contract()
for n in ["a", "B", "x1", "x1y2", "getX", "getID", "doIt2Times", "_leading", "trailing_", "a_b_c", "double__under", "ALLCAPS", "Mixed_Case", "erc20", "balanceOf", "new_", "Vec", "Option", "ethabi", "decoder", "tokens", "output", "out", "string", "uint256", "result", "INTERNAL_ERR", "getx", "getid", "balanceof", "aBc", "Abc", "AbC", "doit2times", "mixedcase", "x_1"]:
    c.fn(["uint256", "string"], ["string", "uint256"], ["tokens_", "_x"], n)
for i, names in enumerate((["out", "output"], ["T0", "T1"], ["inner", "iter"], ["v", "log"], ["u0", "U1"], ["value_", "__v"], ["aB", "aC"], ["Selfie", "selfish"], ["param2", ""], ["x9", "x10"], ["result", "e"], ["ethabi", "tokens"])):
    c.fn(["uint256[]", "string[2]"], ["uint256[2]", "bool"], names, "named%d" % i)
for m in ("pure", "view", "nonpayable", "payable"):
    for k in (True, False):
        c.fn(["uint256"], ["bool"], None, "mut%s%s" % (m.capitalize(), k), m)
        c.items[-1]["constant"] = k
c.items.append({"type": "fallback"})
c.items.append({"type": "receive"})
c.items.append({"type": "event", "name": "Some", "inputs": [{"name": "a", "type": "uint256", "indexed": True}], "anonymous": False})
c.items.append({"type": "event", "name": "Fun", "inputs": [], "anonymous": False})
c.constructor(["uint256", "string[]"])
# constructors
for x in itertools.product(("uint256", "string"), repeat=4):
    Contract().constructor(list(x))
for n in range(5, 13):
    Contract().constructor([mixed[(i * 5 + n) % len(mixed)] for i in range(n)])
for x in itertools.product(("address", "bytes", "bytes4", "bool[2]", "string[]"), repeat=2):
    Contract().constructor(list(x))
for t in elementary[4:]:
    Contract().constructor([t])
for t in kinds + ["uint256[]", "address[2]", "bytes[]", "string[2]", "bytes4[2][]", "uint256[][2]"]:
    Contract().constructor([t])
for x in (("uint256", "string"), ("string", "uint256"), ("bytes4", "bytes32", "bytes"), ("bool[]", "bool[2]", "bool"), tuple(kinds)):
    Contract().constructor(list(x))
Contract().constructor(["uint256", "uint256", "address"], ["", "_initial", "ownerAddress"])
Contract()

with open("src/gen.rs", "w") as o:
    o.write("// Written by gen.py; do not edit.\n#![allow(unused_variables)]\nuse super::*;\n\n")
    for i, c in enumerate(contracts):
        with open("abi/c%d.json" % i, "w") as f:
            f.write("[\n" + ",\n".join(" " + json.dumps(x) for x in c.items) + "\n]\n")
        o.write(bindings(i))
    o.write("\npub const ABIS: &[&[u8]] = &[\n")
    for i, c in enumerate(contracts):
        o.write('    include_bytes!("../abi/c%d.json"),\n' % i)
    o.write("];\n\n")
    n = 0
    table = []
    for i, c in enumerate(contracts):
        for k, (name, ins, outs) in enumerate(c.fns):
            m = "c%d::functions::%s" % (i, snake(name))
            args = ", ".join("arg::<%s>(v, %d)" % (rust(t), j) for j, t in enumerate(ins))
            pat = "()" if not outs else "o0" if len(outs) == 1 else "(" + ", ".join("o%d" % j for j in range(len(outs))) + ")"
            tyl = "()" if not outs else rust(outs[0]) if len(outs) == 1 else "(" + ", ".join(rust(t) for t in outs) + ")"
            res = "vec![" + ", ".join("o%d.to_val(&t[%d])" % (j, j) for j in range(len(outs))) + "]"
            o.write("fn u%d(r: ethabi::Result<%s>, t: &[Ty]) -> Out { r.map(|%s| %s).map_err(|e| e.to_string()) }\n" % (n, tyl, pat, res))
            o.write("fn e%d(v: &[Val]) -> Vec<u8> { %s::encode_input(%s) }\n" % (n, m, args))
            o.write("fn d%d(d: &[u8], t: &[Ty]) -> Out { u%d(%s::decode_output(d), t) }\n" % (n, n, m))
            o.write(
                "fn k%d(v: &[Val], d: &[u8], t: &[Ty]) -> (Vec<u8>, Out) { let (i, dec) = %s::call(%s); (i, u%d(ethabi::FunctionOutputDecoder::decode(&dec, d), t)) }\n"
                % (n, m, args, n)
            )
            table.append('    FnCase { contract: %d, name: "%s", encode: e%d, decode: d%d, call: k%d },' % (i, name, n, n, n))
            n += 1
    o.write("\npub const FNS: &[FnCase] = &[\n" + "\n".join(table) + "\n];\n\n")
    table = []
    for i, c in enumerate(contracts):
        if c.ctor is not None:
            args = "".join(", arg::<%s>(v, %d)" % (rust(t), j) for j, t in enumerate(c.ctor))
            o.write("fn c%dx(code: Vec<u8>, v: &[Val]) -> Vec<u8> { c%d::constructor(code%s) }\n" % (i, i, args))
            table.append("    CtorCase { contract: %d, encode: c%dx }," % (i, i))
    o.write("\npub const CTORS: &[CtorCase] = &[\n" + "\n".join(table) + "\n];\n")
print(n, "functions,", len(table), "constructors,", len(contracts), "contracts")
