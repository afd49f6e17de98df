#!/usr/bin/env python3
"""Writes abi/*.json and src/gen.rs: the family of ABIs whose generated bindings C23 checks.

The output is committed; checks do not run this script."""
import itertools, json, os, re, shutil

here = os.path.dirname(os.path.abspath(__file__))
os.chdir(here)
shutil.rmtree("abi", ignore_errors=True)
os.mkdir("abi")


def rust(t):
    if t.endswith("]"):
        i = t.rindex("[")
        n = t[i + 1 : -1]
        inner = rust(t[:i])
        return "[%s; %s]" % (inner, n) if n else "Vec<%s>" % inner
    if t == "address":
        return "Address"
    if t == "bool":
        return "bool"
    if t == "string":
        return "String"
    if t == "bytes":
        return "Vec<u8>"
    if t == "bytes32":
        return "Hash"
    if t.startswith("bytes"):
        return "[u8; %s]" % t[5:]
    return "Uint"


def hashed(t):
    return t in ("string", "bytes") or t.endswith("]")


def snake(name):
    """heck's snake case"""
    words = []
    for w in re.split(r"[^0-9A-Za-z]+", name):
        if not w:
            continue
        cur, mode = "", None
        for i, ch in enumerate(w):
            nxt = w[i + 1] if i + 1 < len(w) else ""
            nm = "l" if ch.islower() else "u" if ch.isupper() else mode
            if nxt and nm == "l" and nxt.isupper():
                words.append(cur + ch)
                cur, mode = "", None
                continue
            if cur and mode == "u" and ch.isupper() and nxt.islower():
                words.append(cur)
                cur = ""
            cur += ch
            mode = nm
        if cur:
            words.append(cur)
    return "_".join(words).lower()


def bindings(i):
    """The ways to ask for the bindings of one document."""
    pre = "#[allow(dead_code, unused_imports, unused_mut, unused_variables)]\npub mod c%d {\n" % i
    path = 'path = "abi/c%d.json"' % i
    if i % 4 == 1:
        return pre + "    /// Documented.\n    #[allow(dead_code)]\n    #[derive(ethabi_derive::EthabiContract)]\n    #[ethabi_contract_options(%s)]\n    struct Named;\n}\n" % path
    if i % 4 == 2:
        return pre + "    #[derive(ethabi_derive::EthabiContract)]\n    #[doc(hidden)]\n    #[ethabi_contract_options(%s, name = \"other\")]\n    /// After.\n    pub struct Other;\n}\n" % path
    if i % 4 == 3:
        return pre + "    #[derive(ethabi_derive::EthabiContract)]\n    #[ethabi_contract_options(flag, name = \"other\", %s)]\n    enum Empty {}\n}\n" % path
    return 'ethabi_contract::use_contract!(c%d, "abi/c%d.json");\n' % (i, i)


contracts = []
count = 0


class Contract:
    def __init__(self):
        self.evs = []
        contracts.append(self)

    def ev(self, ins, anon=False, names=None, name=None, mod=None, camel=None):
        """ins: list of (type, indexed)"""
        global count
        name = name or "Evt%d" % count
        count += 1
        names = names or ["p%d" % i for i in range(len(ins))]
        self.evs.append((name, ins, anon, names, mod or snake(name), camel or name))


kinds = ["address", "bytes", "bytes32", "bytes4", "int256", "uint8", "uint256", "bool", "string"]
arrays = ["uint256[]", "bytes[]", "string[2]", "uint256[2]", "bytes4[2][]", "uint256[][2]", "bytes32[3]", "bool[1]", "address[]", "string[][]"]
elementary = (
    ["address", "bool", "string", "bytes"]
    + ["uint%d" % (8 * i) for i in range(1, 33)]
    + ["int%d" % (8 * i) for i in range(1, 33)]
    + ["bytes%d" % i for i in range(1, 33)]
)
c = Contract()
for t in elementary:
    c.ev([(t, True)])
    c.ev([(t, False)])
c = Contract()
for t in kinds + arrays:
    for ix in (True, False):
        for anon in (True, False):
            c.ev([(t, ix)], anon)
two = ["address", "bytes", "bytes4", "uint256", "string", "bool", "uint256[]", "string[2]"]
c = Contract()
for a, b in itertools.product(two, repeat=2):
    for x, y in itertools.product((True, False), repeat=2):
        c.ev([(a, x), (b, y)])
three = ["uint256", "string", "bool[2]"]
c = Contract()
for ts in itertools.product(three, repeat=3):
    for ix in itertools.product((True, False), repeat=3):
        c.ev(list(zip(ts, ix)), anon=(sum(ix) + len(ts[0])) % 3 == 0)
# five parameters, three indexed in every position
c = Contract()
for pos in itertools.combinations(range(5), 3):
    c.ev([(t, i in pos) for i, t in enumerate(("uint256", "string", "uint256", "bytes", "uint256"))])
    c.ev([(t, i in pos) for i, t in enumerate(("address", "address", "bytes32", "bytes32", "bool"))], anon=True)
# four parameters, everything indexed or not, static and dynamic
c = Contract()
for ts in itertools.product(("uint256", "string"), repeat=4):
    for ix in itertools.product((True, False), repeat=4):
        if sum(ix) <= 3:
            c.ev(list(zip(ts, ix)), anon=(sum(ix) + len(ts[1])) % 4 == 0)
# four indexed parameters, which only anonymous events can have
c = Contract()
for ts in (("uint256", "string", "bool", "address"), ("bytes32",) * 4, ("string",) * 4, ("bool[2]", "uint8", "bytes", "bytes4")):
    c.ev([(t, True) for t in ts], anon=True)
    for gap in range(5):
        ins = [(t, True) for t in ts]
        ins.insert(gap, (ts[gap % 4], False))
        c.ev(ins, anon=True)
# longer lists
mixed = ["uint256", "string", "bool", "bytes32", "uint8[2]", "address", "bytes[]", "int64", "bytes", "string[2]", "bytes3", "bool[]"]
c = Contract()
for n in range(5, 13):
    for r in range(len(mixed)):
        c.ev([(mixed[(i * 5 + r) % len(mixed)], (i + r) % 4 == 1 and i < 11) for i in range(n)], anon=r % 3 == 0)
# every elementary type in arrays, indexed and not, and beside an indexed value of its own type
c = Contract()
for t in elementary:
    c.ev([(t + "[]", True), (t + "[2]", False)])
    c.ev([(t + "[2]", True), (t, False), (t, True)])
# lengths and depths of arrays
c = Contract()
for n in list(range(3, 35)) + [48, 64, 65, 100]:
    c.ev([("uint256[%d]" % n, False), ("bool", True)])
    c.ev([("uint256[%d]" % n, True), ("bool", False)])
    c.ev([("string[%d]" % n, False), ("bytes32[%d][]" % n, True)])
for t in ("uint256", "string", "bytes4"):
    for s in itertools.product(("[]", "[2]"), repeat=3):
        c.ev([(t + "".join(s), False), ("bool", False)])
        c.ev([(t + "".join(s), True), ("bool", False)])
# names
c = Contract()
for n, cm in (("A", None), ("X1", None), ("Transfer", None), ("OwnershipTransferred", None), ("Erc20", None), ("Vec", None), ("Option", None), ("Result", None), ("Filter", None), ("EventX", None), ("Raw", None), ("Topic", None)):
    c.ev([("uint256", True), ("string", False)], name=n, camel=cm)
for i, names in enumerate((["T0", "u0"], ["inner", "iter"], ["i", "v"], ["aB", "aC"], ["_x", "y_"], ["topic0", "topic1"], ["ALL", "Caps"], ["x9", "x10"], ["name_", "value"], ["ethabi", "log"], ["out", "tokens"])):
    c.ev([("uint256", True), ("string", False)], names=names)
    c.ev([("uint256[2]", False), ("bytes4", True)], names=names)
    c.ev([("uint256[]", True), ("bytes4", True)], names=names)
# names
c = Contract()
c.ev([])
c.ev([], True)
c.ev([("uint256", True), ("uint256", False), ("uint256", True), ("uint256", False)], names=["", "", "", ""])
c.ev([("uint256", False), ("uint256", True), ("uint256", True), ("uint256", False)], names=["param3", "", "topic9", "x"])
c.ev([("address", True), ("address", True), ("uint256", False)], names=["_from", "toAddress", "Value"], name="Transfer")
c.ev([("string", True), ("string", False)], names=["raw", "log"], name="NameChanged")
c.ev([("bytes", True), ("bytes32", True)], names=["result", "e"], name="HashSet")
c.ev([("uint256", True)], True, name="lower_anonymous", camel="LowerAnonymous")
# event names that are not in camel case themselves
c.ev([("uint256", True), ("string", False)], name="transfer", camel="Transfer", mod="transfer")
contracts[-1].evs.pop()
c = Contract()
c.ev([("uint256", True), ("string", False)], name="transfer", camel="Transfer")
c.ev([("uint256", True), ("string", False)], name="snake_case", camel="SnakeCase")
c.ev([("uint256", True), ("string", False)], name="NFTMinted", camel="NftMinted", mod="nft_minted")
c.ev([("uint256", True), ("string", False)], name="Log_Note", camel="LogNote", mod="log_note")

with open("src/gen.rs", "w") as o:
    o.write("// Written by gen.py; do not edit.\nuse super::*;\n\n")
    for i, c in enumerate(contracts):
        items = [
            {"type": "event", "name": n, "anonymous": anon, "inputs": [{"name": p, "type": t, "indexed": ix} for (t, ix), p in zip(ins, names)]}
            for n, ins, anon, names, mod, camel in c.evs
        ]
        with open("abi/c%d.json" % i, "w") as f:
            f.write("[\n" + ",\n".join(" " + json.dumps(x) for x in items) + "\n]\n")
        o.write(bindings(i))
    o.write("\npub const ABIS: &[&[u8]] = &[\n")
    for i, c in enumerate(contracts):
        o.write('    include_bytes!("../abi/c%d.json"),\n' % i)
    o.write("];\n\n")
    n = 0
    table = []
    for i, c in enumerate(contracts):
        for name, ins, anon, names, mod, camel in c.evs:
            m = "c%d::events::%s" % (i, mod)
            fields = [snake(p) if p else ("topic%d" if ix else "param%d") % j for j, ((t, ix), p) in enumerate(zip(ins, names))]
            pat = "c%d::logs::%s { %s }" % (i, camel, ", ".join("%s: f%d" % (f, j) for j, f in enumerate(fields)))
            res = "vec![" + ", ".join(
                "f%d.to_val(&t[%d])" % (j, j) if not (ix and hashed(t)) else "hash(f%d)" % j for j, (t, ix) in enumerate(ins)
            ) + "]"
            o.write("fn p%d(l: RawLog, %s: &[Ty]) -> Out { %s::parse_log(l).map(|l| { let %s = l; %s }).map_err(|e| e.to_string()) }\n"
                    % (n, "t" if "t[" in res else "_", m, pat, res))
            ixs = [t for t, ix in ins if ix]
            args = ", ".join("con::<%s>(c, %d)" % (rust(t), j) for j, t in enumerate(ixs))
            o.write("fn f%d(%s: &[Tp<Val>]) -> TopicFilter { %s::filter(%s) }\n" % (n, "c" if args else "_", m, args))
            table.append('    EvCase { contract: %d, name: "%s", camel: "%s", parse: p%d, filter: f%d, wildcard: %s::wildcard_filter, event: %s::event },' % (i, name, camel, n, n, m, m))
            n += 1
    o.write("\npub const EVS: &[EvCase] = &[\n" + "\n".join(table) + "\n];\n")
print(n, "events,", len(contracts), "contracts")
