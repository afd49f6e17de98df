//! C07 selectors and event signatures; C08 type names round-trip; C09 type-name parsing is total.

use super::codec::function;
use ethabi::param_type::{Reader, Writer};
use mc::engine::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;
use std::sync::Arc;

fn check_name(cx: &mut Cx, t: &Ty) -> Res {
    let n = t.name();
    let p = t.real();
    cx.state(&[n.as_bytes()]);
    cx.sample(|| n.clone());
    let w = cx.guard(|| (Writer::write(&p), p.to_string(), Writer::write_for_abi(&p, true), Writer::write_for_abi(&p, false)));
    let w = w.map_err(|m| format!("writing {}: {}", n, m))?;
    if w.0 != n || w.1 != n || w.2 != n {
        return Err(format!("canonical name of {} written as {:?}", n, w));
    }
    if w.3 != t.json_name() {
        return Err(format!("JSON name of {} written as {}", n, w.3));
    }
    let r = cx.guard(|| Reader::read(&n)).map_err(|m| format!("reading {}: {}", n, m))?;
    match r {
        Ok(r) => {
            let r = Ty::from_real(&r);
            if r != *t {
                return Err(format!("{} read as {}", n, r.name()));
            }
        }
        Err(e) => return Err(format!("{} not read: {}", n, e)),
    }
    let js = serde_json::to_string(&n).unwrap();
    let r = cx
        .guard(|| serde_json::from_str::<ethabi::ParamType>(&js).map_err(|e| e.to_string()))
        .map_err(|m| format!("deserializing {}: {}", n, m))?;
    match r {
        Ok(r) if Ty::from_real(&r) == *t => {}
        o => return Err(format!("{} deserialized as {:?}", n, o)),
    }
    let d = cx.guard(|| p.is_dynamic()).map_err(|m| format!("is_dynamic {}: {}", n, m))?;
    if d != t.is_dyn() {
        return Err(format!("{} reported as {}", n, if d { "dynamic" } else { "static" }));
    }
    cx.outcome("round-tripped");
    Ok(())
}

pub fn c08(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = t.pick(8, 9);
    v.push(space("shapes", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Str], &[2, 13]);
        check_name(cx, &ty)
    }));
    let n = t.pick(4, 5);
    v.push(space("kinds", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &leaf_kinds(), &[1, 10]);
        check_name(cx, &ty)
    }));
    let els = Arc::new(elementary());
    v.push(space("elementary", 0, move |cx| {
        let t = cx.pick(&els).clone();
        let t = match cx.choose(7) {
            0 => t,
            1 => arr(t),
            2 => farr(t, [1, 2, 9, 10, 32, 99, 100, 255, 256, 1000, 1 << 20][cx.choose(11)]),
            3 => tup(&[t]),
            4 => tup(&[t.clone(), t]),
            5 => arr(tup(&[Ty::Bool, tup(&[t.clone(), arr(t)]), Ty::Str])),
            _ => tup(&[farr(arr(t.clone()), 4), tup(&[tup(&[t])])]),
        };
        check_name(cx, &t)
    }));
    let k = 201;
    v.push(space("deep", 0, move |cx| {
        let mut t = cx.pick(&[Ty::Uint(8), Ty::Bytes]).clone();
        let n = cx.choose(k);
        let how = cx.choose(4);
        for i in 0..n {
            t = match (how, i % 3) {
                (0, _) => arr(t),
                (1, _) => tup(&[t]),
                (2, 0) | (3, 2) => tup(&[Ty::Bool, t, Ty::Addr]),
                (2, 1) => arr(t),
                (2, _) | (3, 0) => farr(t, 3),
                _ => tup(&[t, arr(Ty::Str)]),
            }
        }
        check_name(cx, &t)
    }));
    // every length of a fixed-size array, and every pair of small ones
    let m = t.pick(1100, 5000);
    v.push(space("array-sizes", 0, move |cx| {
        let (a, b) = if cx.flag() { (1 + cx.choose(m), 1) } else { (1 + cx.choose(40), 1 + cx.choose(40)) };
        let ty = match cx.choose(4) {
            0 => farr(Ty::Uint(16), a),
            1 => farr(farr(Ty::Bool, b), a),
            2 => tup(&[farr(arr(Ty::Str), a), farr(Ty::FBytes(9), b)]),
            _ => arr(farr(tup(&[Ty::Addr, Ty::Int(8)]), a)),
        };
        check_name(cx, &ty)
    }));
    // arrays of no items: of dynamic items, they are dynamic
    v.push(space("no-items", 0, move |cx| {
        let l = cx.pick(&[Ty::Uint(256), Ty::Bool, Ty::Str, Ty::Bytes, arr(Ty::Bool), tup(&[Ty::Bool]), tup(&[Ty::Bool, Ty::Str]), farr(Ty::Str, 2), farr(Ty::Addr, 2)]).clone();
        let dynamic = l.is_dyn();
        let (ty, dynamic) = match cx.choose(5) {
            0 => (farr(l, 0), dynamic),
            1 => (farr(farr(l, 0), 3), dynamic),
            2 => (tup(&[Ty::Bool, farr(l, 0)]), dynamic),
            3 => (farr(farr(l, 2), 0), dynamic),
            _ => (arr(farr(l, 0)), true),
        };
        let n = ty.name();
        cx.state(&[n.as_bytes()]);
        let p = ty.real();
        let (d, w, r) = cx.guard(|| (p.is_dynamic(), p.to_string(), Reader::read(&n))).map_err(|m| format!("{}: {}", n, m))?;
        if d != dynamic {
            return Err(format!("{} reported as {}", n, if d { "dynamic" } else { "static" }));
        }
        match r {
            Ok(r) if Ty::from_real(&r) == ty && w == n => Ok(()),
            o => Err(format!("{} written as {} and read as {:?}", n, w, o)),
        }
    }));
    // tuples of many members
    let m = t.pick(70, 300);
    v.push(space("tuple-sizes", 0, move |cx| {
        let n = count(cx, m, 1024).max(1);
        let how = cx.choose(3);
        let ts: Vec<Ty> = (0..n).map(|i| match how { 0 => Ty::Bool, 1 => Ty::Uint(8 * (1 + i % 32)), _ => [arr(Ty::Str), tup(&[Ty::Bytes, Ty::Bool]), farr(Ty::Addr, 1 + i)][i % 3].clone() }).collect();
        let ty = match cx.choose(3) {
            0 => tup(&ts),
            1 => arr(tup(&ts)),
            _ => tup(&[Ty::Bool, tup(&ts), Ty::Str]),
        };
        check_name(cx, &ty)
    }));
    // one member unlike the others, at every place of a tuple: whether a type is dynamic depends on all of it
    let m = t.pick(24, 60);
    v.push(space("odd-member", 0, move |cx| {
        let ty = odd_member(cx, m);
        check_name(cx, &ty)
    }));
    // the aliases
    v.push(space("aliases", 0, move |cx| {
        let (a, t) = cx.pick(&[("uint", Ty::Uint(256)), ("int", Ty::Int(256))]).clone();
        let (s, t) = match cx.choose(6) {
            0 => (a.to_string(), t),
            1 => (format!("{}[]", a), arr(t)),
            2 => (format!("{}[3][]", a), arr(farr(t, 3))),
            3 => (format!("({})", a), tup(&[t])),
            4 => (format!("(bool,{})[2]", a), farr(tup(&[Ty::Bool, t]), 2)),
            _ => (format!("(({},{}),{}[])", a, a, a), tup(&[tup(&[t.clone(), t.clone()]), arr(t)])),
        };
        cx.state(&[s.as_bytes()]);
        let r = cx.guard(|| Reader::read(&s)).map_err(|m| format!("{}: {}", s, m))?;
        match r {
            Ok(r) if Ty::from_real(&r) == t => Ok(()),
            o => Err(format!("{} read as {:?}", s, o)),
        }
    }));
    v
}

const WORDS: &[&str] = &[
    "address", "bool", "string", "bytes", "int", "uint", "tuple", "function", "fixed", "ufixed", "struct", "enum", "mapping", "byte", "contract", "uint8", "uint256", "int64", "bytes1",
    "bytes32", "hash", "float", "array", "Address", "BOOL", "addr", "str", "u256", "i8", "word", "event", "error", "none", "",
];

/// How deeply types are nested.
fn depth(t: &Ty) -> usize {
    match t {
        Ty::Arr(t) | Ty::FArr(t, _) => 1 + depth(t),
        Ty::Tup(ts) => 1 + ts.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// Deeper nesting than this may be refused.
const DEEP: usize = 200;

fn check_parse(cx: &mut Cx, s: &str) -> Res {
    let want = match parse_name(s) {
        Named::Must(t) if depth(&t) > DEEP => Named::May(t),
        w => w,
    };
    cx.state(&[s.as_bytes()]);
    cx.sample(|| format!("{:?} -> {:?}", s, want));
    let r = cx.guard(|| Reader::read(s)).map_err(|m| format!("reading type name {:?}: {}", s, m))?;
    match (&want, &r) {
        (Named::Must(t), Ok(p)) if Ty::from_real(p) == *t => cx.outcome("accepted"),
        (Named::Reject, Err(_)) => cx.outcome("rejected"),
        (Named::May(_), Err(_)) => cx.outcome("odd-rejected"),
        (Named::May(t), Ok(p)) if Ty::from_real(p) == *t => cx.outcome("odd-accepted"),
        _ => return Err(format!("type name {:?} gives {:?}, expected {:?}", s, r, want)),
    }
    // the same through JSON
    let js = serde_json::to_string(s).unwrap();
    let d = cx
        .guard(|| serde_json::from_str::<ethabi::ParamType>(&js).ok())
        .map_err(|m| format!("deserializing type name {:?}: {}", s, m))?;
    if d != r.ok() {
        return Err(format!("type name {:?} means different things to the reader and to JSON ({:?})", s, d));
    }
    Ok(())
}

pub fn c09(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = t.pick(6, 7);
    v.push(space("token-strings", 0, move |cx| {
        let al = ["uint8", "bytes", "uint", "(", ")", "[", "]", ",", "2", "[]", "\u{e9}", "tuple", "0", "-", "bool"];
        let k = cx.choose(n + 1);
        let mut s = String::new();
        for _ in 0..k {
            s.push_str(cx.pick(&al));
        }
        check_parse(cx, &s)
    }));
    // brackets and parentheses only, longer
    let n = t.pick(9, 10);
    v.push(space("bracket-strings", 0, move |cx| {
        let al = ["int8", "(", ")", "[", "]", ","];
        let k = cx.choose(n + 1);
        let mut s = String::new();
        for _ in 0..k {
            s.push_str(cx.pick(&al));
        }
        check_parse(cx, &s)
    }));
    let n = t.pick(5, 6);
    v.push(space("char-strings", 0, move |cx| {
        let al: Vec<char> = "(),[]019+- iub\u{e9}\u{20ac}\0".chars().collect();
        let k = cx.choose(n + 1);
        let s: String = (0..k).map(|_| *cx.pick(&al)).collect();
        check_parse(cx, &s)
    }));
    // numbers after a base name or in brackets
    v.push(space("numbers", 0, move |cx| {
        let b = *cx.pick(&["uint", "int", "bytes", "uint8[", "string[", "(bool)["]);
        let k = cx.choose(4);
        let al = ["0", "1", "8", "9", "2", "5", "6", "+", "-", " ", "_", ".", "a", "\u{661}"];
        let mut d: String = (0..k).map(|_| *cx.pick(&al)).collect();
        if k == 0 {
            d = cx.pick(&["18446744073709551615", "18446744073709551616", "4294967296", "99999999999999999999999", "256", "257", "", "32", "33", "64"]).to_string();
        }
        let s = format!("{}{}{}", b, d, if b.ends_with('[') { "]" } else { "" });
        check_parse(cx, &s)
    }));
    v.push(space("number-spellings", 0, move |cx| {
        let b = *cx.pick(&["uint", "int", "bytes", "uint8[", "string[", "(bool)["]);
        let d = *cx.pick(&["0", "1", "2", "8", "16", "32", "256", "1000"]);
        let d = format!("{}{}{}", cx.pick(BEFORE), d, cx.pick(AFTER));
        let s = format!("{}{}{}", b, d, if b.ends_with('[') { "]" } else { "" });
        check_parse(cx, &s)
    }));
    // one or two edits away from a valid name
    let (n, edits) = t.pick((4, 2), (5, 2));
    v.push(space("edited-names", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(8), Ty::Bytes], &[2]);
        let mut c: Vec<char> = ty.name().chars().collect();
        for _ in 0..edits {
            let al: Vec<char> = "(),[]2x\u{e9}".chars().collect();
            let i = cx.choose(c.len() + 1);
            match cx.choose(3) {
                0 => {
                    if i < c.len() {
                        c.remove(i);
                    }
                }
                1 => c.insert(i, *cx.pick(&al)),
                _ => {
                    if i < c.len() {
                        c[i] = *cx.pick(&al)
                    }
                }
            }
        }
        let s: String = c.into_iter().collect();
        check_parse(cx, &s)
    }));
    // words that are, or look like, type names, with something before, after or inside them
    v.push(space("words", 0, move |cx| {
        let w = *cx.pick(WORDS);
        let near: Vec<char> = "_-. 0189aAtxSs[](),:;*$#\u{e9}".chars().collect();
        let add: String = match cx.choose(3) {
            0 => (cx.choose(128) as u8 as char).to_string(),
            1 => (0..2).map(|_| *cx.pick(&near)).collect(),
            _ => cx.pick(&["", "8", "256", "[]", "_array", "(uint8)", "Array", "[2]", " memory", " payable", "128x18", " X", "(bool)[]", "\u{20ac}", "\u{1f600}"]).to_string(),
        };
        let s = match cx.choose(4) {
            0 => format!("{}{}", w, add),
            1 => format!("{}{}", add, w),
            2 => {
                let i = cx.choose(w.len() + 1);
                format!("{}{}{}", &w[..i], add, &w[i..])
            }
            _ => {
                let i = cx.choose(w.len() + 1);
                let j = (i + 1).min(w.len());
                format!("{}{}{}", &w[..i], add, &w[j..])
            }
        };
        let s = match cx.choose(4) {
            0 => s,
            1 => format!("{}[]", s),
            2 => format!("({},bool)", s),
            _ => format!("{}[3]", s),
        };
        check_parse(cx, &s)
    }));
    // every pair of words, glued together in every way
    v.push(space("word-pairs", 0, move |cx| {
        let s = format!("{}{}{}", cx.pick(WORDS), cx.pick(&["", " ", ",", "_", "[]", "(", ")", "[", "."]), cx.pick(WORDS));
        let s = match cx.choose(4) {
            0 => s,
            1 => format!("({})", s),
            2 => format!("{})", s),
            _ => format!("{}]", s),
        };
        check_parse(cx, &s)
    }));
    let n = t.pick(140, 300);
    v.push(space("deep", 0, move |cx| {
        let k = cx.choose(n);
        let j = match cx.choose(3) {
            0 => k,
            1 => k + 1,
            _ => k.saturating_sub(1),
        };
        let s = match cx.choose(5) {
            0 => format!("{}bool{}", "(".repeat(k), ")".repeat(j)),
            1 => format!("bool{}{}", "[".repeat(k), "]".repeat(j)),
            2 => format!("bool{}{}", "[]".repeat(k), "[3]".repeat(j)),
            3 => format!("{}bool{}", "(".repeat(k), ",int)[]".repeat(j)),
            _ => format!("({})", "bool,".repeat(k)),
        };
        check_parse(cx, &s)
    }));
    // nested so deeply that a recursive reader without a limit runs out of stack: refused, or
    // read as what it says
    v.push(space("bottomless", 0, move |cx| {
        let k = *cx.pick(&[201usize, 500, 1000, 10_000, 100_000, 1_000_000]);
        let (s, name) = match cx.choose(12) {
            0 => (format!("bool{}", "[]".repeat(k)), true),
            1 => (format!("bool{}", "[7]".repeat(k)), true),
            2 => (format!("{}bool{}", "(".repeat(k), ")".repeat(k)), true),
            3 => (format!("bool{}", "[]".repeat(k - 1) + "]"), false),
            4 => (format!("bool{}", "[".repeat(k)), false),
            5 => (format!("{}bool", "(".repeat(k)), false),
            6 => (format!("bool{}", ")".repeat(k)), false),
            7 => (format!("{}{}", "(".repeat(k), ")".repeat(k)), true),
            8 => (format!("x{}", "[]".repeat(k)), false),
            9 => (format!("{}bool{}", "(".repeat(k), ",int8)[]".repeat(k)), true),
            10 => (format!("({})", ",".repeat(k)), false),
            _ => (format!("({}bool)", "bool,".repeat(k)), true),
        };
        // quadratic by nature in some readers
        if k > 100_000 && s.starts_with("((") && name {
            return cx.prune();
        }
        cx.state(&[s.as_bytes()]);
        let what = || format!("type name of {} characters {:?}...", s.len(), clip(&s, 20));
        cx.sample(what);
        let r = cx.guard_small(|| Reader::read(&s)).map_err(|m| format!("{}: {}", what(), m))?;
        let doc = format!(r#"[{{"type":"constructor","inputs":[{{"name":"a","type":"{}"}}]}}]"#, s);
        let d = cx.guard_small(|| ethabi::Contract::load(doc.as_bytes()).is_ok()).map_err(|m| format!("loading a {}: {}", what(), m))?;
        if d != r.is_ok() && !s.contains('(') {
            return Err(format!("{} means different things to the reader and in a document", what()));
        }
        match r {
            Ok(_) if !name => return Err(format!("{} was accepted", what())),
            Ok(p) => {
                // writing it is as deep
                let w = if k <= 1000 || s.starts_with("(bool") { p.to_string() == s } else { true };
                std::mem::forget(p);
                if !w {
                    return Err(format!("{} was read as something else", what()));
                }
                cx.outcome("accepted")
            }
            Err(_) if s.starts_with("(bool") => return Err(format!("{} was refused", what())),
            Err(_) => cx.outcome("refused"),
        }
        Ok(())
    }));
    v
}

// ---- C07 --------------------------------------------------------------------------------------

pub fn event(name: &str, ts: &[(Ty, bool)], anonymous: bool) -> ethabi::Event {
    ethabi::Event {
        name: name.into(),
        inputs: ts
            .iter()
            .enumerate()
            .map(|(i, (t, x))| ethabi::EventParam { name: format!("p{}", i), kind: t.real(), indexed: *x })
            .collect(),
        anonymous,
    }
}

fn check_sel(cx: &mut Cx, name: &str, ts: &[Ty]) -> Res {
    let sig = signature(name, ts);
    let h = keccak(sig.as_bytes());
    cx.state(&[sig.as_bytes()]);
    cx.sample(|| format!("{} -> {}", sig, hexs(&h)));
    let mut g = Vg::new();
    g.lens = &[0];
    g.blens = &[0];
    g.extremes = false;
    let toks = toks(&g.vals(cx, ts));
    let f = function(name, ts, &[Ty::Bool]);
    let r = cx.guard(|| f.encode_input(&toks)).map_err(|m| format!("{}: {}", sig, m))?;
    match r {
        Ok(b) if b.len() >= 4 && b[..4] == h[..4] => {}
        o => return Err(format!("call of {}: {:?}, selector should be {}", sig, o.map(|b| hexs(&b)), hexs(&h[..4]))),
    }
    for anon in [false, true] {
        for ix in [false, true] {
            let e = event(name, &ts.iter().enumerate().map(|(i, t)| (t.clone(), ix && i % 2 == 0)).collect::<Vec<_>>(), anon);
            let r = cx.guard(|| e.signature()).map_err(|m| format!("event {}: {}", sig, m))?;
            if r.0 != h {
                return Err(format!("event {}: signature {:x}, expected {}", sig, r, hexs(&h)));
            }
        }
    }
    cx.outcome("matched");
    Ok(())
}

pub fn c07(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = t.pick(6, 7);
    v.push(space("shapes", 0, move |cx| {
        let ts = tys_upto(cx, n, true, &[Ty::Uint(256), Ty::Str, Ty::Int(24)], &[2, 10]);
        check_sel(cx, "f", &ts)
    }));
    let els = Arc::new(elementary());
    v.push(space("elementary", 0, move |cx| {
        let a = cx.pick(&els).clone();
        let b = cx.pick(&els).clone();
        let ts = match cx.choose(3) {
            0 => vec![a, b],
            1 => vec![tup(&[a, arr(b)])],
            _ => vec![arr(tup(&[a])), farr(b, 3)],
        };
        check_sel(cx, "transfer", &ts)
    }));
    // every message length across several hash blocks, and unusual names
    let k = t.pick(700, 1400);
    v.push(space("signature-lengths", 0, move |cx| {
        let n = cx.choose(k);
        let name: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let ts = cx.pick(&[vec![], vec![Ty::Bool], vec![tup(&[Ty::Uint(8), Ty::Str])]]).clone();
        check_sel(cx, &name, &ts)
    }));
    v.push(space("names", 0, move |cx| {
        let al = ["", "_", "$", "A", "a1", "\u{e9}", "transfer", "Transfer", "TRANSFER", "transferFrom", "self", "fn", "a b"];
        let name = format!("{}{}", cx.pick(&al), cx.pick(&al));
        let ts = cx.pick(&[vec![], vec![Ty::Addr, Ty::Uint(256)], vec![arr(Ty::Bytes)]]).clone();
        check_sel(cx, &name, &ts)
    }));
    // names are hashed as they are
    v.push(space("odd-names", 0, move |cx| {
        let al = ["f", "", "Ab", "f_1", "\u{e9}\u{20ac}"];
        let name = match cx.choose(4) {
            0 => cx.pick(STRINGS).to_string(),
            1 => format!("{}{}", cx.pick(&al), cx.pick(STRINGS)),
            2 => format!("{}{}", cx.pick(STRINGS), cx.pick(&al)),
            _ => format!("{}{}{}", cx.pick(&al), cx.pick(STRINGS), cx.pick(&al)),
        };
        let ts = cx.pick(&[vec![], vec![Ty::Addr, Ty::Uint(256)], vec![arr(Ty::Bytes)]]).clone();
        check_sel(cx, &name, &ts)
    }));
    let m = t.pick(20, 40);
    v.push(space("odd-member", 0, move |cx| {
        let ty = odd_member(cx, m);
        check_sel(cx, "odd", &[Ty::Bool, ty])
    }));
    // many parameters
    let m = t.pick(70, 300);
    v.push(space("arity", 0, move |cx| {
        let n = count(cx, m, 1024);
        let t = cx.pick(&[Ty::Bool, Ty::Bytes, tup(&[Ty::Uint(8), Ty::Addr])]).clone();
        check_sel(cx, "many", &vec![t; n])
    }));
    v
}
