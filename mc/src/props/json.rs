//! C10 JSON ABI loading is faithful; C11 serialization round-trips; C12 malformed documents and
//! failing readers; C13 contract lookup.

use ethabi::{Contract, Event, EventParam, Function, Param, TupleParam};
use mc::abi::*;
use mc::engine::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;
use std::io;
use std::sync::Arc;

/// All ways a user can turn the text into a contract.
fn load_all(cx: &mut Cx, text: &str) -> Result<Vec<(&'static str, Result<MContract, String>)>, String> {
    let f = |r: Result<Contract, String>| r.map(|c| MContract::of(&c));
    let g = cx
        .guard(|| {
            vec![
                ("load", f(Contract::load(text.as_bytes()).map_err(|e| e.to_string()))),
                ("from_str", f(serde_json::from_str(text).map_err(|e| e.to_string()))),
                ("from_slice", f(serde_json::from_slice(text.as_bytes()).map_err(|e| e.to_string()))),
            ]
        })
        .map_err(|m| format!("loading {}: {}", clip(text, 2000), m))?;
    Ok(g)
}

fn check_load(cx: &mut Cx, text: &str, want: &Loaded<MContract>) -> Res {
    cx.state(&[text.as_bytes()]);
    cx.sample(|| clip(text, 2000));
    for (how, got) in load_all(cx, text)? {
        match (want, &got) {
            (Loaded::Must(w), Ok(g)) if w == g => cx.outcome("loaded"),
            (Loaded::Reject, Err(_)) => cx.outcome("rejected"),
            (Loaded::May, _) => cx.outcome("unspecified"),
            _ => return Err(format!("{} of {} gives {:?}, expected {:?}", how, clip(text, 2000), got, want)),
        }
    }
    Ok(())
}

fn check_doc(cx: &mut Cx, doc: &J, want: MContract) -> Res {
    let text = doc.text();
    assert_eq!(load_text(text.as_bytes()), Loaded::Must(want.clone()), "{}", text);
    check_load(cx, &text, &Loaded::Must(want))
}

/// A part of a document read without the rest of it.
fn alone<T: serde::de::DeserializeOwned, M: PartialEq + std::fmt::Debug>(cx: &mut Cx, text: &str, of: impl Fn(&T) -> M, want: M) -> Res {
    let r = cx
        .guard(|| {
            vec![
                serde_json::from_str::<T>(text).map(|x| of(&x)).map_err(|e| e.to_string()),
                serde_json::from_reader::<_, T>(text.as_bytes()).map(|x| of(&x)).map_err(|e| e.to_string()),
                serde_json::from_str::<serde_json::Value>(text).and_then(serde_json::from_value::<T>).map(|x| of(&x)).map_err(|e| e.to_string()),
            ]
        })
        .map_err(|m| format!("reading {}: {}", clip(text, 2000), m))?;
    for (i, r) in r.into_iter().enumerate() {
        match r {
            Ok(x) if x == want => {}
            o => return Err(format!("{} read on its own (way {}) gives {:?}, expected {:?}", clip(text, 2000), i, o, want)),
        }
    }
    Ok(())
}

fn permute<T: Clone>(cx: &mut Cx, v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    let mut o = vec![];
    while !v.is_empty() {
        let i = cx.choose(v.len());
        o.push(v.remove(i));
    }
    o
}

fn junk() -> Vec<J> {
    vec![
        s("uint256"),
        J::Null,
        J::Bool(true),
        J::Num("12".into()),
        J::Num("-3.5".into()),
        J::Arr(vec![s("a"), J::Null, J::Arr(vec![J::Num("1".into())])]),
        obj(vec![("name", s("x")), ("type", J::Num("7".into())), ("components", J::Null)]),
        J::Arr(vec![]),
        obj(vec![]),
    ]
}

fn p(name: &str, ty: Ty) -> MParam {
    MParam { name: name.into(), ty, internal: None }
}

pub fn ops_alphabet() -> Vec<Op> {
    let f = |name: &str, ins: Vec<MParam>, outs: Vec<MParam>, m: usize| {
        Op::Fn(MFn { name: name.into(), ins, outs, constant: m == 1, mutability: MUT[m] })
    };
    let e = |name: &str, ins: Vec<(String, Ty, bool)>, anon| Op::Ev(MEv { name: name.into(), ins, anon });
    vec![
        f("f", vec![p("a", Ty::Uint(256))], vec![], 2),
        f("f", vec![p("a", Ty::Str)], vec![p("", Ty::Bool)], 1),
        f("f", vec![], vec![p("r", arr(tup(&[Ty::Addr, Ty::Bytes])))], 0),
        f("g", vec![p("", Ty::Int(8)), p("", Ty::FBytes(4))], vec![], 3),
        e("E", vec![("x".into(), Ty::Addr, true), ("y".into(), Ty::Uint(256), false)], false),
        e("E", vec![("x".into(), Ty::Str, true)], true),
        e("f", vec![], false),
        Op::Fallback,
        Op::Receive,
        Op::Ctor(vec![p("n", Ty::Uint(8))]),
        Op::Ctor(vec![]),
    ]
}

fn op_seq(cx: &mut Cx, max: usize) -> Option<Vec<Op>> {
    let al = ops_alphabet();
    let n = cx.choose(max + 1);
    let mut ctor = false;
    let mut v = vec![];
    for _ in 0..n {
        let o = cx.pick(&al).clone();
        if matches!(o, Op::Ctor(_)) {
            if ctor {
                return None;
            }
            ctor = true;
        }
        v.push(o);
    }
    Some(v)
}

/// Operations that agree in nearly everything: each differs from the first of its kind in one respect.
fn twins() -> Vec<Op> {
    let f = |name: &str, a: &str, t: Ty, outs: Vec<MParam>, constant, m: usize| Op::Fn(MFn { name: name.into(), ins: vec![p(a, t)], outs, constant, mutability: MUT[m] });
    let e = |name: &str, a: &str, t: Ty, ix, anon| Op::Ev(MEv { name: name.into(), ins: vec![(a.into(), t, ix)], anon });
    let mut internal = p("a", Ty::Uint(256));
    internal.internal = Some("enum X".into());
    vec![
        f("f", "a", Ty::Uint(256), vec![], false, 2),
        f("f", "b", Ty::Uint(256), vec![], false, 2),
        f("f", "a", Ty::Int(256), vec![], false, 2),
        f("f", "a", Ty::Uint(256), vec![p("", Ty::Bool)], false, 2),
        f("f", "a", Ty::Uint(256), vec![], true, 2),
        f("f", "a", Ty::Uint(256), vec![], false, 1),
        Op::Fn(MFn { name: "f".into(), ins: vec![internal], outs: vec![], constant: false, mutability: MUT[2] }),
        e("f", "a", Ty::Uint(256), false, false),
        e("f", "b", Ty::Uint(256), false, false),
        e("f", "a", Ty::Int(256), false, false),
        e("f", "a", Ty::Uint(256), true, false),
        e("f", "a", Ty::Uint(256), false, true),
    ]
}

fn twin_seq(cx: &mut Cx, max: usize) -> Vec<Op> {
    let al = twins();
    let n = 2 + cx.choose(max - 1);
    (0..n).map(|_| cx.pick(&al).clone()).collect()
}

/// Put a parameter type into every place a document can hold one.
fn place(cx: &mut Cx, t: &Ty) -> Op {
    let q = p("val", t.clone());
    match cx.choose(7) {
        0 => Op::Fn(MFn { name: "f".into(), ins: vec![q], outs: vec![], constant: false, mutability: MUT[2] }),
        1 => Op::Fn(MFn {
            name: "f".into(),
            ins: vec![p("b", Ty::Bool)],
            outs: vec![q, p("", Ty::Str)],
            constant: true,
            mutability: MUT[1],
        }),
        2 => Op::Ctor(vec![p("b", Ty::Bool), q]),
        3 => Op::Ev(MEv { name: "E".into(), ins: vec![("v".into(), t.clone(), true)], anon: false }),
        4 => Op::Ev(MEv { name: "E".into(), ins: vec![("v".into(), t.clone(), false), ("w".into(), Ty::Bool, true)], anon: true }),
        5 => Op::Fn(MFn {
            name: "f".into(),
            ins: vec![p("v", tup(&[Ty::Bool, t.clone(), Ty::Str]))],
            outs: vec![],
            constant: false,
            mutability: MUT[3],
        }),
        _ => Op::Ev(MEv { name: "E".into(), ins: vec![("v".into(), arr(tup(&[t.clone()])), false)], anon: false }),
    }
}

/// Deeply nested components and long stacks of array suffixes.
fn deep_ty(cx: &mut Cx, max: usize) -> Ty {
    let n = cx.choose(max + 1);
    let how = cx.choose(7);
    // suffixes alone do not nest the document
    let n = if matches!(how, 0 | 1 | 3) { n * 7 / 2 } else { n };
    let mut t = [Ty::Uint(8), tup(&[Ty::Bool, Ty::Str])][cx.choose(2)].clone();
    for i in 0..n {
        t = match (how, i % 4) {
            (0, _) => arr(t),
            (1, _) => farr(t, i + 1),
            (2, _) => tup(&[t]),
            (3, 0) | (3, 2) => arr(t),
            (3, _) => farr(t, 10 + i),
            (4, 0) | (4, 1) => tup(&[Ty::Bool, t, arr(Ty::Addr)]),
            (4, 2) => arr(t),
            (4, _) => farr(t, 3),
            (5, 0) => tup(&[t, tup(&[Ty::Str])]),
            (5, 1) => tup(&[tup(&[Ty::Bool, Ty::Int(8)]), t]),
            (5, _) => arr(t),
            (_, 0) => tup(&[t]),
            (_, 1) => farr(t, 2),
            (_, 2) => farr(t, 3),
            _ => arr(t),
        }
    }
    t
}

/// What compilers and people write under "internalType".
const INTERNAL: &[&str] = &[
    "", "uint256", "address", "address payable", "contract Token", "contract IERC20[]", "struct A", "struct A.B", "struct A.B[]", "struct A.B[2][]", "enum E", "enum A.E", "tuple", "tuple[]", "bytes32",
    "function (uint256) external", "UserType", "A.UserType", " struct A", "struct", "contract", "contract ", "contract\u{e9}", "int", "string", "null", "type(uint256)", "\"q\"", "a\\b", "0x00",
];

/// Parameters of every kind, with every spelling of the internal type, everywhere one is kept.
fn internal_op(cx: &mut Cx) -> Op {
    let al = [Ty::Addr, Ty::Uint(256), Ty::Uint(8), Ty::FBytes(32), Ty::Str, tup(&[Ty::Bool, Ty::Bytes]), arr(tup(&[Ty::Addr])), farr(Ty::Addr, 3), arr(Ty::Bool)];
    let internal = match cx.choose(INTERNAL.len() + 1) {
        0 => None,
        k => Some(INTERNAL[k - 1].to_string()),
    };
    let q = MParam { name: cx.pick(&["val", ""]).to_string(), ty: cx.pick(&al).clone(), internal };
    let r = MParam { name: "other".into(), ty: Ty::Bool, internal: Some("bool".into()) };
    let f = |ins, outs| Op::Fn(MFn { name: "f".into(), ins, outs, constant: false, mutability: MUT[2] });
    match cx.choose(6) {
        0 => f(vec![q], vec![]),
        1 => f(vec![r], vec![q]),
        2 => f(vec![q.clone(), r], vec![q]),
        3 => f(vec![], vec![r, q]),
        4 => Op::Ctor(vec![q]),
        _ => Op::Ctor(vec![r, q]),
    }
}

/// Every parameter of an event: its type, whether it is indexed, its neighbours.
fn event_op(cx: &mut Cx, n: usize) -> Op {
    let k = 1 + cx.choose(n);
    let al = [Ty::Uint(256), Ty::Bytes, Ty::Str, Ty::Bool, Ty::Addr, Ty::FBytes(32), Ty::Int(8)];
    let ty = ty(cx, k, if n > 3 { &al[..4] } else { &al }, &[2, 1]);
    let x = ("v".to_string(), ty, cx.flag());
    let y = ("w".to_string(), cx.pick(&[Ty::Bool, Ty::Str, tup(&[Ty::Bytes])]).clone(), cx.flag());
    let ins = match cx.choose(3) {
        0 => vec![x],
        1 => vec![x, y],
        _ => vec![y, x],
    };
    Op::Ev(MEv { name: "E".into(), ins, anon: cx.flag() })
}

/// Entries with few or no parameters, of every kind and flag, alone and next to each other.
fn sparse(cx: &mut Cx) -> Option<Vec<Op>> {
    let n = 1 + cx.choose(2);
    let v: Vec<Op> = (0..n)
        .map(|i| {
            let list = |cx: &mut Cx, x: &str| -> Vec<MParam> {
                match cx.choose(4) {
                    0 => vec![],
                    1 => vec![p("", Ty::Bool)],
                    2 => vec![p(x, tup(&[Ty::Str]))],
                    _ => vec![p("", Ty::Addr), p("", Ty::Addr)],
                }
            };
            match cx.choose(5) {
                0 => Op::Ctor(list(cx, "c")),
                1 => Op::Fn(MFn { name: ["f", "g"][i].into(), ins: list(cx, "i"), outs: list(cx, "o"), constant: cx.flag(), mutability: MUT[cx.choose(4)] }),
                2 => {
                    let ix = cx.choose(3);
                    Op::Ev(MEv { name: ["E", "F"][i].into(), ins: list(cx, "e").into_iter().enumerate().map(|(k, q)| (q.name, q.ty, ix == 2 || ix == 1 && k == 0)).collect(), anon: cx.flag() })
                }
                3 => Op::Fallback,
                _ => Op::Receive,
            }
        })
        .collect();
    // at most one of these
    let once = |o: &Op| matches!(o, Op::Ctor(_) | Op::Fallback | Op::Receive);
    if n == 2 && once(&v[0]) && std::mem::discriminant(&v[0]) == std::mem::discriminant(&v[1]) {
        return None;
    }
    Some(v)
}

pub fn c10(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("internal-types", 0, move |cx| {
        let op = internal_op(cx);
        check_doc(cx, &J::Arr(vec![op_json(&op)]), MContract::from_ops(&[op]))
    }));
    let n = t.pick(4, 5);
    v.push(space("event-parameters", 0, move |cx| {
        let op = event_op(cx, n);
        check_doc(cx, &J::Arr(vec![op_json(&op)]), MContract::from_ops(&[op]))
    }));
    v.push(space("event-parameter-kinds", 0, move |cx| {
        let op = event_op(cx, 3);
        check_doc(cx, &J::Arr(vec![op_json(&op)]), MContract::from_ops(&[op]))
    }));
    let n = t.pick(3, 4);
    v.push(space("type-kinds", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &leaf_kinds(), &[2, 1, 100]);
        let op = place(cx, &ty);
        check_doc(cx, &J::Arr(vec![op_json(&op)]), MContract::from_ops(&[op]))
    }));
    let m = 56;
    v.push(space("deep-types", 0, move |cx| {
        let ty = deep_ty(cx, m);
        let op = place(cx, &ty);
        check_doc(cx, &J::Arr(vec![op_json(&op)]), MContract::from_ops(&[op]))
    }));
    // every parameter type in every place
    let n = t.pick(5, 6);
    v.push(space("types", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Str], &[2, 13]);
        let op = place(cx, &ty);
        check_doc(cx, &J::Arr(vec![op_json(&op)]), MContract::from_ops(&[op]))
    }));
    let els = Arc::new(elementary());
    v.push(space("elementary", 0, move |cx| {
        let ty = cx.pick(&els).clone();
        let ty = match cx.choose(3) {
            0 => ty,
            1 => arr(ty),
            _ => farr(tup(&[ty.clone(), ty]), 3),
        };
        let op = place(cx, &ty);
        check_doc(cx, &J::Arr(vec![op_json(&op)]), MContract::from_ops(&[op]))
    }));
    // every order of a parameter's keys, with and without the optional and unknown ones
    v.push(space("param-keys", 0, move |cx| {
        let ty = cx.pick(&[arr(tup(&[Ty::Addr, Ty::Bytes])), Ty::Uint(8)]).clone();
        let place = cx.choose(5);
        let ev = place == 3;
        let mut keys = type_keys(&ty, cx.flag());
        let named = place != 4 || cx.flag();
        if named {
            keys.push(("name".into(), s("val")));
        }
        let mut internal = None;
        if cx.flag() {
            keys.push(("internalType".into(), s("struct A.B[]")));
            if !ev {
                internal = Some("struct A.B[]".to_string());
            }
        }
        let mut indexed = false;
        if ev {
            match cx.choose(3) {
                0 => {}
                k => {
                    indexed = k == 1;
                    keys.push(("indexed".into(), J::Bool(indexed)));
                }
            }
        }
        if cx.flag() {
            let j = cx.pick(&junk()).clone();
            let k = *cx.pick(&["extra", "Name", "types", ""]);
            keys.push((k.into(), j));
        }
        let param = J::Obj(permute(cx, &keys));
        let q = MParam { name: "val".into(), ty: ty.clone(), internal };
        // the parameter on its own
        let text = param.text();
        match place {
            3 => alone::<EventParam, _>(cx, &text, |e| (e.name.clone(), Ty::from_real(&e.kind), e.indexed), ("val".to_string(), ty.clone(), indexed))?,
            4 => alone::<TupleParam, _>(cx, &text, |t| (t.name.clone(), Ty::from_real(&t.kind), t.internal_type.clone()), (if named { Some("val".to_string()) } else { None }, ty.clone(), q.internal.clone()))?,
            _ => alone::<Param, _>(cx, &text, MParam::of, q.clone())?,
        }
        let (op, c) = match place {
            0 => (obj(vec![("type", s("constructor")), ("inputs", J::Arr(vec![param]))]), Op::Ctor(vec![q])),
            1 => (
                obj(vec![("type", s("function")), ("name", s("f")), ("inputs", J::Arr(vec![param])), ("outputs", J::Arr(vec![]))]),
                Op::Fn(MFn { name: "f".into(), ins: vec![q], outs: vec![], constant: false, mutability: MUT[2] }),
            ),
            2 => (
                obj(vec![("outputs", J::Arr(vec![param])), ("name", s("f")), ("inputs", J::Arr(vec![])), ("type", s("function"))]),
                Op::Fn(MFn { name: "f".into(), ins: vec![], outs: vec![q], constant: false, mutability: MUT[2] }),
            ),
            3 => (
                obj(vec![("type", s("event")), ("name", s("E")), ("inputs", J::Arr(vec![param])), ("anonymous", J::Bool(false))]),
                Op::Ev(MEv { name: "E".into(), ins: vec![("val".into(), ty, indexed)], anon: false }),
            ),
            _ => {
                let outer = obj(vec![("components", J::Arr(vec![param, obj(vec![("type", s("bool"))])])), ("name", s("o")), ("type", s("tuple"))]);
                (
                    obj(vec![("type", s("constructor")), ("inputs", J::Arr(vec![outer]))]),
                    Op::Ctor(vec![p("o", tup(&[ty, Ty::Bool]))]),
                )
            }
        };
        check_doc(cx, &J::Arr(vec![op]), MContract::from_ops(&[c]))
    }));
    // a key without a meaning, or one that has a meaning elsewhere
    v.push(space("more-keys", 0, move |cx| {
        let text = more_keys(cx).text();
        let want = load_text(text.as_bytes());
        check_load(cx, &text, &want)
    }));
    // every order of an operation's keys
    v.push(space("operation-keys", 0, move |cx| {
        let al = ops_alphabet();
        let i = cx.choose(6);
        let op = [&al[1], &al[4], &al[5], &al[9], &al[7], &al[8]][i].clone();
        let mut keys = match op_json(&op) {
            J::Obj(v) => v,
            _ => unreachable!(),
        };
        let mut want = op.clone();
        if let Op::Fn(f) = &mut want {
            if cx.flag() {
                keys.retain(|k| k.0 != "constant");
                f.constant = false;
            }
            if cx.flag() {
                keys.retain(|k| k.0 != "stateMutability");
                f.mutability = MUT[2];
            }
        } else if cx.flag() {
            keys.push(("stateMutability".into(), s("payable")));
        }
        if cx.flag() {
            let k = *cx.pick(&["payable", "gas", "signature"]);
            keys.push((k.into(), cx.pick(&junk()).clone()));
        }
        let o = J::Obj(permute(cx, &keys));
        // the declaration on its own
        match &want {
            Op::Fn(f) => alone::<Function, _>(cx, &o.text(), MFn::of, f.clone())?,
            Op::Ev(e) => alone::<Event, _>(cx, &o.text(), MEv::of, e.clone())?,
            Op::Ctor(ps) => alone::<ethabi::Constructor, _>(cx, &o.text(), |c| c.inputs.iter().map(MParam::of).collect::<Vec<_>>(), ps.clone())?,
            _ => {}
        }
        check_doc(cx, &J::Arr(vec![o]), MContract::from_ops(&[want]))
    }));
    // attributes
    let n = t.pick(3, 4);
    v.push(space("twins", 0, move |cx| {
        let ops = twin_seq(cx, n);
        check_ser(cx, &MContract::from_ops(&ops))
    }));
    v.push(space("attributes", 0, move |cx| {
        let m = MUT[cx.choose(4)];
        let op = Op::Fn(MFn {
            name: "f".into(),
            ins: vec![],
            outs: vec![p("", Ty::Bool)],
            constant: cx.flag(),
            mutability: m,
        });
        let ev = Op::Ev(MEv {
            name: "E".into(),
            ins: vec![("a".into(), Ty::Bool, cx.flag()), ("b".into(), Ty::Str, cx.flag()), ("c".into(), Ty::Addr, cx.flag())],
            anon: cx.flag(),
        });
        let ops = [op, ev];
        check_doc(cx, &J::Arr(ops.iter().map(op_json).collect()), MContract::from_ops(&ops))
    }));
    v.push(space("empty-lists", 0, move |cx| {
        let ops = match sparse(cx) {
            Some(o) => o,
            None => return cx.prune(),
        };
        check_doc(cx, &J::Arr(ops.iter().map(op_json).collect()), MContract::from_ops(&ops))
    }));
    // names: text before a parenthesis for operations, verbatim for parameters
    let n = t.pick(4, 5);
    v.push(space("names", 0, move |cx| {
        let al = ["a", "Z9", "(", ")", "_", " ", "\u{e9}", "\"", "\\", "\u{20ac}", "(uint256)", "$"];
        let k = cx.choose(n + 1);
        let name: String = (0..k).map(|_| *cx.pick(&al)).collect();
        let cut = name.split('(').next().unwrap().to_string();
        let (j, c) = match cx.choose(3) {
            0 => (
                Op::Fn(MFn { name: name.clone(), ins: vec![p(&name, Ty::Bool)], outs: vec![p(&name, Ty::Str)], constant: false, mutability: MUT[2] }),
                Op::Fn(MFn { name: cut, ins: vec![p(&name, Ty::Bool)], outs: vec![p(&name, Ty::Str)], constant: false, mutability: MUT[2] }),
            ),
            1 => (
                Op::Ev(MEv { name: name.clone(), ins: vec![(name.clone(), Ty::Bool, true)], anon: false }),
                Op::Ev(MEv { name: cut, ins: vec![(name.clone(), Ty::Bool, true)], anon: false }),
            ),
            _ => {
                let mut q = p(&name, Ty::Bool);
                q.internal = Some(name.clone());
                (Op::Ctor(vec![q.clone()]), Op::Ctor(vec![q]))
            }
        };
        check_doc(cx, &J::Arr(vec![op_json(&j)]), MContract::from_ops(&[c]))
    }));
    // operations of unusual names
    v.push(space("odd-operation-names", 0, move |cx| {
        let name = format!("{}{}{}", cx.pick(&["", "a", "\u{e9}"]), cx.pick(STRINGS), cx.pick(&["", "b", "(bool)", "("]));
        let cut = name.split('(').next().unwrap().to_string();
        let make = |n: &str, what: usize| match what {
            0 => Op::Fn(MFn { name: n.into(), ins: vec![p(&name, Ty::Bool)], outs: vec![p(&name, Ty::Str)], constant: false, mutability: MUT[2] }),
            _ => Op::Ev(MEv { name: n.into(), ins: vec![(name.clone(), Ty::Bool, true)], anon: false }),
        };
        let what = cx.choose(2);
        check_doc(cx, &J::Arr(vec![op_json(&make(&name, what))]), MContract::from_ops(&[make(&cut, what)]))
    }));
    // operations that differ in one respect only: each is kept, in the order of the document
    let n = t.pick(3, 4);
    v.push(space("twins", 0, move |cx| {
        let ops = twin_seq(cx, n);
        check_doc(cx, &J::Arr(ops.iter().map(op_json).collect()), MContract::from_ops(&ops))
    }));
    // what components are called makes no difference to the type
    v.push(space("component-names", 0, move |cx| {
        let odd: Vec<&str> = [""].iter().chain(STRINGS).copied().collect();
        let a = cx.pick(&odd).to_string();
        let b = match cx.choose(3) {
            0 => None,
            1 => Some(a.clone()),
            _ => Some(cx.pick(&odd).to_string()),
        };
        let part = |n: Option<String>, t: &str| obj(n.map(|n| ("name", J::Str(n))).into_iter().chain([("type", s(t))]).collect());
        let mut parts = vec![part(Some(a.clone()), "string"), part(b, "uint8")];
        let mut ty = tup(&[Ty::Str, Ty::Uint(8)]);
        if cx.flag() {
            parts = vec![obj(vec![("name", J::Str(a)), ("components", J::Arr(parts)), ("type", s("tuple[]"))]), part(None, "bool")];
            ty = tup(&[arr(ty), Ty::Bool]);
        }
        let suffix = *cx.pick(&["", "[]", "[2]"]);
        ty = match suffix {
            "" => ty,
            "[]" => arr(ty),
            _ => farr(ty, 2),
        };
        let mut keys = vec![("components", J::Arr(parts)), ("name", s("val")), ("type", J::Str(format!("tuple{}", suffix)))];
        let q = p("val", ty.clone());
        let (op, c) = match cx.choose(4) {
            0 => (obj(vec![("type", s("constructor")), ("inputs", J::Arr(vec![obj(keys)]))]), Op::Ctor(vec![q])),
            1 => (
                obj(vec![("type", s("function")), ("name", s("f")), ("inputs", J::Arr(vec![obj(keys)])), ("outputs", J::Arr(vec![]))]),
                Op::Fn(MFn { name: "f".into(), ins: vec![q], outs: vec![], constant: false, mutability: MUT[2] }),
            ),
            2 => (
                obj(vec![("outputs", J::Arr(vec![obj(keys)])), ("name", s("f")), ("inputs", J::Arr(vec![])), ("type", s("function"))]),
                Op::Fn(MFn { name: "f".into(), ins: vec![], outs: vec![q], constant: false, mutability: MUT[2] }),
            ),
            _ => {
                let indexed = cx.flag();
                keys.push(("indexed", J::Bool(indexed)));
                (
                    obj(vec![("type", s("event")), ("name", s("E")), ("inputs", J::Arr(vec![obj(keys)])), ("anonymous", J::Bool(false))]),
                    Op::Ev(MEv { name: "E".into(), ins: vec![("val".into(), ty, indexed)], anon: false }),
                )
            }
        };
        check_doc(cx, &J::Arr(vec![op]), MContract::from_ops(&[c]))
    }));
    // whole documents: every sequence of operations
    let n = t.pick(5, 6);
    v.push(space("documents", 0, move |cx| {
        let ops = match op_seq(cx, n) {
            Some(o) => o,
            None => return cx.prune(),
        };
        check_doc(cx, &J::Arr(ops.iter().map(op_json).collect()), MContract::from_ops(&ops))
    }));
    // layout and escapes do not matter
    v.push(space("layout", 0, move |cx| {
        let ops = match op_seq(cx, 2) {
            Some(o) => o,
            None => return cx.prune(),
        };
        let j = J::Arr(ops.iter().map(op_json).collect());
        let text = match cx.choose(3) {
            0 => j.spaced(),
            1 => j.text().replace("type", "\\u0074ype").replace("\"f\"", "\"\\u0066\"").replace("uint", "u\\u0069nt"),
            _ => j.text().replace("inputs", "in\\u0070uts").replace("function", "fun\\u0063tion").replace("name", "nam\\u0065"),
        };
        check_load(cx, &text, &Loaded::Must(MContract::from_ops(&ops)))
    }));
    // many parameters, long documents
    let m = t.pick(140, 300);
    v.push(space("sizes", 0, move |cx| {
        let n = count(cx, m, 1024);
        let ops: Vec<Op> = match cx.choose(3) {
            0 => vec![Op::Fn(MFn {
                name: "f".into(),
                ins: (0..n).map(|i| p(&format!("a{}", i), if i % 3 == 0 { Ty::Str } else { Ty::Uint(8 * (1 + i % 32)) })).collect(),
                outs: vec![],
                constant: false,
                mutability: MUT[0],
            })],
            1 => (0..n).map(|i| Op::Fn(MFn { name: format!("f{}", i % 7), ins: vec![p(&format!("x{}", i), farr(Ty::Bool, i + 1))], outs: vec![], constant: false, mutability: MUT[i % 4] })).collect(),
            _ => vec![Op::Ctor(vec![p("t", tup(&(0..n.max(1)).map(|i| if i % 2 == 0 { Ty::Bool } else { arr(Ty::Addr) }).collect::<Vec<_>>()))])],
        };
        check_doc(cx, &J::Arr(ops.iter().map(op_json).collect()), MContract::from_ops(&ops))
    }));
    // documents of many sizes: blanks, a long value of an unknown key, a long name
    v.push(space("lengths", 0, move |cx| {
        let n = (1usize << (8 + cx.choose(t.pick(14, 16)))) + cx.choose(3) * 100 - 100;
        let name = |s: &str| if s.is_empty() { "last".to_string() } else { s.to_string() };
        let (a, b, c, nm) = match cx.choose(5) {
            0 => (" ".repeat(n), String::new(), String::new(), String::new()),
            1 => (String::new(), "\n".repeat(n), String::new(), String::new()),
            2 => (String::new(), String::new(), " ".repeat(n), String::new()),
            3 => (String::new(), format!(r#"{{"type":"fallback","doc":"{}"}},"#, "d".repeat(n)), String::new(), String::new()),
            _ => (String::new(), String::new(), String::new(), "n".repeat(n)),
        };
        let text = format!(r#"{}[{}{{"type":"function","name":"{}","inputs":[],"outputs":[]}}{},{{"type":"receive"}}]{}"#, a, b, name(&nm), c, c);
        let mut ops = vec![Op::Fn(MFn { name: name(&nm), ins: vec![], outs: vec![], constant: false, mutability: MUT[2] }), Op::Receive];
        if b.starts_with('{') {
            ops.insert(0, Op::Fallback);
        }
        let want = Loaded::Must(MContract::from_ops(&ops));
        check_load(cx, &text, &want)
    }));
    v
}

// ---- C11 --------------------------------------------------------------------------------------

fn check_ser(cx: &mut Cx, c: &MContract) -> Res {
    let real = c.real();
    let text = cx
        .guard(|| serde_json::to_string(&real).map_err(|e| e.to_string()))
        .map_err(|m| format!("serializing {:?}: {}", c, m))?
        .map_err(|e| format!("serializing {:?}: {}", c, e))?;
    cx.state(&[format!("{:?}", c).as_bytes()]);
    cx.sample(|| text.clone());
    // the text itself describes this contract
    match load_text(text.as_bytes()) {
        Loaded::Must(g) if g == *c => {}
        o => return Err(format!("{:?} serialized as {}, which describes {:?}", c, text, o)),
    }
    let pretty = cx
        .guard(|| serde_json::to_string_pretty(&real).map_err(|e| e.to_string()))
        .map_err(|m| format!("serializing {:?}: {}", c, m))?
        .map_err(|e| format!("serializing {:?}: {}", c, e))?;
    for t in [&text, &pretty] {
        for (how, g) in load_all(cx, t)? {
            if g.as_ref() != Ok(c) {
                return Err(format!("{} of the serialization {} gives {:?}", how, t, g));
            }
        }
    }
    cx.outcome("round-tripped");
    Ok(())
}

macro_rules! round_trip {
    ($cx:expr, $x:expr, $t:ty, $want:expr) => {{
        let x: $t = $x;
        let r = $cx
            .guard(|| {
                let text = serde_json::to_string(&x).map_err(|e| e.to_string())?;
                let y: $t = serde_json::from_str(&text).map_err(|e| format!("{}: {}", text, e))?;
                Ok::<_, String>((text, y))
            })
            .map_err(|m| format!("{:?}: {}", x, m))?;
        match r {
            Err(e) => return Err(format!("{:?} does not round-trip: {}", x, e)),
            Ok((text, y)) => {
                if x != y {
                    return Err(format!("{:?} serialized as {} and read back as {:?}", x, text, y));
                }
                let want: J = $want;
                let got = parse(text.as_bytes());
                if got.as_ref().map(sorted) != Some(sorted(&want)) {
                    return Err(format!("{:?} serialized as {}, expected {}", x, text, want.text()));
                }
            }
        }
    }};
}

/// Key order is immaterial.
fn sorted(j: &J) -> J {
    match j {
        J::Arr(v) => J::Arr(v.iter().map(sorted).collect()),
        J::Obj(v) => {
            let mut v: Vec<_> = v.iter().map(|(k, x)| (k.clone(), sorted(x))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::Obj(v)
        }
        j => j.clone(),
    }
}

fn with(mut v: Vec<(String, J)>, k: &str, j: J) -> Vec<(String, J)> {
    v.push((k.into(), j));
    v
}

pub fn c11(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    v.push(space("internal-types", 0, move |cx| {
        let op = internal_op(cx);
        check_ser(cx, &MContract::from_ops(&[op]))
    }));
    let n = t.pick(4, 5);
    v.push(space("event-parameters", 0, move |cx| {
        let op = event_op(cx, n);
        check_ser(cx, &MContract::from_ops(&[op]))
    }));
    v.push(space("event-parameter-kinds", 0, move |cx| {
        let op = event_op(cx, 3);
        check_ser(cx, &MContract::from_ops(&[op]))
    }));
    let n = t.pick(3, 4);
    v.push(space("type-kinds", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &leaf_kinds(), &[2, 1, 100]);
        let op = place(cx, &ty);
        check_ser(cx, &MContract::from_ops(&[op]))
    }));
    let m = 56;
    v.push(space("deep-types", 0, move |cx| {
        let ty = deep_ty(cx, m);
        let op = place(cx, &ty);
        check_ser(cx, &MContract::from_ops(&[op]))
    }));
    let els = Arc::new(elementary());
    v.push(space("elementary", 0, move |cx| {
        let ty = cx.pick(&els).clone();
        let ty = match cx.choose(3) {
            0 => ty,
            1 => arr(ty),
            _ => farr(tup(&[ty.clone(), ty]), 3),
        };
        let op = place(cx, &ty);
        check_ser(cx, &MContract::from_ops(&[op]))
    }));
    // many parameters, many operations
    let m = t.pick(140, 300);
    v.push(space("sizes", 0, move |cx| {
        let n = count(cx, m, 1024);
        let q = |i: usize| MParam { name: format!("a{}", i), ty: if i % 3 == 0 { Ty::Str } else { Ty::Uint(8 * (1 + i % 32)) }, internal: if i % 4 == 0 { Some(format!("T{}", i)) } else { None } };
        let ops: Vec<Op> = match cx.choose(5) {
            0 => vec![Op::Fn(MFn { name: "f".into(), ins: (0..n).map(q).collect(), outs: (0..n / 2).map(q).collect(), constant: false, mutability: MUT[0] })],
            1 => (0..n).map(|i| Op::Fn(MFn { name: format!("f{}", i % 7), ins: vec![p(&format!("x{}", i), farr(Ty::Bool, i + 1))], outs: vec![], constant: i % 2 == 0, mutability: MUT[i % 4] })).collect(),
            2 => vec![Op::Ctor(vec![p("t", tup(&(0..n.max(1)).map(|i| if i % 2 == 0 { Ty::Bool } else { arr(Ty::Addr) }).collect::<Vec<_>>()))])],
            3 => (0..n).map(|i| Op::Ev(MEv { name: format!("E{}", i % 5), ins: vec![(format!("x{}", i), farr(Ty::Bool, i + 1), i % 2 == 0)], anon: i % 3 == 0 })).collect(),
            _ => vec![Op::Ev(MEv { name: "E".into(), ins: (0..n).map(|i| (format!("x{}", i), Ty::FBytes(1 + i % 32), i % 5 == 0)).collect(), anon: false })],
        };
        check_ser(cx, &MContract::from_ops(&ops))
    }));
    let n = t.pick(5, 6);
    v.push(space("types", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Str, Ty::FBytes(7)], &[2, 13]);
        let op = place(cx, &ty);
        check_ser(cx, &MContract::from_ops(&[op]))
    }));
    let n = t.pick(5, 6);
    v.push(space("documents", 0, move |cx| {
        match op_seq(cx, n) {
            Some(o) => check_ser(cx, &MContract::from_ops(&o)),
            None => cx.prune(),
        }
    }));
    v.push(space("attributes", 0, move |cx| {
        let m = MUT[cx.choose(4)];
        let int = |cx: &mut Cx| if cx.flag() { Some("contract X".to_string()) } else { None };
        let names = ["", "a", "a b", "\u{e9}\"\\", "type"];
        let mut c = MContract::from_ops(&[
            Op::Fn(MFn {
                name: "f".into(),
                ins: vec![MParam { name: cx.pick(&names).to_string(), ty: Ty::Addr, internal: int(cx) }],
                outs: vec![MParam { name: cx.pick(&names).to_string(), ty: tup(&[Ty::Bool]), internal: int(cx) }],
                constant: cx.flag(),
                mutability: m,
            }),
            Op::Ev(MEv {
                name: "E".into(),
                ins: vec![("a".into(), arr(Ty::Bool), cx.flag()), ("".into(), farr(tup(&[Ty::Str]), 2), cx.flag())],
                anon: cx.flag(),
            }),
        ]);
        c.receive = cx.flag();
        c.fallback = cx.flag();
        if cx.flag() {
            c.ctor = Some(vec![]);
        }
        check_ser(cx, &c)
    }));
    v.push(space("empty-lists", 0, move |cx| {
        let ops = match sparse(cx) {
            Some(o) => o,
            None => return cx.prune(),
        };
        check_ser(cx, &MContract::from_ops(&ops))
    }));
    // the parts on their own
    let n = t.pick(5, 6);
    v.push(space("parts", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let t = ty(cx, k, &[Ty::Uint(256), Ty::Bytes], &[3]);
        let name = *cx.pick(&["", "x", "\u{e9} \"q\""]);
        let internal = if cx.flag() { Some("struct S[]".to_string()) } else { None };
        cx.state(&[t.name().as_bytes(), name.as_bytes(), &[internal.is_some() as u8]]);
        cx.sample(|| format!("{} {}", t.name(), name));
        let tk = |n: bool| {
            let mut v = type_keys(&t, false);
            if n {
                v.push(("name".into(), s(name)));
            }
            v
        };
        let opt = |v: Vec<(String, J)>| match &internal {
            Some(i) => with(v, "internalType", s(i)),
            None => v,
        };
        round_trip!(cx, Param { name: name.into(), kind: t.real(), internal_type: internal.clone() }, Param, J::Obj(opt(tk(true))));
        round_trip!(cx, TupleParam { name: Some(name.into()), kind: t.real(), internal_type: internal.clone() }, TupleParam, J::Obj(opt(tk(true))));
        round_trip!(cx, TupleParam { name: None, kind: t.real(), internal_type: internal.clone() }, TupleParam, J::Obj(opt(tk(false))));
        for ix in [false, true] {
            round_trip!(cx, EventParam { name: name.into(), kind: t.real(), indexed: ix }, EventParam, J::Obj(with(tk(true), "indexed", J::Bool(ix))));
        }
        let m = MFn { name: "f".into(), ins: vec![p(name, t.clone())], outs: vec![p("", Ty::Bool), p(name, t.clone())], constant: true, mutability: MUT[1] };
        let pj = J::Obj(tk(true));
        let bj = obj(vec![("name", s("")), ("type", s("bool"))]);
        round_trip!(cx, m.real(), Function, obj(vec![
            ("name", s("f")), ("inputs", J::Arr(vec![pj.clone()])), ("outputs", J::Arr(vec![bj, pj.clone()])),
            ("constant", J::Bool(true)), ("stateMutability", s("view"))]));
        let e = MEv { name: "E".into(), ins: vec![(name.into(), t.clone(), true)], anon: true };
        round_trip!(cx, e.real(), Event, obj(vec![
            ("name", s("E")), ("inputs", J::Arr(vec![J::Obj(with(tk(true), "indexed", J::Bool(true)))])), ("anonymous", J::Bool(true))]));
        round_trip!(cx, ethabi::Constructor { inputs: vec![p(name, t.clone()).real()] }, ethabi::Constructor, obj(vec![("inputs", J::Arr(vec![pj]))]));
        cx.outcome("round-tripped");
        Ok(())
    }));
    v
}

// ---- C12 --------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Interrupted,
    Error,
    WouldBlock,
    Eof,
}

/// Serves the text in pieces and misbehaves at decided positions.
struct Faulty<'a> {
    text: &'a [u8],
    pos: usize,
    chunk: usize,
    faults: Vec<(usize, Fault)>,
    raised: bool,
    ended: bool,
    calls: usize,
}
impl<'a> io::Read for Faulty<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        assert!(self.calls < 10_000_000, "reader never satisfied");
        if buf.is_empty() {
            return Ok(0);
        }
        if self.ended {
            return Ok(0);
        }
        if let Some(i) = self.faults.iter().position(|f| f.0 == self.pos) {
            let f = self.faults.remove(i).1;
            match f {
                Fault::Interrupted => return Err(io::ErrorKind::Interrupted.into()),
                Fault::Error => {
                    self.raised = true;
                    return Err(io::Error::new(io::ErrorKind::Other, "device"));
                }
                Fault::WouldBlock => {
                    self.raised = true;
                    return Err(io::ErrorKind::WouldBlock.into());
                }
                Fault::Eof => {
                    self.ended = true;
                    return Ok(0);
                }
            }
        }
        let next = self.faults.iter().map(|f| f.0).filter(|p| *p > self.pos).min().unwrap_or(usize::MAX);
        let n = buf.len().min(self.chunk).min(self.text.len() - self.pos).min(next - self.pos);
        buf[..n].copy_from_slice(&self.text[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn docs() -> Vec<String> {
    let al = ops_alphabet();
    let j = |i: &[usize]| J::Arr(i.iter().map(|i| op_json(&al[*i])).collect());
    vec![j(&[9, 1, 4]).text(), j(&[2]).spaced(), j(&[7, 8]).text(), "[]".into(), " [ ] \n".into()]
}

/// Every value of a document, by path.
fn sites(j: &J, path: Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(path.clone());
    let n = match j {
        J::Arr(v) => v.len(),
        J::Obj(v) => v.len(),
        _ => 0,
    };
    for i in 0..n {
        let c = match j {
            J::Arr(v) => &v[i],
            J::Obj(v) => &v[i].1,
            _ => unreachable!(),
        };
        let mut q = path.clone();
        q.push(i);
        sites(c, q, out);
    }
}
fn at<'a>(j: &'a mut J, path: &[usize]) -> &'a mut J {
    let mut j = j;
    for i in path {
        j = match j {
            J::Arr(v) => &mut v[*i],
            J::Obj(v) => &mut v[*i].1,
            _ => unreachable!(),
        };
    }
    j
}

fn model_docs() -> Vec<J> {
    let al = ops_alphabet();
    let mut f = al[1].clone();
    if let Op::Fn(f) = &mut f {
        f.ins.push(MParam { name: "t".into(), ty: farr(tup(&[Ty::Bool, arr(tup(&[Ty::Str]))]), 2), internal: Some("struct T[2]".into()) });
    }
    vec![
        J::Arr(vec![op_json(&f)]),
        J::Arr(vec![op_json(&al[4])]),
        J::Arr(vec![op_json(&al[9]), op_json(&al[7])]),
        J::Arr(vec![op_json(&Op::Ev(MEv { name: "E".into(), ins: vec![("t".into(), arr(tup(&[Ty::Uint(8), Ty::Bytes])), false)], anon: true }))]),
    ]
}

/// Keys that resemble the ones with a meaning, or that other tools write.
fn near_keys() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for k in ["type", "name", "inputs", "outputs", "constant", "stateMutability", "internalType", "components", "indexed", "anonymous"] {
        let mut cap = k.to_string();
        cap[..1].make_ascii_uppercase();
        let snake: String = k.chars().map(|c| if c.is_uppercase() { format!("_{}", c.to_ascii_lowercase()) } else { c.to_string() }).collect();
        v.extend([k.to_string(), cap, k.to_uppercase(), k.to_lowercase(), snake.clone(), snake.replace('_', "-"), format!("{}s", k), k[..k.len() - 1].to_string(), format!(" {}", k), format!("{} ", k), format!("_{}", k), format!("{}_", k), format!("{}\0", k)]);
    }
    for k in [
        "kind", "ty", "typ", "typeName", "params", "parameters", "args", "arguments", "returns", "return", "result", "elements", "members", "fields", "struct", "identifier", "id", "mutability", "view", "pure", "payable",
        "nonpayable", "index", "topic", "topics", "anon", "selector", "signature", "gas", "abi", "documentation", "notice", "error", "function", "event", "constructor", "fallback", "receive", "baseType", "arrayLength", "length", "value", "default", "optional", "version", "$type", "0", "",
    ] {
        v.push(k.into());
    }
    v.sort();
    v.dedup();
    v
}

/// Values that would mean something under a key with a meaning.
fn meant() -> Vec<J> {
    let mut v = vec![s("view"), s("pure"), s("payable"), s("nonpayable"), s("g"), s("address"), s("tuple"), s("function"), s("event"), J::Bool(false), s("struct X")];
    v.push(J::Arr(vec![obj(vec![("name", s("q")), ("type", s("bool"))])]));
    v.push(J::Arr(vec![obj(vec![("name", s("q")), ("type", s("bool")), ("indexed", J::Bool(true))])]));
    v.extend(junk());
    v
}

/// Documents with a key too many, in any object, at its start or end.
fn more_keys(cx: &mut Cx) -> J {
    let mut d = cx.pick(&model_docs()).clone();
    let mut ss = vec![];
    sites(&d, vec![], &mut ss);
    ss.retain(|p| matches!(at(&mut d, p), J::Obj(_)));
    let p = cx.pick(&ss).clone();
    let key = cx.pick(&near_keys()).clone();
    let val = cx.pick(&meant()).clone();
    let first = cx.flag();
    if let J::Obj(o) = at(&mut d, &p) {
        let i = if first { 0 } else { o.len() };
        o.insert(i, (key, val));
    }
    d
}

pub fn c12(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // fault enumeration: a fault at every position of the text, every chunking
    let two = t.pick(false, true);
    v.push(space("read-faults", 0, move |cx| {
        let d = docs();
        let i = cx.choose(d.len());
        let text = d[i].as_bytes();
        let whole = load_text(text);
        let chunk = *cx.pick(&[1usize, 2, 7, 64, 1 << 20]);
        let kinds = [Fault::Interrupted, Fault::Error, Fault::WouldBlock, Fault::Eof];
        let mut faults = vec![];
        if cx.flag() {
            let at = cx.choose(text.len() + 1);
            faults.push((at, *cx.pick(&kinds)));
            // a second fault right there, soon after, or anywhere
            let k = cx.choose(if two { 10 } else { 4 });
            if k > 0 {
                let q = match k {
                    1 => at,
                    2 => at + 1,
                    3 => at + 13,
                    k => text.len() * (k - 3) / 7,
                };
                if q > text.len() {
                    return cx.prune();
                }
                faults.push((q, *cx.pick(&kinds[..3])));
            }
        }
        cx.state(&[&[i as u8], &chunk.to_le_bytes(), format!("{:?}", faults).as_bytes()]);
        cx.sample(|| format!("document {} in chunks of {} with {:?}", i, chunk, faults));
        let eof = faults.iter().filter(|f| f.1 == Fault::Eof).map(|f| f.0).min();
        let mut r = Faulty { text, pos: 0, chunk, faults: faults.clone(), raised: false, ended: false, calls: 0 };
        let got = {
            let rr = &mut r;
            cx.guard(|| Contract::load(rr)).map_err(|m| format!("document {} chunks of {} with {:?}: {}", i, chunk, faults, m))?
        };
        let what = format!("document {:?} in chunks of {} with {:?}", d[i], chunk, faults);
        let got = got.map(|c| MContract::of(&c)).map_err(|e| e.to_string());
        if r.raised {
            cx.outcome("error reported");
            if got.is_ok() {
                return Err(format!("{}: a read error was swallowed, giving {:?}", what, got));
            }
            return Ok(());
        }
        // what was delivered before an early end
        let seen = if r.ended { load_text(&text[..eof.unwrap()]) } else { whole };
        match (&seen, &got) {
            (Loaded::Must(w), Ok(g)) if w == g => cx.outcome("loaded"),
            (Loaded::Reject, Err(_)) => cx.outcome("rejected"),
            _ => return Err(format!("{}: {:?}, expected {:?}", what, got, seen)),
        }
        Ok(())
    }));
    // every value of a document replaced by a value of another kind, removed or duplicated
    v.push(space("damaged-values", 0, move |cx| {
        let ds = model_docs();
        let mut d = cx.pick(&ds).clone();
        let mut ss = vec![];
        sites(&d, vec![], &mut ss);
        for _ in 0..2 {
            let p = ss[cx.choose(ss.len())].clone();
            if {
                // a previous edit may have removed the place
                let mut all = vec![];
                sites(&d, vec![], &mut all);
                !all.contains(&p)
            } {
                return cx.prune();
            }
            let mut al = junk();
            al.extend([s(""), s("tuple"), s("function"), s("view"), s("uint256[")]);
            let k = cx.choose(al.len() + 3);
            if k < al.len() {
                *at(&mut d, &p) = al[k].clone();
            } else {
                if p.is_empty() {
                    return cx.prune();
                }
                let (q, i) = (&p[..p.len() - 1], p[p.len() - 1]);
                match at(&mut d, q) {
                    J::Arr(v) => match k - al.len() {
                        0 => {
                            v.remove(i);
                        }
                        1 => {
                            let x = v[i].clone();
                            v.push(x)
                        }
                        _ => v.insert(i, J::Null),
                    },
                    J::Obj(v) => match k - al.len() {
                        0 => {
                            v.remove(i);
                        }
                        1 => {
                            let x = v[i].clone();
                            v.push(x)
                        }
                        _ => v[i].0.push('x'),
                    },
                    _ => unreachable!(),
                }
            }
        }
        let text = d.text();
        let want = load_text(text.as_bytes());
        check_load(cx, &text, &want)
    }));
    // a key too many, a key that is only nearly right, a word that is only nearly right
    v.push(space("more-keys", 0, move |cx| {
        let text = more_keys(cx).text();
        let want = load_text(text.as_bytes());
        check_load(cx, &text, &want)
    }));
    v.push(space("near-words", 0, move |cx| {
        let mut d = cx.pick(&model_docs()).clone();
        let mut ss = vec![];
        sites(&d, vec![], &mut ss);
        if cx.flag() {
            ss.retain(|p| matches!(at(&mut d, p), J::Obj(_)));
            let p = cx.pick(&ss).clone();
            let k = near_keys();
            let key = cx.pick(&k).clone();
            if let J::Obj(o) = at(&mut d, &p) {
                let i = cx.choose(o.len());
                o[i].0 = key;
            }
        } else {
            ss.retain(|p| matches!(at(&mut d, p), J::Str(_)));
            let p = cx.pick(&ss).clone();
            if let J::Str(w) = at(&mut d, &p) {
                let mut al: Vec<String> = vec![];
                for (a, b) in [("", " "), (" ", ""), ("", "\n"), ("\t", ""), ("", "s"), ("", "_"), ("", "\0"), ("\u{feff}", ""), ("\"", "\""), ("0x", ""), ("", ","), ("", "[]"), ("", "[ ]"), ("", "[2]"), ("(", ")")] {
                    al.push(format!("{}{}{}", a, w, b));
                }
                al.extend([w.to_uppercase(), w.chars().rev().collect(), w.chars().skip(1).collect(), w.chars().take(w.chars().count().saturating_sub(1)).collect()]);
                let mut c = w.clone();
                if c.is_char_boundary(1) {
                    c[..1].make_ascii_uppercase();
                }
                al.push(c);
                for x in ["function", "event", "constructor", "fallback", "receive", "error", "struct", "default", "func", "library", "modifier", "log", "method", "Function", "Event", "call", "init", "new", "contract", "interface", "enum", "type", "null", "view", "pure", "payable", "nonpayable", "nonPayable", "constant", "external", "true", "tuple", "tuple[]", "()", "(bool)", "(bool)[]", "tuple()", "tuple(bool)", ""] {
                    al.push(x.into());
                }
                *w = cx.pick(&al).clone();
            }
        }
        let text = d.text();
        let want = load_text(text.as_bytes());
        check_load(cx, &text, &want)
    }));
    // every character of a document removed, replaced or preceded by another
    v.push(space("damaged-text", 0, move |cx| {
        let mut ds: Vec<String> = model_docs().iter().map(|j| j.text()).collect();
        ds.push(docs()[2].clone());
        let d = cx.pick(&ds).clone();
        let mut b = d.into_bytes();
        for _ in 0..t.pick(1, 1) {
            let i = cx.choose(b.len());
            let al = b"[]{}:,\"\\ 0-ax\0\xff\xc3";
            match cx.choose(3) {
                0 => {
                    b.remove(i);
                }
                1 => b[i] = al[cx.choose(al.len())],
                _ => b.insert(i, al[cx.choose(al.len())]),
            }
        }
        cx.state(&[&b]);
        cx.sample(|| String::from_utf8_lossy(&b).into_owned());
        let want = if std::str::from_utf8(&b).is_err() { Loaded::Reject } else { load_text(&b) };
        let r = cx.guard(|| Contract::load(&b[..])).map_err(|m| format!("loading {:?}: {}", String::from_utf8_lossy(&b), m))?;
        let got = r.map(|c| MContract::of(&c)).map_err(|e| e.to_string());
        match (&want, &got) {
            (Loaded::Must(w), Ok(g)) if w == g => cx.outcome("loaded"),
            (Loaded::Reject, Err(_)) => cx.outcome("rejected"),
            (Loaded::May, _) => cx.outcome("unspecified"),
            _ => return Err(format!("loading {:?} gives {:?}, expected {:?}", String::from_utf8_lossy(&b), got, want)),
        }
        Ok(())
    }));
    // short texts over JSON's alphabet
    let n = t.pick(5, 6);
    v.push(space("short-texts", 0, move |cx| {
        let al = ["[", "]", "{", "}", ",", ":", "\"type\"", "\"fallback\"", "null", "1", "\"inputs\"", "\"constructor\""];
        let k = cx.choose(n + 1);
        let text: String = (0..k).map(|_| *cx.pick(&al)).collect();
        let want = load_text(text.as_bytes());
        check_load(cx, &text, &want)
    }));
    // bad type names wherever a type can stand
    v.push(space("bad-types", 0, move |cx| {
        let bad = ["", "uint256[", "uint]", "[]", "()", "(uint", "uint)", "uint256]]", "bytesx", "uint-8", "foo", "function", "int8[-1]", "tuple[", "\u{e9}", "]", ")", "uint8[99999999999999999999]"];
        let b = *cx.pick(&bad);
        let op = place(cx, &Ty::Uint(112));
        let text = J::Arr(vec![op_json(&op)]).text().replace("\"uint112\"", &J::Str(b.into()).text());
        let want = load_text(text.as_bytes());
        check_load(cx, &text, &want)
    }));
    // nesting deeper than anything sensible: an error or a contract, never a crash
    v.push(space("deep", 0, move |cx| {
        let n = *cx.pick(&[10, 100, 120, 127, 128, 200, 1000, 20000]);
        let text = match cx.choose(4) {
            0 => format!("{}{}", "[".repeat(n), "]".repeat(n)),
            1 => format!("[{{\"type\":\"fallback\",\"x\":{}{}}}]", "[".repeat(n), "]".repeat(n)),
            2 => {
                let mut inner = "{\"name\":\"a\",\"type\":\"bool\"}".to_string();
                for _ in 0..n.min(1000) {
                    inner = format!("{{\"name\":\"a\",\"type\":\"tuple\",\"components\":[{}]}}", inner);
                }
                format!("[{{\"type\":\"constructor\",\"inputs\":[{}]}}]", inner)
            }
            _ => format!("[{{\"type\":\"constructor\",\"inputs\":[{{\"name\":\"a\",\"type\":\"{}bool{}\"}}]}}]", "(".repeat(n.min(1000)), ")".repeat(n.min(1000))),
        };
        cx.state(&[text.as_bytes()]);
        cx.sample(|| text.clone());
        load_all(cx, &text)?;
        cx.outcome("returned");
        Ok(())
    }));
    v
}

// ---- C13 --------------------------------------------------------------------------------------

/// Names close to the declared ones: edits, signatures, other cases.
fn near_names(want: &MContract, names: &mut Vec<String>) {
    let declared: Vec<String> = want.fns.keys().chain(want.evs.keys()).cloned().collect();
    let sigs: Vec<String> = want
        .fns
        .values()
        .flatten()
        .map(|f| sig_of(&f.name, f.ins.iter().map(|p| &p.ty)))
        .chain(want.evs.values().flatten().map(|e| sig_of(&e.name, e.ins.iter().map(|p| &p.1))))
        .collect();
    for d in &declared {
        for (a, b) in [("", "()"), ("", "(uint256)"), ("", "("), ("", ")"), ("", " "), (" ", ""), ("", "_"), ("_", ""), ("", "0"), ("", "\0"), ("function ", ""), ("event ", ""), ("", "x"), ("\"", "\"")] {
            names.push(format!("{}{}{}", a, d, b));
        }
        names.push(d.to_uppercase());
        names.push(d.to_lowercase());
        names.push(format!("{}{}", d, d));
        let mut cut = d.clone();
        cut.pop();
        names.push(cut);
        names.extend(d.char_indices().nth(1).map(|(i, _)| d[i..].to_string()));
        names.push(d.clone());
    }
    names.extend(sigs);
    names.sort();
    names.dedup();
}

fn sig_of<'a>(name: &str, tys: impl Iterator<Item = &'a Ty>) -> String {
    format!("{}({})", name, tys.map(|t| t.name()).collect::<Vec<_>>().join(","))
}

fn look_up(cx: &mut Cx, real: &Contract, want: &MContract, names: &[String]) -> Res {
    let show = |m: String| format!("contract {:?}: {}", want, m);
    for n in names {
        let n = n.as_str();
        let fs = want.fns.get(n).cloned().unwrap_or_default();
        let es = want.evs.get(n).cloned().unwrap_or_default();
        let r = cx
            .guard(|| {
                (
                    real.function(n).map(MFn::of).map_err(|e| e.to_string()),
                    real.functions_by_name(n).map(|v| v.iter().map(MFn::of).collect::<Vec<_>>()).map_err(|e| e.to_string()),
                    real.event(n).map(MEv::of).map_err(|e| e.to_string()),
                    real.events_by_name(n).map(|v| v.iter().map(MEv::of).collect::<Vec<_>>()).map_err(|e| e.to_string()),
                )
            })
            .map_err(|m| show(format!("looking up {:?}: {}", n, m)))?;
        if r.0.as_ref().ok() != fs.first() || (r.1.is_ok() != !fs.is_empty()) || (r.1.is_ok() && r.1.as_ref().ok() != Some(&fs)) {
            return Err(show(format!("functions named {:?}: {:?}, {:?}", n, r.0, r.1)));
        }
        if r.2.as_ref().ok() != es.first() || (r.3.is_ok() != !es.is_empty()) || (r.3.is_ok() && r.3.as_ref().ok() != Some(&es)) {
            return Err(show(format!("events named {:?}: {:?}, {:?}", n, r.2, r.3)));
        }
        // an error says which name was not found
        for m in [r.0.err(), r.1.err(), r.2.err(), r.3.err()].iter().flatten() {
            if !m.contains(n) {
                return Err(show(format!("looking up {:?} fails with {:?}", n, m)));
            }
        }
    }
    let r = cx
        .guard(|| {
            (
                real.functions().map(MFn::of).collect::<Vec<_>>(),
                real.events().map(MEv::of).collect::<Vec<_>>(),
                real.constructor().map(|c| c.inputs.iter().map(MParam::of).collect::<Vec<_>>()),
                real.receive,
                real.fallback,
            )
        })
        .map_err(|m| show(m))?;
    let key = |v: Vec<String>| {
        let mut v = v;
        v.sort();
        v
    };
    let fs: Vec<String> = want.fns.values().flatten().map(|f| format!("{:?}", f)).collect();
    let es: Vec<String> = want.evs.values().flatten().map(|f| format!("{:?}", f)).collect();
    if key(r.0.iter().map(|f| format!("{:?}", f)).collect()) != key(fs) {
        return Err(show(format!("functions() yields {:?}", r.0)));
    }
    if key(r.1.iter().map(|f| format!("{:?}", f)).collect()) != key(es) {
        return Err(show(format!("events() yields {:?}", r.1)));
    }
    if r.2 != want.ctor || r.3 != want.receive || r.4 != want.fallback {
        return Err(show(format!("constructor {:?}, receive {}, fallback {}", r.2, r.3, r.4)));
    }
    // however the iterators are driven they walk the same list
    let bad = cx
        .guard(|| {
            let mut bad = vec![];
            macro_rules! walk {
                ($n:expr, $it:expr, $of:expr, $all:expr) => {
                    let all = $all;
                    let n = all.len();
                    if $it.count() != n {
                        bad.push(format!("{}().count() is {}, yields {}", $n, $it.count(), n));
                    }
                    if $it.last().map($of).as_ref() != all.last() {
                        bad.push(format!("{}().last() is {:?}", $n, $it.last()));
                    }
                    for i in 0..n.min(4) + 1 {
                        if $it.nth(i).map($of).as_ref() != all.get(i) {
                            bad.push(format!("{}().nth({}) is {:?}", $n, i, $it.nth(i)));
                        }
                    }
                    let mut it = $it;
                    for i in 0..n + 1 {
                        let (lo, hi) = it.size_hint();
                        if lo > n - i || hi.map_or(false, |h| h < n - i) {
                            bad.push(format!("{}() says {:?} items remain where {} do", $n, (lo, hi), n - i));
                        }
                        it.next();
                    }
                    if $it.fold(0, |k, _| k + 1) != n {
                        bad.push(format!("{}() folds over other than {} items", $n, n));
                    }
                };
            }
            walk!("functions", real.functions(), MFn::of, &r.0);
            walk!("events", real.events(), MEv::of, &r.1);
            bad
        })
        .map_err(|m| show(m))?;
    if !bad.is_empty() {
        return Err(show(bad.join("; ")));
    }
    cx.outcome("looked up");
    Ok(())
}

pub fn c13(t: Tier) -> Vec<Space> {
    let n = t.pick(5, 6);
    let look = |cx: &mut Cx, real: &Contract, want: &MContract| -> Res {
        let mut names: Vec<String> = ["f", "g", "E", "", "F", "f(uint256)", "fg", "nope", "h", "\u{e9}"].iter().map(|n| n.to_string()).collect();
        near_names(want, &mut names);
        look_up(cx, real, want, &names)
    };
    let mut v = vec![];
    // contracts of names that are nearly the same, asked for names that are nearly theirs
    let k = t.pick(2, 3);
    v.push(space("near-names", 0, move |cx| {
        let al = ["f", "F", "f()", "f(uint256)", " f", "f ", "f_", "_f", "ff", "", "E", "e", "E()", "\u{e9}", "\u{e9}()", "f\0", "f,", "functionf", "function f", "(", "()", "0x", "f(uint256,uint256)"];
        let n = cx.choose(k + 1);
        let mut ops: Vec<Op> = (0..n)
            .map(|i| {
                let name = cx.pick(&al).to_string();
                if cx.choose(2) == 0 {
                    Op::Fn(MFn { name, ins: (0..i % 2).map(|_| p("a", Ty::Uint(256))).collect(), outs: vec![], constant: i == 0, mutability: MUT[i % 4] })
                } else {
                    Op::Ev(MEv { name, ins: (0..i % 2).map(|_| ("a".to_string(), Ty::Uint(256), false)).collect(), anon: i == 0 })
                }
            })
            .collect();
        let text = J::Arr(ops.iter().map(op_json).collect()).text();
        let loaded = cx.choose(2) == 0;
        if loaded {
            // the loader cuts names at the first parenthesis
            for o in ops.iter_mut() {
                match o {
                    Op::Fn(f) => f.name = f.name.split('(').next().unwrap().to_string(),
                    Op::Ev(e) => e.name = e.name.split('(').next().unwrap().to_string(),
                    _ => {}
                }
            }
        }
        let want = MContract::from_ops(&ops);
        cx.state(&[text.as_bytes(), &[loaded as u8]]);
        cx.sample(|| text.clone());
        let mut names: Vec<String> = al.iter().map(|n| n.to_string()).collect();
        near_names(&want, &mut names);
        if !loaded {
            return look_up(cx, &want.real(), &want, &names);
        }
        let c = cx.guard(|| Contract::load(text.as_bytes())).map_err(|m| format!("loading {}: {}", text, m))?;
        match c {
            Err(e) => Err(format!("loading {}: {}", text, e)),
            Ok(c) => look_up(cx, &c, &want, &names),
        }
    }));
    // one contract, asked for every short name
    let k = t.pick(4, 5);
    v.push(space("short-names", 0, move |cx| {
        let al = ["f", "g", "E", "F", "(", ")", " ", "_", ",", "uint256", "()", "\0", "\u{e9}", "0"];
        let n = cx.choose(k + 1);
        let name: String = (0..n).map(|_| *cx.pick(&al)).collect();
        let ops = vec![
            Op::Fn(MFn { name: "f".into(), ins: vec![p("a", Ty::Uint(256))], outs: vec![], constant: false, mutability: MUT[0] }),
            Op::Fn(MFn { name: "f".into(), ins: vec![], outs: vec![p("a", Ty::Uint(256))], constant: true, mutability: MUT[1] }),
            Op::Fn(MFn { name: "gE".into(), ins: vec![], outs: vec![], constant: false, mutability: MUT[2] }),
            Op::Ev(MEv { name: "E".into(), ins: vec![], anon: false }),
            Op::Ev(MEv { name: "fg".into(), ins: vec![("a".to_string(), Ty::Uint(256), true)], anon: true }),
        ];
        let text = J::Arr(ops.iter().map(op_json).collect()).text();
        let want = MContract::from_ops(&ops);
        cx.state(&[name.as_bytes()]);
        cx.sample(|| name.clone());
        let c = cx.guard(|| Contract::load(text.as_bytes())).map_err(|m| format!("loading {}: {}", text, m))?;
        match c {
            Err(e) => Err(format!("loading {}: {}", text, e)),
            Ok(c) => look_up(cx, &c, &want, &[name]),
        }
    }));
    v.push(space("loaded", 0, move |cx| {
        let ops = match op_seq(cx, n) {
            Some(o) => o,
            None => return cx.prune(),
        };
        let text = J::Arr(ops.iter().map(op_json).collect()).text();
        let want = MContract::from_ops(&ops);
        cx.state(&[text.as_bytes()]);
        cx.sample(|| text.clone());
        let c = cx.guard(|| Contract::load(text.as_bytes())).map_err(|m| format!("loading {}: {}", text, m))?;
        match c {
            Err(e) => Err(format!("loading {}: {}", text, e)),
            Ok(c) => look(cx, &c, &want),
        }
    }));
    // many overloads of one name: their order is the document's
    let m = t.pick(70, 140);
    v.push(space("overloads", 0, move |cx| {
        let n = count(cx, m, 1024);
        let how = cx.choose(3);
        let ops: Vec<Op> = (0..n)
            .flat_map(|i| {
                let i = if how == 1 { n - i } else { i };
                let name = if how == 2 && i % 3 == 0 { "g" } else { "f" };
                vec![
                    Op::Fn(MFn { name: name.into(), ins: vec![p(&format!("p{}", i), farr(Ty::Uint(8), 1 + i))], outs: vec![], constant: false, mutability: MUT[i % 4] }),
                    Op::Ev(MEv { name: name.into(), ins: vec![(format!("p{}", i), farr(Ty::Uint(8), 1 + i), i % 2 == 0)], anon: i % 5 == 0 }),
                ]
            })
            .collect();
        let text = J::Arr(ops.iter().map(op_json).collect()).text();
        let want = MContract::from_ops(&ops);
        cx.state(&[text.as_bytes()]);
        cx.sample(|| text.clone());
        let c = cx.guard(|| Contract::load(text.as_bytes())).map_err(|m| format!("loading {}: {}", text, m))?;
        match c {
            Err(e) => Err(format!("loading {}: {}", text, e)),
            Ok(c) => look(cx, &c, &want),
        }
    }));
    // operations that differ in one respect only
    let n = t.pick(3, 4);
    v.push(space("twins", 0, move |cx| {
        let ops = twin_seq(cx, n);
        let text = J::Arr(ops.iter().map(op_json).collect()).text();
        let want = MContract::from_ops(&ops);
        cx.state(&[text.as_bytes()]);
        cx.sample(|| text.clone());
        let c = cx.guard(|| Contract::load(text.as_bytes())).map_err(|m| format!("loading {}: {}", text, m))?;
        match c {
            Err(e) => Err(format!("loading {}: {}", text, e)),
            Ok(c) => look(cx, &c, &want),
        }
    }));
    // contracts put together by hand
    v.push(space("built", 0, move |cx| {
        let ops = match op_seq(cx, 3) {
            Some(o) => o,
            None => return cx.prune(),
        };
        let want = MContract::from_ops(&ops);
        cx.state(&[format!("{:?}", ops).as_bytes()]);
        cx.sample(|| format!("{:?}", ops));
        let real = want.real();
        look(cx, &real, &want)
    }));
    v
}
