//! C22: generated bindings for functions and constructors, compiled from the ABIs in abi/ by
//! /repo's derive macro, against the dynamic API and the model.

mod gen;
mod rust;

use ethabi::{Address, Hash, Uint};
use gen::{ABIS, CTORS, FNS};
use mc::abi::{load_text, Loaded, MContract, MFn, MParam};
use mc::engine::*;
use mc::gen::{clip, leaves, long_vals, moderate, show, Vg};
use mc::model::*;
use mc::runner::Tier;
use rust::*;
use std::sync::Arc;

#[global_allocator]
static ALLOC: mc::alloc::Counting = mc::alloc::Counting;

type Out = Result<Vec<Val>, String>;

pub struct FnCase {
    contract: usize,
    name: &'static str,
    encode: fn(&[Val]) -> Vec<u8>,
    decode: fn(&[u8], &[Ty]) -> Out,
    call: fn(&[Val], &[u8], &[Ty]) -> (Vec<u8>, Out),
}
pub struct CtorCase {
    contract: usize,
    encode: fn(Vec<u8>, &[Val]) -> Vec<u8>,
}

fn contract(i: usize) -> MContract {
    match load_text(ABIS[i]) {
        Loaded::Must(c) => c,
        o => panic!("abi {}: {:?}", i, o),
    }
}
fn tys(p: &[MParam]) -> Vec<Ty> {
    p.iter().map(|x| x.ty.clone()).collect()
}
fn decl(c: &FnCase, cs: &[MContract]) -> MFn {
    cs[c.contract].fns[c.name][0].clone()
}

fn inputs(cx: &mut Cx, c: &FnCase, f: &MFn, vs: &[Val]) -> Res {
    let ts = tys(&f.ins);
    let what = || format!("c{}::{} {}", c.contract, f.name, clip(&show(&ts, vs), 500));
    let mut want = selector(&f.name, &ts).to_vec();
    want.extend(encode(&ts, vs));
    cx.state(&[&[c.contract as u8], f.name.as_bytes(), &want]);
    cx.sample(what);
    let real = f.real();
    let dynamic = cx.guard(|| real.encode_input(&toks(vs))).map_err(|m| format!("{}: {}", what(), m))?.map_err(|e| e.to_string());
    let a = cx.guard(|| (c.encode)(vs)).map_err(|m| format!("{}: {}", what(), m))?;
    let (b, _) = cx.guard(|| (c.call)(vs, &[], &tys(&f.outs))).map_err(|m| format!("{}: {}", what(), m))?;
    for (n, x) in [("encode_input", &a), ("call", &b)] {
        if *x != want {
            return Err(format!("{}: {} built {}, expected {} (dynamic API {:?})", what(), n, hexs(x), hexs(&want), dynamic.map(|d| hexs(&d))));
        }
    }
    cx.outcome("same call data");
    Ok(())
}

fn outputs(cx: &mut Cx, c: &FnCase, f: &MFn, args: &[Val], data: &[u8]) -> Res {
    let ts = tys(&f.outs);
    let what = || format!("c{}::{} output ({}) {}", c.contract, f.name, mc::gen::names(&ts), clip(&hexs(data), 900));
    cx.state(&[&[c.contract as u8], f.name.as_bytes(), data]);
    cx.sample(what);
    let want = decode(&ts, data);
    let real = f.real();
    let dynamic = cx.guard(|| real.decode_output(data)).map_err(|m| format!("{}: {}", what(), m))?.map(|t| vals(&t)).map_err(|e| e.to_string());
    let a = cx.guard(|| (c.decode)(data, &ts)).map_err(|m| format!("{}: {}", what(), m))?;
    let (_, b) = cx.guard(|| (c.call)(args, data, &ts)).map_err(|m| format!("{}: call's decoder: {}", what(), m))?;
    let o = judge(&want, &a).map_err(|m| format!("{}: decode_output: {}", what(), m))?;
    judge(&want, &b).map_err(|m| format!("{}: call's decoder: {}", what(), m))?;
    if !f.outs.is_empty() && (a.is_ok() != dynamic.is_ok() || b.is_ok() != dynamic.is_ok()) {
        return Err(format!("{}: decode_output {:?}, call's decoder {:?}, dynamic API {:?}", what(), a, b, dynamic));
    }
    cx.outcome(o);
    Ok(())
}

fn c22(t: Tier) -> Vec<Space> {
    let cs: Arc<Vec<MContract>> = Arc::new((0..ABIS.len()).map(contract).collect());
    let n: usize = cs.iter().map(|c| c.fns.values().map(|v| v.len()).sum::<usize>()).sum();
    assert_eq!(n, FNS.len());
    let d = t.pick(2, 3);
    let mut v = vec![];
    let c = cs.clone();
    v.push(space("arguments of every function", d, move |cx| {
        let k = cx.pick(FNS);
        let f = decl(k, &c);
        let ts = tys(&f.ins);
        moderate(cx, &ts);
        let vs = Vg::new().vals(cx, &ts);
        inputs(cx, k, &f, &vs)
    }));
    let c = cs.clone();
    v.push(space("results of every function", d, move |cx| {
        let k = cx.pick(FNS);
        let f = decl(k, &c);
        let ts = tys(&f.outs);
        moderate(cx, &ts);
        let vs = Vg::new().vals(cx, &ts);
        let args = base(&tys(&f.ins));
        outputs(cx, k, &f, &args, &encode(&ts, &vs))
    }));
    let c = cs.clone();
    v.push(space("unusual arguments of every function", t.pick(1, 2), move |cx| {
        let k = cx.pick(FNS);
        let f = decl(k, &c);
        let ts = tys(&f.ins);
        if ts.len() > 3 || leaves(&ts) > 8 {
            return cx.prune();
        }
        let vs = Vg::rich().vals(cx, &ts);
        inputs(cx, k, &f, &vs)
    }));
    let c = cs.clone();
    v.push(space("unusual results of every function", t.pick(1, 2), move |cx| {
        let k = cx.pick(FNS);
        let f = decl(k, &c);
        let ts = tys(&f.outs);
        if ts.len() > 3 || leaves(&ts) > 8 {
            return cx.prune();
        }
        let vs = Vg::rich().vals(cx, &ts);
        let args = base(&tys(&f.ins));
        outputs(cx, k, &f, &args, &encode(&ts, &vs))
    }));
    let c = cs.clone();
    v.push(space("long arguments and results", 0, move |cx| {
        let k = cx.pick(FNS);
        let f = decl(k, &c);
        let ins = cx.flag();
        let ts = tys(if ins { &f.ins } else { &f.outs });
        let vs = match long_vals(cx, &ts) {
            Some(v) => v,
            None => return cx.prune(),
        };
        if ins {
            inputs(cx, k, &f, &vs)
        } else {
            outputs(cx, k, &f, &base(&tys(&f.ins)), &encode(&ts, &vs))
        }
    }));
    let c = cs.clone();
    v.push(space("changed results of every function", 0, move |cx| {
        let k = cx.pick(FNS);
        let f = decl(k, &c);
        let ts = tys(&f.outs);
        let args = base(&tys(&f.ins));
        let data = mutate(cx, &encode(&ts, &base(&ts)), t);
        outputs(cx, k, &f, &args, &data)
    }));
    let c = cs.clone();
    v.push(space("converted arguments", 0, move |cx| {
        use gen::{c0, c1};
        let find = |k: usize, t: &Ty| c[k].fns.values().find(|f| f[0].ins[0].ty == *t).unwrap()[0].clone();
        let name = |k: usize, t: &Ty| find(k, t).name;
        let a = [0x21u8; 20];
        let (addr, num) = (|| Val::Addr(a), |n: usize| Val::Uint(word(n)));
        match cx.choose(8) {
            0 => {
                assert_eq!(name(0, &Ty::Addr), "fun0");
                conversions(cx, &find(0, &Ty::Addr), "address from bytes", c0::functions::fun0::encode_input(a), vec![addr()])
            }
            1 => conversions(cx, &find(0, &Ty::Bool), "bool", c0::functions::fun1::encode_input(true), vec![Val::Bool(true)]),
            2 => conversions(cx, &find(0, &Ty::Str), "string from str", c0::functions::fun2::encode_input("abc"), vec![Val::Str("abc".into())]),
            3 => conversions(cx, &find(0, &Ty::Bytes), "bytes from slice", c0::functions::fun3::encode_input(&b"xyz"[..]), vec![Val::Bytes(b"xyz".to_vec())]),
            4 => conversions(cx, &find(0, &Ty::Uint(8)), "uint8 from u64", c0::functions::fun4::encode_input(77u64), vec![num(77)]),
            5 => conversions(cx, &find(1, &arr(Ty::Addr)), "address[] from an iterator", c1::functions::fun0::encode_input(vec![a, a].into_iter()), vec![Val::Arr(vec![addr(), addr()])]),
            6 => conversions(cx, &find(1, &arr(Ty::Addr)), "address[] from an array", c1::functions::fun0::call(vec![a]).0, vec![Val::Arr(vec![addr()])]),
            _ => conversions(cx, &find(1, &farr(Ty::Addr, 2)), "address[2] from bytes", c1::functions::fun2::encode_input([a, a]), vec![Val::FArr(vec![addr(), addr()])]),
        }
    }));
    let c = cs.clone();
    v.push(space("constructors", t.pick(3, 4), move |cx| {
        let k = cx.pick(CTORS);
        let ts = tys(c[k.contract].ctor.as_ref().unwrap());
        let n = *cx.pick(&[0usize, 1, 31, 32, 100]);
        let code: Vec<u8> = (0..n).map(|i| (i * 7 + 1) as u8).collect();
        moderate(cx, &ts);
        let vs = Vg::new().vals(cx, &ts);
        let what = || format!("c{}::constructor, {} bytes of code, {}", k.contract, n, clip(&show(&ts, &vs), 500));
        let mut want = code.clone();
        want.extend(encode(&ts, &vs));
        cx.state(&[&[k.contract as u8], &want]);
        cx.sample(what);
        let got = cx.guard(|| (k.encode)(code.clone(), &vs)).map_err(|m| format!("{}: {}", what(), m))?;
        if got != want {
            return Err(format!("{}: built {}, expected {}", what(), hexs(&got), hexs(&want)));
        }
        cx.outcome("same call data");
        Ok(())
    }));
    v
}

/// Arguments given as something that only converts into the parameter's type.
fn conversions(cx: &mut Cx, f: &MFn, what: &str, got: Vec<u8>, vs: Vec<Val>) -> Res {
    let ts = tys(&f.ins);
    let mut want = selector(&f.name, &ts).to_vec();
    want.extend(encode(&ts, &vs));
    cx.state(&[what.as_bytes()]);
    if got != want {
        return Err(format!("{}: built {}, expected {}", what, hexs(&got), hexs(&want)));
    }
    cx.outcome("same call data");
    Ok(())
}

fn base(ts: &[Ty]) -> Vec<Val> {
    // the default values, without any choice
    fn one(g: &mut Vg, t: &Ty) -> Val {
        match t {
            Ty::Addr => {
                let mut a = [0; 20];
                a.copy_from_slice(&g.pat(20));
                Val::Addr(a)
            }
            Ty::Bool => Val::Bool(true),
            Ty::Uint(n) => Val::Uint(g.uint(*n, 0)),
            Ty::Int(n) => Val::Int(g.int(*n, 0)),
            Ty::FBytes(n) => Val::FBytes(g.pat(*n)),
            Ty::Bytes => Val::Bytes(g.pat(5)),
            Ty::Str => Val::Str(g.text(5)),
            Ty::Arr(t) => Val::Arr((0..2).map(|_| one(g, t)).collect()),
            Ty::FArr(t, n) => Val::FArr((0..*n).map(|_| one(g, t)).collect()),
            Ty::Tup(ts) => Val::Tup(ts.iter().map(|t| one(g, t)).collect()),
        }
    }
    let mut g = Vg::new();
    ts.iter().map(|t| one(&mut g, t)).collect()
}

/// The data cut at any byte of its ends or any word, extended, or with one word (thorough: two)
/// replaced.
fn mutate(cx: &mut Cx, data: &[u8], t: Tier) -> Vec<u8> {
    let n = data.len() / 32;
    let mut d = data.to_vec();
    let k = cx.choose(4 + n + n);
    if k == 0 {
        d.pop();
    } else if k == 1 {
        d.extend([0; 32]);
    } else if k == 2 {
        d.push(0xff);
    } else if k == 3 {
        d.clear();
    } else if k < 4 + n {
        d.truncate(32 * (k - 4) + *cx.pick(&[0usize, 1]));
    } else {
        let mut at = k - 4 - n;
        for round in 0..t.pick(1, 2) {
            let w = &mut d[32 * at..32 * at + 32];
            match cx.choose(9) {
                0 => w.copy_from_slice(&word(0)),
                1 => w.copy_from_slice(&word(1)),
                2 => w.copy_from_slice(&word(2)),
                3 => w.copy_from_slice(&word(32)),
                4 => w.copy_from_slice(&word(data.len())),
                5 => w.copy_from_slice(&word(data.len() - 32)),
                6 => w.copy_from_slice(&[0xff; 32]),
                7 => w[0] ^= 0x80,
                _ => w[31] ^= 1,
            }
            if round == 0 {
                at += 1;
                if at >= n || t == Tier::Quick {
                    break;
                }
            }
        }
    }
    d
}

fn registry(id: &str, t: Tier) -> Option<Vec<Space>> {
    if id == "C22" {
        Some(c22(t))
    } else {
        None
    }
}

fn assumptions(_: &str) -> Vec<String> {
    vec![
        "ABIs without tuples and overloads, whose names map to distinct Rust identifiers that are no keywords and not used by the generated code itself".into(),
        "the bindings are compiled as edition 2018, like the repository's own crates".into(),
    ]
}

fn main() {
    mc::runner::main(registry, assumptions)
}
