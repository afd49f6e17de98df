//! C01 encoding conforms to the specification; C02 decoding inverts encoding; C05 type gate.

use mc::engine::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;
use std::sync::Arc;

type Check = fn(&mut Cx, &[Ty], &[Val]) -> Res;

/// The value universes shared by C01 and C02.
fn universes(t: Tier, check: Check, fb_short: bool) -> Vec<Space> {
    let mut v = vec![];
    // every shape, two leaf kinds (one static, one dynamic)
    let n = t.pick(6, 7);
    v.push(space("shapes", 1, move |cx| {
        let ts = tys_upto(cx, n, true, &[Ty::Uint(256), Ty::Bytes], &FLENS);
        let mut g = Vg::new();
        let vs = g.vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    // fewer nodes, several lengths changed at once
    let (n, d, fl): (usize, usize, &'static [usize]) = t.pick((5, 2, &[2, 1]), (5, 3, &[2, 1]));
    v.push(space("shapes-lengths", d, move |cx| {
        let ts = tys_upto(cx, n, false, &[Ty::Uint(256), Ty::Str], fl);
        let mut g = Vg::new();
        g.extremes = false;
        let vs = g.vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    // many shapes, all leaf kinds
    let n = t.pick(4, 4);
    v.push(space("kinds", t.pick(1, 2), move |cx| {
        let ts = tys_upto(cx, n, false, &leaf_kinds(), &[2, 1]);
        let mut g = Vg::new();
        g.fb_short = fb_short;
        let vs = g.vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    // unusual contents of every kind of leaf
    v.push(space("odd-contents", t.pick(1, 2), move |cx| {
        let ts = tys_upto(cx, 3, false, &leaf_kinds(), &[2]);
        let vs = Vg::rich().vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    // wide argument lists: position effects past the first few arguments
    let w = t.pick(9, 12);
    v.push(space("wide", 1, move |cx| {
        let n = 1 + cx.choose(w);
        let kinds = [Ty::Uint(256), Ty::Str, tup(&[Ty::Bool, Ty::Addr]), arr(tup(&[Ty::Bytes, Ty::Uint(8)]))];
        let ts: Vec<Ty> =
            (0..n).map(|i| if i < 5 { cx.pick(&kinds[..3]).clone() } else { kinds[(i * 3 + n) % 4].clone() }).collect();
        let mut g = Vg::new();
        let vs = g.vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    // deep chains
    let depth = t.pick(9, 12);
    v.push(space("deep", 0, move |cx| {
        let mut ty = cx.pick(&[Ty::Uint(256), Ty::Bytes]).clone();
        let n = cx.choose(depth + 1);
        for _ in 0..n {
            ty = match cx.choose(3) {
                0 => arr(ty),
                1 => farr(ty, 1),
                _ => tup(&[ty]),
            }
        }
        let ts = vec![ty, Ty::Bool];
        let mut g = Vg::new();
        g.lens = &[1];
        let vs = g.vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    // long regular chains
    let depth = 201;
    v.push(space("deeper", 0, move |cx| {
        let mut ty = cx.pick(&[Ty::Uint(256), Ty::Bytes]).clone();
        let n = cx.choose(depth);
        let how = cx.choose(6);
        ty = chain(ty, n, how);
        let ts = vec![ty, Ty::Bool];
        let mut g = Vg::new();
        g.lens = &[1];
        let vs = g.vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    // every number of arguments, and of members of one tuple
    let mut ar: Vec<usize> = (1..=t.pick(70, 140)).collect();
    ar.extend([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025]);
    v.push(space("arity", 0, move |cx| {
        let n = *cx.pick(&ar);
        let how = cx.choose(5);
        let kinds = [Ty::Uint(256), Ty::Str, tup(&[Ty::Bool, Ty::Addr]), arr(tup(&[Ty::Bytes, Ty::Uint(8)])), farr(Ty::Int(64), 2), farr(Ty::Str, 2)];
        let at = if how == 4 { cx.choose(n.min(40)) } else { 0 };
        let members: Vec<Ty> = (0..n)
            .map(|i| match how {
                0 => Ty::Uint(8 * (1 + i % 32)),
                1 => Ty::Str,
                2 => kinds[i % 6].clone(),
                3 => kinds[(i * 5 + i / 6) % 6].clone(),
                // a single dynamic member among static ones
                _ => if i == at { Ty::Bytes } else { Ty::Bool },
            })
            .collect();
        let ts = match cx.choose(4) {
            0 => members,
            1 => vec![Ty::Bytes, tup(&members), Ty::Bytes],
            2 => vec![arr(tup(&members)), Ty::Str],
            _ => vec![farr(tup(&members), 2), Ty::Str],
        };
        let mut g = Vg::new();
        g.extremes = false;
        let vs = g.vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    let m = t.pick(20, 40);
    v.push(space("odd-member", 0, move |cx| {
        let ty = odd_member(cx, m);
        let ts = match cx.choose(3) {
            0 => vec![ty],
            1 => vec![ty, Ty::Str],
            _ => vec![Ty::Bytes, ty, Ty::Bool],
        };
        let mut g = Vg::new();
        g.extremes = false;
        let vs = g.vals(cx, &ts);
        check(cx, &ts, &vs)
    }));
    // equal values in one frame, next to each other and apart: each has a place of its own
    let n = t.pick(5, 6);
    v.push(space("repeated", 1, move |cx| {
        let one = 1 + cx.choose(n);
        let ty = ty(cx, one, &[Ty::Uint(256), Ty::Bytes, Ty::Str], &[2, 1]);
        let mut g = Vg::new();
        let x = g.val(cx, &ty);
        let y = Vg { ctr: 77, ..Vg::new() }.val(cx, &ty);
        let z = |s: &str| Val::Str(s.into());
        let (ts, vs) = match cx.choose(8) {
            0 => (vec![ty.clone(), ty], vec![x.clone(), x]),
            1 => (vec![ty.clone(), Ty::Str, ty], vec![x.clone(), z("between"), x]),
            2 => (vec![ty.clone(), ty.clone(), ty], vec![x.clone(), y, x]),
            3 => (vec![ty.clone(), ty.clone(), ty], vec![y, x.clone(), x]),
            4 => (vec![arr(ty.clone()), ty], vec![Val::Arr(vec![x.clone(), y, x.clone()]), x]),
            5 => (vec![farr(ty, 3), Ty::Str], vec![Val::FArr(vec![x.clone(), x.clone(), x]), z("")]),
            6 => (vec![tup(&[ty.clone(), Ty::Bool, ty.clone()]), ty], vec![Val::Tup(vec![x.clone(), Val::Bool(true), x.clone()]), x]),
            _ => (vec![arr(arr(ty.clone())), arr(ty)], vec![Val::Arr(vec![Val::Arr(vec![x.clone(), y.clone()]), Val::Arr(vec![x.clone(), y.clone()])]), Val::Arr(vec![x, y])]),
        };
        check(cx, &ts, &vs)
    }));
    // contents of byte strings: nothing about them may matter
    let l = t.pick(68, 132);
    v.push(space("contents", 0, move |cx| {
        let n = cx.choose(l);
        let how = cx.choose(10);
        let b: Vec<u8> = (0..n)
            .map(|i| match how {
                0 => 0,
                1 => 0xff,
                2 => if i == 0 { 7 } else { 0 },
                3 => if i + 1 == n { 7 } else { 0 },
                4 => b" "[0],
                5 => if i % 2 == 0 { b'"' } else { b',' },
                6 => i as u8,
                7 => if i % 32 == 31 { 32 } else { 0 },
                8 => if i < n / 2 { 0x41 } else { 0 },
                _ => 0x80 ^ i as u8,
            })
            .collect();
        let as_text = how < 9 && how != 1;
        let (ty, x) = if cx.flag() && as_text {
            let s: String = b.iter().map(|x| (*x & 0x7f) as char).collect();
            (Ty::Str, Val::Str(s))
        } else {
            (Ty::Bytes, Val::Bytes(b))
        };
        let (ts, vs) = match cx.choose(4) {
            0 => (vec![ty], vec![x]),
            1 => (vec![ty.clone(), Ty::Uint(256), ty], vec![x.clone(), Val::Uint(word(32)), x]),
            2 => (vec![farr(ty, 2)], vec![Val::FArr(vec![x.clone(), x])]),
            _ => (vec![arr(tup(&[Ty::Bool, ty]))], vec![Val::Arr(vec![Val::Tup(vec![Val::Bool(true), x.clone()]), Val::Tup(vec![Val::Bool(false), x])])]),
        };
        check(cx, &ts, &vs)
    }));
    // every elementary type, every wrapper, walking bits
    let els = Arc::new(elementary());
    v.push(space("elementary", 0, move |cx| {
        let t = cx.pick(&els).clone();
        let mut g = Vg::new();
        let x = match &t {
            Ty::Uint(n) => {
                let k = cx.choose(3 + n);
                Val::Uint(if k < 3 { g.uint(*n, k) } else { bit(k - 3) })
            }
            Ty::Int(n) => {
                let k = cx.choose(5 + n);
                Val::Int(if k < 5 {
                    g.int(*n, k)
                } else if k - 5 == n - 1 {
                    neg(bit(k - 5))
                } else {
                    bit(k - 5)
                })
            }
            Ty::Addr => {
                let k = cx.choose(162);
                let mut a = [0u8; 20];
                match k {
                    160 => a.copy_from_slice(&g.pat(20)),
                    161 => a = [0xff; 20],
                    k => a[19 - k / 8] = 1 << (k % 8),
                }
                Val::Addr(a)
            }
            Ty::Bool => Val::Bool(cx.flag()),
            Ty::FBytes(n) => {
                let k = cx.choose(8 * n + 2 + if fb_short { n + 1 } else { 0 });
                if k < 8 * n {
                    let mut b = vec![0; *n];
                    b[k / 8] = 1 << (k % 8);
                    Val::FBytes(b)
                } else if k < 8 * n + 2 {
                    Val::FBytes(if k == 8 * n { vec![0xff; *n] } else { g.pat(*n) })
                } else {
                    Val::FBytes(g.pat(k - 8 * n - 2))
                }
            }
            Ty::Bytes => {
                let n = cx.choose(70);
                Val::Bytes(g.pat(n))
            }
            Ty::Str => {
                let n = cx.choose(70);
                Val::Str(g.text(n))
            }
            _ => unreachable!(),
        };
        let (ts, vs) = match cx.choose(5) {
            0 => (vec![t], vec![x]),
            1 => (vec![arr(t.clone()), t], vec![Val::Arr(vec![x.clone(), x.clone()]), x]),
            2 => (vec![Ty::Bool, farr(t, 2)], vec![Val::Bool(true), Val::FArr(vec![x.clone(), x])]),
            3 => (vec![tup(&[t.clone(), Ty::Bytes, t])], vec![Val::Tup(vec![x.clone(), Val::Bytes(g.pat(3)), x])]),
            _ => (vec![tup(&[Ty::Addr, t]), Ty::Bool], vec![Val::Tup(vec![Val::Addr([9; 20]), x]), Val::Bool(false)]),
        };
        check(cx, &ts, &vs)
    }));
    // length boundaries
    let mut bl: Vec<usize> = (0..=t.pick(300, 1100)).collect();
    bl.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]);
    bl.extend([65503, 65504, 65505, 65535, 65536, 65537]);
    bl.extend([8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 131071, 131072, 131073]);
    bl.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1]);
    if t == Tier::Thorough {
        bl.extend([(1 << 24) - 1, (1 << 24) + 1]);
    }
    bl.push(1 << 24);
    v.push(space("byte-lengths", 0, move |cx| {
        let n = *cx.pick(&bl);
        let mut g = Vg::new();
        let s = cx.flag();
        if n == 1 << 24 && s && t == Tier::Quick {
            return cx.prune();
        }
        let (t, x) = if s { (Ty::Str, Val::Str(g.text(n))) } else { (Ty::Bytes, Val::Bytes(g.pat(n))) };
        let b = Val::Bytes(g.pat(7));
        let (ts, vs) = match cx.choose(4) {
            0 => (vec![t], vec![x]),
            1 => (vec![t, Ty::Bytes, Ty::Bool], vec![x, b, Val::Bool(true)]),
            2 => (vec![arr(t), Ty::Bytes], vec![Val::Arr(vec![x.clone(), x]), b]),
            _ => (vec![tup(&[t, Ty::Bytes]), Ty::Bytes], vec![Val::Tup(vec![x, b.clone()]), b]),
        };
        check(cx, &ts, &vs)
    }));
    let mut al: Vec<usize> = (0..=t.pick(140, 300)).collect();
    al.extend([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]);
    al.extend([65537, (1 << 17) + 1, (1 << 18) + 1, (1 << 20) + 1]);
    if t == Tier::Thorough {
        al.extend([8191, 8192, 8193, 16384, 32768, 65535, 65536]);
    }
    v.push(space("array-lengths", 0, move |cx| {
        let n = *cx.pick(&al);
        let mut g = Vg::new();
        let kinds = [Ty::Uint(256), Ty::Bytes, tup(&[Ty::Bool, Ty::Addr]), arr(Ty::Bool), farr(Ty::Str, 2)];
        let t = cx.pick(&kinds[..if n > 1 << 17 { 1 } else if n > 1 << 16 { 3 } else { 5 }]).clone();
        g.extremes = false;
        let vs: Vec<Val> = (0..n).map(|_| g.val(cx, &t)).collect();
        let b = Val::Bytes(g.pat(7));
        let (ts, vs) = if n > 0 && cx.flag() {
            (vec![Ty::Bytes, farr(t, n), Ty::Bytes], vec![b.clone(), Val::FArr(vs), b])
        } else {
            (vec![Ty::Bytes, arr(t), Ty::Bytes], vec![b.clone(), Val::Arr(vs), b])
        };
        check(cx, &ts, &vs)
    }));
    v
}

fn bit(i: usize) -> [u8; 32] {
    let mut w = [0; 32];
    w[31 - i / 8] = 1 << (i % 8);
    w
}
/// Sign-extend the word upwards of its single set bit.
fn neg(w: [u8; 32]) -> [u8; 32] {
    let i = w.iter().position(|x| *x != 0).unwrap();
    let mut r = w;
    r[..i].iter_mut().for_each(|x| *x = 0xff);
    r
}

fn tshow(cx: &mut Cx, ts: &[Ty], vs: &[Val], e: &[u8]) {
    cx.sample(|| format!("{} -> {}", show(ts, vs), clip(&hexs(e), 128)));
}

fn check_encode(cx: &mut Cx, ts: &[Ty], vs: &[Val]) -> Res {
    let want = encode(ts, vs);
    let tokens = toks(vs);
    cx.state(&[names(ts).as_bytes(), &want]);
    tshow(cx, ts, vs, &want);
    let got = cx.guard(|| ethabi::encode(&tokens)).map_err(|m| format!("encode {}: {}", show(ts, vs), m))?;
    cx.outcome("encoded");
    if got != want {
        return Err(format!("encode {}: got {}, specification {}", show(ts, vs), hexs(&got), hexs(&want)));
    }
    Ok(())
}

fn check_roundtrip(cx: &mut Cx, ts: &[Ty], vs: &[Val]) -> Res {
    let tokens = toks(vs);
    let pts = reals(ts);
    let enc = cx.guard(|| ethabi::encode(&tokens)).map_err(|m| format!("encode {}: {}", show(ts, vs), m))?;
    cx.state(&[names(ts).as_bytes(), &enc]);
    tshow(cx, ts, vs, &enc);
    let got = cx.guard(|| ethabi::decode(&pts, &enc)).map_err(|m| format!("decode {}: {}", show(ts, vs), m))?;
    if ts.is_empty() && enc.is_empty() {
        // nothing to decode
        return match got {
            Ok(v) if v.is_empty() => Ok(()),
            o => Err(format!("decoding no types from no data gave {:?}", o)),
        };
    }
    let want: Vec<Val> = vs.iter().zip(ts).map(|(v, t)| v.normal(t)).collect();
    match got {
        Ok(g) => {
            cx.outcome("round-tripped");
            let g = vals(&g);
            if g != want {
                return Err(format!("round trip of {} gave {:?}", show(ts, vs), g));
            }
        }
        Err(e) => return Err(format!("decode(encode({})) failed: {}", show(ts, vs), e)),
    }
    Ok(())
}

pub fn c01(t: Tier) -> Vec<Space> {
    universes(t, check_encode, true)
}
pub fn c02(t: Tier) -> Vec<Space> {
    universes(t, check_roundtrip, true)
}

// ---- C05 --------------------------------------------------------------------------------------

pub fn one_of_each() -> Vec<Val> {
    vec![
        Val::Uint(word(5)),
        Val::Int(word(5)),
        Val::Addr([7; 20]),
        Val::Bool(true),
        Val::Bytes(vec![1, 2]),
        Val::Str("ab".into()),
        Val::FBytes(vec![]),
        Val::FBytes(vec![1]),
        Val::FBytes(vec![1, 2]),
        Val::FBytes(vec![3; 32]),
        Val::FBytes(vec![3; 33]),
        Val::Arr(vec![]),
        Val::FArr(vec![]),
        Val::Tup(vec![]),
    ]
}

/// A value built freely, then compared with the type: all near misses included.
fn near(cx: &mut Cx, t: &Ty, alphabet: &[Val]) -> Val {
    // alternative 0 is a value of the type; the rest are the near misses of its constructor and
    // every other leaf
    let k = cx.choose2(1, alphabet.len() + 6);
    if k >= 7 {
        return alphabet[k - 7].clone();
    }
    let subs: Vec<&Ty> = match t {
        Ty::Arr(t) => vec![&**t, &**t],
        Ty::FArr(t, n) => vec![&**t; *n],
        Ty::Tup(ts) => ts.iter().collect(),
        _ => {
            let mut g = Vg::new();
            return g.val(cx, t);
        }
    };
    let mut vs: Vec<Val> = subs.iter().map(|t| near(cx, t, alphabet)).collect();
    let ctor = |v: Vec<Val>, i: usize| match i {
        0 => Val::Arr(v),
        1 => Val::FArr(v),
        _ => Val::Tup(v),
    };
    let own = match t {
        Ty::Arr(_) => 0,
        Ty::FArr(..) => 1,
        _ => 2,
    };
    match k {
        0 => {}
        1 => {
            vs.pop();
        }
        2 => {
            if let Some(l) = vs.last().cloned() {
                vs.push(l)
            }
        }
        3 => return ctor(vs, (own + 1) % 3),
        4 => return ctor(vs, (own + 2) % 3),
        5 => {
            vs.pop();
            vs.pop();
        }
        _ => {
            if vs.len() > 1 {
                vs.rotate_left(1)
            } else {
                return ctor(vec![ctor(vs, own)], own);
            }
        }
    }
    ctor(vs, own)
}

fn gate(cx: &mut Cx, ts: &[Ty], vs: &[Val]) -> Res {
    let ok = ts.len() == vs.len() && vs.iter().zip(ts).all(|(v, t)| v.of(t));
    let (tokens, pts) = (toks(vs), reals(ts));
    let what = || format!("types ({}), tokens {:?}", names(ts), vs);
    cx.state(&[names(ts).as_bytes(), format!("{:?}", vs).as_bytes()]);
    cx.sample(what);
    cx.outcome(if ok { "well-typed" } else { "ill-typed" });
    let r = cx.guard(|| ethabi::Token::types_check(&tokens, &pts)).map_err(|m| format!("{}: {}", what(), m))?;
    if r != ok {
        return Err(format!("types_check says {} for {}", r, what()));
    }
    if ts.len() == 1 && vs.len() == 1 {
        let r = cx.guard(|| tokens[0].type_check(&pts[0])).map_err(|m| format!("{}: {}", what(), m))?;
        if r != ok {
            return Err(format!("type_check says {} for {}", r, what()));
        }
    }
    // the gate is what guards call building
    let f = function("f", ts, &[]);
    let c = ethabi::Constructor { inputs: f.inputs.clone() };
    let r = cx.guard(|| f.encode_input(&tokens)).map_err(|m| format!("{}: {}", what(), m))?;
    if r.is_ok() != ok {
        return Err(format!("encode_input gives {:?} for {}", r.map(|x| hexs(&x)), what()));
    }
    let r = cx.guard(|| c.encode_input(vec![0xfe, 1], &tokens)).map_err(|m| format!("{}: {}", what(), m))?;
    if r.is_ok() != ok {
        return Err(format!("constructor encode_input gives {:?} for {}", r.map(|x| hexs(&x)), what()));
    }
    Ok(())
}

#[allow(deprecated)]
pub fn function(name: &str, ins: &[Ty], outs: &[Ty]) -> ethabi::Function {
    let p = |ts: &[Ty]| {
        ts.iter()
            .enumerate()
            .map(|(i, t)| ethabi::Param { name: format!("p{}", i), kind: t.real(), internal_type: None })
            .collect()
    };
    ethabi::Function {
        name: name.into(),
        inputs: p(ins),
        outputs: p(outs),
        constant: false,
        state_mutability: ethabi::StateMutability::NonPayable,
    }
}

pub fn c05(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let all = Arc::new(one_of_each());
    // every elementary type against every leaf token
    let (els, a) = (Arc::new(elementary()), all.clone());
    v.push(space("leaf-matrix", 0, move |cx| {
        let t = cx.pick(&els).clone();
        let x = match cx.choose(2) {
            0 => cx.pick(&a).clone(),
            _ => {
                let n = cx.choose(70);
                let b = *cx.pick(&[1u8, 0, 0xff]);
                let mut x = vec![b; n];
                if cx.flag() && n > 0 {
                    x[0] = 7;
                }
                Val::FBytes(x)
            }
        };
        match cx.choose(4) {
            0 => gate(cx, &[t], &[x]),
            1 => gate(cx, &[arr(t)], &[Val::Arr(vec![x])]),
            2 => gate(cx, &[farr(t, 1)], &[Val::FArr(vec![x])]),
            _ => gate(cx, &[tup(&[t])], &[Val::Tup(vec![x])]),
        }
    }));
    let (n, d) = t.pick((5, 1), (4, 2));
    let a = all.clone();
    v.push(space("near-misses", d, move |cx| {
        let ts = tys_upto(cx, n, false, &[Ty::Uint(256), Ty::Bytes, Ty::FBytes(2)], &[2, 1]);
        let vs: Vec<Val> = ts.iter().map(|t| near(cx, t, &a)).collect();
        gate(cx, &ts, &vs)
    }));
    let n = t.pick(3, 4);
    let d = t.pick(3, 3);
    let a = all.clone();
    v.push(space("near-misses-2", d, move |cx| {
        let ts = tys_upto(cx, n, false, &[Ty::Uint(8), Ty::Str], &[2, 1]);
        let vs: Vec<Val> = ts.iter().map(|t| near(cx, t, &a)).collect();
        gate(cx, &ts, &vs)
    }));
    // arity: every number of arguments against every number of parameters
    v.push(space("arity", 0, move |cx| {
        let (n, m) = (cx.choose(6), cx.choose(6));
        let k = cx.choose(3);
        let t = [Ty::Bool, Ty::Str, tup(&[Ty::Bool, Ty::Bool])][k].clone();
        let x = [Val::Bool(true), Val::Str("q".into()), Val::Tup(vec![Val::Bool(true), Val::Bool(false)])][k].clone();
        match cx.choose(3) {
            0 => gate(cx, &vec![t; n], &vec![x; m]),
            1 if n > 0 => gate(cx, &[tup(&vec![t; n])], &[Val::Tup(vec![x; m])]),
            2 if n > 0 => gate(cx, &[arr(farr(t, n))], &[Val::Arr(vec![Val::FArr(vec![x; m])])]),
            _ => cx.prune(),
        }
    }));
    // one wrong item anywhere in a long list
    let m = t.pick(140, 300);
    v.push(space("one-wrong-item", 0, move |cx| {
        let n = 1 + cx.choose(m);
        let at = cx.choose(n + 1); // n: none is wrong
        let (ty, good, bad) = cx
            .pick(&[
                (Ty::Bool, Val::Bool(true), Val::Uint(word(1))),
                (Ty::FBytes(3), Val::FBytes(vec![1; 3]), Val::FBytes(vec![1; 4])),
                (Ty::Str, Val::Str("s".into()), Val::Bytes(b"s".to_vec())),
                (tup(&[Ty::Bool, Ty::Str]), Val::Tup(vec![Val::Bool(true), Val::Str("".into())]), Val::Tup(vec![Val::Bool(true)])),
                (arr(Ty::Bool), Val::Arr(vec![]), Val::Arr(vec![Val::Bool(true), Val::Bool(false), Val::Int(word(0))])),
            ])
            .clone();
        let vs: Vec<Val> = (0..n).map(|i| if i == at { bad.clone() } else { good.clone() }).collect();
        match cx.choose(5) {
            0 => gate(cx, &vec![ty; n], &vs),
            1 => gate(cx, &[Ty::Bool, arr(ty)], &[Val::Bool(true), Val::Arr(vs)]),
            2 => gate(cx, &[farr(ty, n), Ty::Str], &[Val::FArr(vs), Val::Str("".into())]),
            3 => gate(cx, &[tup(&vec![ty; n])], &[Val::Tup(vs)]),
            _ => gate(cx, &[arr(farr(arr(ty), 1))], &[Val::Arr(vec![Val::FArr(vec![Val::Arr(vs)])])]),
        }
    }));
    // the same in lists of thousands, wherever a limit might stop looking
    v.push(space("one-wrong-item-far", 0, move |cx| {
        let p = 1usize << (7 + cx.choose(t.pick(10, 13)));
        let n = p + cx.choose(3);
        let at = match cx.choose(7) {
            0 => n,
            1 => n - 1,
            2 => n / 2,
            3 => p - 1,
            4 if n > p => p,
            5 => 100,
            6 => n / 10 * 9,
            _ => return cx.prune(),
        };
        let vs: Vec<Val> = (0..n).map(|i| if i == at { Val::Uint(word(1)) } else { Val::Bool(i % 2 == 0) }).collect();
        match cx.choose(4) {
            0 => gate(cx, &[arr(Ty::Bool)], &[Val::Arr(vs)]),
            1 => gate(cx, &[farr(Ty::Bool, n)], &[Val::FArr(vs)]),
            2 if n < 1 << 14 => gate(cx, &[tup(&vec![Ty::Bool; n])], &[Val::Tup(vs)]),
            3 if n < 1 << 14 => gate(cx, &vec![Ty::Bool; n], &vs),
            _ => cx.prune(),
        }
    }));
    // lengths of fixed-size arrays, large ones included
    v.push(space("array-lengths", 0, move |cx| {
        let ls = [1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1024, 4096, 65535, 65536, 65537];
        let n = *cx.pick(&ls);
        let k = cx.choose(ls.len() + 1);
        let m = if k == ls.len() { 0 } else { ls[k] };
        match cx.choose(3) {
            0 => gate(cx, &[farr(Ty::Bool, n)], &[Val::FArr(vec![Val::Bool(true); m])]),
            1 if n <= 4096 && m <= 4096 => gate(cx, &[arr(farr(Ty::Str, n))], &[Val::Arr(vec![Val::FArr(vec![Val::Str("".into()); m])])]),
            2 if n <= 4096 && m <= 4096 => gate(cx, &[tup(&vec![Ty::Uint(8); n])], &[Val::Tup(vec![Val::Uint(word(1)); m])]),
            _ => cx.prune(),
        }
    }));
    // deep: one wrong leaf at the bottom
    let m = 201;
    v.push(space("deep", 0, move |cx| {
        let n = cx.choose(m);
        let how = cx.choose(4);
        let ok = cx.flag();
        let (mut t, mut x) = (Ty::FBytes(2), if ok { Val::FBytes(vec![1, 2]) } else { Val::FBytes(vec![1, 2, 3]) });
        for i in 0..n {
            let (a, b) = match (how, i % 3) {
                (0, _) | (3, 0) => (arr(t), Val::Arr(vec![x])),
                (1, _) | (3, 1) => (farr(t, 1), Val::FArr(vec![x])),
                _ => (tup(&[Ty::Bool, t]), Val::Tup(vec![Val::Bool(false), x])),
            };
            t = a;
            x = b;
        }
        gate(cx, &[t], &[x])
    }));
    // every ordered pair of types: a value of one is a value of the other only if it should be
    let n = t.pick(4, 5);
    v.push(space("type-pairs", 0, move |cx| {
        let l = [Ty::Uint(256), Ty::Str];
        let a = 1 + cx.choose(n);
        let b = 1 + cx.choose(n);
        let t1 = ty(cx, a, &l, &[2, 1]);
        let t2 = ty(cx, b, &l, &[2, 1]);
        let mut g = Vg::new();
        let x = g.val(cx, &t2);
        gate(cx, &[t1], &[x])
    }));
    v
}

// ---- C26 --------------------------------------------------------------------------------------

/// Every accessor on one value: its own kind gives the content, every other gives nothing.
fn access(cx: &mut Cx, t: &Ty, v: &Val) -> Res {
    let tok = v.real();
    let what = || format!("{} token {:?}", t.name(), v);
    cx.state(&[t.name().as_bytes(), v.display().as_bytes()]);
    cx.sample(what);
    let got = cx
        .guard(|| {
            let c = || tok.clone();
            vec![
                c().into_address().map(|a| Val::Addr(a.0)),
                c().into_fixed_bytes().map(Val::FBytes),
                c().into_bytes().map(Val::Bytes),
                c().into_int().map(|x| Val::from_real(&ethabi::Token::Int(x))),
                c().into_uint().map(|x| Val::from_real(&ethabi::Token::Uint(x))),
                c().into_bool().map(Val::Bool),
                c().into_string().map(Val::Str),
                c().into_fixed_array().map(|x| Val::FArr(vals(&x))),
                c().into_array().map(|x| Val::Arr(vals(&x))),
            ]
        })
        .map_err(|m| format!("{}: {}", what(), m))?;
    let k = match v {
        Val::Addr(_) => 0,
        Val::FBytes(_) => 1,
        Val::Bytes(_) => 2,
        Val::Int(_) => 3,
        Val::Uint(_) => 4,
        Val::Bool(_) => 5,
        Val::Str(_) => 6,
        Val::FArr(_) => 7,
        Val::Arr(_) => 8,
        Val::Tup(_) => 9,
    };
    for (i, g) in got.iter().enumerate() {
        let want = if i == k { Some(v) } else { None };
        if g.as_ref() != want {
            return Err(format!("{}: accessor {} gives {:?}", what(), i, g));
        }
    }
    let d = cx.guard(|| tok.is_dynamic()).map_err(|m| format!("{}: {}", what(), m))?;
    // an empty array of a fixed size does not occur; a dynamic array is dynamic whatever it holds
    if d != t.is_dyn() {
        return Err(format!("{}: reported as {}", what(), if d { "dynamic" } else { "static" }));
    }
    cx.outcome("accessed");
    Ok(())
}

pub fn c26(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = t.pick(5, 6);
    v.push(space("shapes", 1, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Bytes], &[2, 1]);
        let x = Vg::new().val(cx, &ty);
        access(cx, &ty, &x)
    }));
    v.push(space("kinds", 2, move |cx| {
        let k = 1 + cx.choose(3);
        let ty = ty(cx, k, &leaf_kinds(), &[2, 1]);
        let mut g = Vg::new();
        g.fb_short = true;
        let x = g.val(cx, &ty);
        access(cx, &ty, &x)
    }));
    let mut ls: Vec<usize> = (0..=t.pick(140, 400)).collect();
    ls.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537]);
    v.push(space("lengths", 0, move |cx| {
        let n = *cx.pick(&ls);
        let mut g = Vg::new();
        let (ty, x) = match cx.choose(6) {
            0 => (Ty::Bytes, Val::Bytes(g.pat(n))),
            1 => (Ty::Str, Val::Str(g.text(n))),
            2 => (arr(Ty::Uint(256)), Val::Arr((0..n).map(|i| Val::Uint(word(i))).collect())),
            3 => (farr(Ty::Bytes, n.max(1)), Val::FArr((0..n.max(1)).map(|i| Val::Bytes(vec![i as u8; i % 3])).collect())),
            4 => (farr(farr(Ty::Bool, 2), n.max(1)), Val::FArr((0..n.max(1)).map(|i| Val::FArr(vec![Val::Bool(i % 2 == 0), Val::Bool(true)])).collect())),
            // the only dynamic member comes last
            _ => {
                let mut ts = vec![Ty::Bool; n];
                let mut vs = vec![Val::Bool(true); n];
                ts.push(Ty::Str);
                vs.push(Val::Str("z".into()));
                (tup(&ts), Val::Tup(vs))
            }
        };
        access(cx, &ty, &x)
    }));
    v.push(space("elementary", 1, move |cx| {
        let ty = cx.pick(&elementary()).clone();
        let x = Vg::rich().val(cx, &ty);
        access(cx, &ty, &x)
    }));
    let m = t.pick(24, 60);
    v.push(space("odd-member", 1, move |cx| {
        let ty = odd_member(cx, m);
        let mut g = Vg::new();
        g.extremes = false;
        let x = g.val(cx, &ty);
        access(cx, &ty, &x)
    }));
    let depth = 201;
    v.push(space("deep", 0, move |cx| {
        let l = cx.pick(&[Ty::Uint(256), Ty::Bytes, Ty::Bool, tup(&[Ty::Addr, Ty::Str])]).clone();
        let n = cx.choose(depth);
        let how = cx.choose(6);
        let ty = chain(l, n, how);
        let mut g = Vg::new();
        g.lens = &[1];
        let x = g.val(cx, &ty);
        access(cx, &ty, &x)
    }));
    v
}

/// A type nested n deep around `ty`, in one of six regular ways.
pub fn chain(mut ty: Ty, n: usize, how: usize) -> Ty {
    for i in 0..n {
        ty = match (how, i % 3) {
            (0, _) | (3, 0) | (4, 1) => arr(ty),
            (1, _) | (3, 1) => farr(ty, 1),
            (5, 0) => tup(&[ty, Ty::Bool]),
            (5, 1) => tup(&[Ty::Bytes, ty]),
            (5, _) => arr(ty),
            _ => tup(&[ty]),
        }
    }
    ty
}
