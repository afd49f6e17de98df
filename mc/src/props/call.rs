//! C06 call data: selector and arguments, constructor code and arguments, decoding of inputs and
//! outputs, and the signature string.

use super::codec::function;
use mc::engine::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;

const NAMES: [&str; 9] =
    ["f", "transfer", "_", "$x_9", "F", "", "averyveryveryveryveryveryverylongfunctionnameindeedlonger", "f1", "nam\u{e9}"];

fn call(cx: &mut Cx, name: &str, ins: &[Ty], outs: &[Ty], vi: &[Val], vo: &[Val]) -> Res {
    let f = function(name, ins, outs);
    let what = || format!("function {}({}) -> ({}) with {}", name, names(ins), names(outs), show(ins, vi));
    let (ti, args) = (toks(vi), encode(ins, vi));
    let mut want = selector(name, ins).to_vec();
    want.extend(&args);
    cx.state(&[name.as_bytes(), names(ins).as_bytes(), names(outs).as_bytes(), &want]);
    cx.sample(|| format!("{} -> {}", what(), clip(&hexs(&want), 100)));
    let got = cx.guard(|| f.encode_input(&ti)).map_err(|m| format!("{}: {}", what(), m))?;
    match got {
        Ok(g) if g == want => cx.outcome("call encoded"),
        Ok(g) => return Err(format!("{}: call data {}, expected {}", what(), hexs(&g), hexs(&want))),
        Err(e) => return Err(format!("{}: rejected: {}", what(), e)),
    }
    let back = cx.guard(|| f.decode_input(&args)).map_err(|m| format!("{}: {}", what(), m))?;
    judge(&Expect::Must(vi.to_vec()), &back.map(|v| vals(&v)).map_err(|e| e.to_string()))
        .map_err(|m| format!("{}: decode_input: {}", what(), m))?;
    let ret = encode(outs, vo);
    let back = cx.guard(|| f.decode_output(&ret)).map_err(|m| format!("{}: {}", what(), m))?;
    judge(&Expect::Must(vo.to_vec()), &back.map(|v| vals(&v)).map_err(|e| e.to_string()))
        .map_err(|m| format!("{}: decode_output of {}: {}", what(), show(outs, vo), m))?;
    // the other side's data is judged by its own types
    let mut m: &[u8] = &ret;
    let (e, _) = decode_mem(ins, &mut m);
    let back = cx.guard(|| f.decode_input(&ret)).map_err(|m| format!("{}: {}", what(), m))?;
    judge(&e, &back.map(|v| vals(&v)).map_err(|e| e.to_string()))
        .map_err(|m| format!("{}: decode_input of {}: {}", what(), hexs(&ret), m))?;
    let mut m: &[u8] = &args;
    let (e, _) = decode_mem(outs, &mut m);
    let back = cx.guard(|| f.decode_output(&args)).map_err(|m| format!("{}: {}", what(), m))?;
    judge(&e, &back.map(|v| vals(&v)).map_err(|e| e.to_string()))
        .map_err(|m| format!("{}: decode_output of {}: {}", what(), hexs(&args), m))?;
    let sig = if outs.is_empty() {
        format!("{}({})", name, names(ins))
    } else {
        format!("{}({}):({})", name, names(ins), names(outs))
    };
    let got = cx.guard(|| f.signature()).map_err(|m| format!("{}: {}", what(), m))?;
    if got != sig {
        return Err(format!("{}: signature {:?}, expected {:?}", what(), got, sig));
    }
    Ok(())
}

fn construct(cx: &mut Cx, code: Vec<u8>, ins: &[Ty], vi: &[Val]) -> Res {
    let c = ethabi::Constructor { inputs: function("", ins, &[]).inputs };
    let ti = toks(vi);
    let mut want = code.clone();
    want.extend(encode(ins, vi));
    let what = || format!("constructor({}) code of {} bytes, {}", names(ins), code.len(), show(ins, vi));
    cx.state(&[names(ins).as_bytes(), &want]);
    cx.sample(&what);
    let got = cx.guard(|| c.encode_input(code.clone(), &ti)).map_err(|m| format!("{}: {}", what(), m))?;
    match got {
        Ok(g) if g == want => cx.outcome("creation encoded"),
        Ok(g) => return Err(format!("{}: {}, expected {}", what(), hexs(&g), hexs(&want))),
        Err(e) => return Err(format!("{}: rejected: {}", what(), e)),
    }
    Ok(())
}

pub fn c06(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let (n, d) = t.pick((4, 2), (5, 2));
    v.push(space("calls", d, move |cx| {
        let l = [Ty::Uint(256), Ty::Bytes, Ty::Bool];
        let ins = tys_upto(cx, n, true, &l, &[2, 1]);
        let outs = cx.pick(&[vec![], vec![Ty::Bool], vec![Ty::Str, arr(Ty::Uint(8))]]).clone();
        let name = *cx.pick(&NAMES[..3]);
        let mut g = Vg::new();
        let (vi, vo) = (g.vals(cx, &ins), g.vals(cx, &outs));
        call(cx, name, &ins, &outs, &vi, &vo)
    }));
    v.push(space("returns", 1, move |cx| {
        let l = [Ty::Uint(256), Ty::Str, Ty::Addr];
        let ins = cx.pick(&[vec![], vec![Ty::Bytes], vec![Ty::Int(8), tup(&[Ty::Bool, Ty::Str])]]).clone();
        let outs = tys_upto(cx, n, true, &l, &[2, 1]);
        let mut g = Vg::new();
        let (vi, vo) = (g.vals(cx, &ins), g.vals(cx, &outs));
        call(cx, "get", &ins, &outs, &vi, &vo)
    }));
    let n = t.pick(3, 3);
    v.push(space("names-and-kinds", 0, move |cx| {
        let name = *cx.pick(&NAMES);
        let ins = tys_upto(cx, n, true, &leaf_kinds(), &[2, 1]);
        let mut g = Vg::new();
        let outs = cx.pick(&[vec![], vec![Ty::FBytes(4)]]).clone();
        let (vi, vo) = (g.vals(cx, &ins), g.vals(cx, &outs));
        call(cx, name, &ins, &outs, &vi, &vo)
    }));
    v.push(space("elementary", 1, move |cx| {
        let t = cx.pick(&elementary()).clone();
        let ins = match cx.choose(4) {
            0 => vec![t],
            1 => vec![arr(t.clone()), t],
            2 => vec![tup(&[t, Ty::Bool])],
            _ => vec![farr(t, 3)],
        };
        let mut g = Vg::rich();
        let vi = g.vals(cx, &ins);
        call(cx, "e", &ins, &ins.clone(), &vi, &vi.clone())
    }));
    let w = t.pick(24, 40);
    v.push(space("many-params", 0, move |cx| {
        let n = cx.choose(w + 1);
        let m = cx.choose(w + 1);
        let k = cx.choose(3);
        let kinds = [Ty::Uint(256), Ty::Str, tup(&[Ty::Bool, Ty::Bytes])];
        let ins: Vec<Ty> = (0..n).map(|i| kinds[(i + k) % 3].clone()).collect();
        let outs: Vec<Ty> = (0..m).map(|i| kinds[(2 * i + k) % 3].clone()).collect();
        let mut g = Vg::new();
        let (vi, vo) = (g.vals(cx, &ins), g.vals(cx, &outs));
        call(cx, "many", &ins, &outs, &vi, &vo)
    }));
    // damaged data is judged as the decoder's own types say, on both sides
    let n = t.pick(3, 4);
    v.push(space("damaged-data", t.pick(0, 1), move |cx| {
        let ts = tys_upto(cx, n, true, &[Ty::Uint(256), Ty::Bytes, Ty::Bool], &[2]);
        let other = cx.pick(&[vec![], vec![Ty::Bool], vec![Ty::Str]]).clone();
        let (fi, fo) = if cx.flag() { (ts.clone(), other) } else { (other, ts.clone()) };
        let f = function("f", &fi, &fo);
        let mut g = Vg::new();
        g.blens = &[3, 0, 32];
        g.extremes = false;
        let mut b = encode(&ts, &g.vals(cx, &ts));
        let nw = b.len() / 32;
        match cx.choose(5) {
            0 => {
                if nw > 0 {
                    let i = cx.choose(nw);
                    let w = [word(0), word(1), word(2), word(31), word(32), word(33), word(b.len()), word(1 << 33), [0xff; 32]][cx.choose(9)];
                    b[32 * i..32 * i + 32].copy_from_slice(&w);
                }
            }
            1 => {
                let l = cx.choose(b.len().min(200) + 1);
                b.truncate(l);
            }
            2 => {
                let k = [1, 4, 28, 31, 32, 36, 64][cx.choose(7)];
                b.extend(vec![[0u8, 0xff][cx.choose(2)]; k]);
            }
            3 => {
                // call data with its selector still in front is not argument data
                let mut x = selector("f", &fi).to_vec();
                x.extend(&b);
                b = x;
            }
            _ => {
                let k = [1, 4, 32][cx.choose(3)];
                b = b.iter().skip(k).cloned().collect();
            }
        }
        cx.state(&[names(&fi).as_bytes(), names(&fo).as_bytes(), &b]);
        cx.sample(|| format!("f({}):({}) on {}", names(&fi), names(&fo), clip(&hexs(&b), 200)));
        for (side, own) in [("input", &fi), ("output", &fo)] {
            let mut m: &[u8] = &b;
            let (e, _) = decode_mem(own, &mut m);
            let r = cx.guard(|| if side == "input" { f.decode_input(&b) } else { f.decode_output(&b) });
            let what = || format!("f({}):({}) decode_{} of {}", names(&fi), names(&fo), side, hexs(&b));
            let r = r.map_err(|m| format!("{}: {}", what(), m))?;
            let o = judge(&e, &r.map(|v| vals(&v)).map_err(|e| e.to_string())).map_err(|m| format!("{}: {}", what(), m))?;
            cx.outcome(o);
        }
        Ok(())
    }));
    // data lengths
    let mut ls: Vec<usize> = (0..t.pick(140, 600)).collect();
    ls.extend([255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]);
    v.push(space("data-lengths", 0, move |cx| {
        let n = *cx.pick(&ls);
        let mut g = Vg::new();
        let (ty, x) = match cx.choose(3) {
            0 => (Ty::Bytes, Val::Bytes(g.pat(n))),
            1 => (Ty::Str, Val::Str(g.text(n))),
            _ => (arr(Ty::Uint(8)), Val::Arr((0..n).map(|i| Val::Uint(word(i % 256))).collect())),
        };
        let (ins, vi) = if cx.flag() { (vec![ty], vec![x]) } else { (vec![Ty::Bool, ty, Ty::Bytes], vec![Val::Bool(true), x, Val::Bytes(vec![1, 2])]) };
        call(cx, "len", &ins, &ins.clone(), &vi, &vi.clone())
    }));
    let n = t.pick(3, 4);
    v.push(space("creation", 1, move |cx| {
        let len = *cx.pick(&[0, 1, 2, 31, 32, 33, 64, 255, 256, 1000, 24577]);
        let fill = cx.choose(3);
        let code: Vec<u8> = (0..len).map(|i| [0, 0xff, (i * 7 + 1) as u8][fill]).collect();
        let ins = tys_upto(cx, n, true, &[Ty::Uint(256), Ty::Bytes], &[2]);
        let mut g = Vg::new();
        g.blens = &[3, 0, 32];
        let vi = g.vals(cx, &ins);
        construct(cx, code, &ins, &vi)
    }));
    // code that begins, ends or is interrupted with runs of one byte
    v.push(space("creation-code", 0, move |cx| {
        let body = *cx.pick(&[0usize, 1, 3, 31, 32, 33, 600]);
        let run = *cx.pick(&[1usize, 2, 3, 4, 16, 31, 32, 33, 64, 100]);
        let b = *cx.pick(&[0u8, 0xff, 1, 0x60, 0xa1, 0xfe, b' ', b'0']);
        let mut code: Vec<u8> = (0..body).map(|i| (i * 7 + 3) as u8 | 1).collect();
        let at = match cx.choose(4) {
            0 => 0,
            1 => body / 2,
            2 => body,
            _ => {
                code.splice(0..0, vec![b; run]);
                code.len()
            }
        };
        code.splice(at..at, vec![b; run]);
        let (ins, vi) = cx
            .pick(&[
                (vec![], vec![]),
                (vec![Ty::Uint(256)], vec![Val::Uint(word(0))]),
                (vec![Ty::Bytes, Ty::Bool], vec![Val::Bytes(vec![0, 0]), Val::Bool(false)]),
                (vec![Ty::Str], vec![Val::Str("x".into())]),
            ])
            .clone();
        construct(cx, code, &ins, &vi)
    }));
    // code that looks like text: a hexadecimal literal, blanks, quotes, terminators
    v.push(space("creation-text", 0, move |cx| {
        let piece = cx.pick(STRINGS).as_bytes().to_vec();
        let body: Vec<u8> = cx.pick(&[b"".to_vec(), b"6060".to_vec(), vec![0x60, 0x80, 0x00, 0xff]]).clone();
        let code = match cx.choose(3) {
            0 => [&piece[..], &body].concat(),
            1 => [&body[..], &piece].concat(),
            _ => [&piece[..], &body, &piece].concat(),
        };
        let (ins, vi) = cx.pick(&[(vec![], vec![]), (vec![Ty::Uint(256)], vec![Val::Uint(word(7))]), (vec![Ty::Bytes], vec![Val::Bytes(code.clone())])]).clone();
        construct(cx, code, &ins, &vi)
    }));
    // every code length
    let m = t.pick(300, 3000);
    v.push(space("creation-lengths", 0, move |cx| {
        let mut code: Vec<u8> = (0..count(cx, m, 1 << 17)).map(|i| (i * 11 + 5) as u8).collect();
        if cx.flag() {
            code.iter_mut().rev().take(5).for_each(|x| *x = 0);
        }
        let (ins, vi) = if cx.flag() { (vec![], vec![]) } else { (vec![Ty::Addr, Ty::Str], vec![Val::Addr([9; 20]), Val::Str("abc".into())]) };
        construct(cx, code, &ins, &vi)
    }));
    v
}
