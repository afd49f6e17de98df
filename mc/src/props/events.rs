//! C14 log parsing inverts emission; C15 foreign and malformed logs; C16 topic filters.

use super::hostile::Lazy;
use ethabi::{Hash, RawLog, RawTopicFilter, Topic, TopicFilter};
use mc::abi::{parse as parse_json, J};
use mc::engine::*;
use mc::ev::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;
use std::sync::Arc;

fn real_parse(cx: &mut Cx, e: &Ev, topics: &[[u8; 32]], data: &[u8]) -> Result<Result<Vec<(String, Val)>, String>, String> {
    let ev = e.real();
    let log = raw(topics, data);
    // a log made of its two parts holds exactly them
    let made = cx.guard(|| RawLog::from((log.topics.clone(), log.data.clone())))?;
    if made.topics != log.topics || made.data != log.data {
        return Err(format!("{}: RawLog::from holds {:?}", show_log(topics, data), made));
    }
    let r = cx
        .guard(|| ev.parse_log(log))
        .map_err(|m| format!("{} {}: {}", e.show(), show_log(topics, data), m))?;
    Ok(r.map(|l| l.params.into_iter().map(|p| (p.name, Val::from_real(&p.value))).collect()).map_err(|e| e.to_string()))
}

fn check_emit(cx: &mut Cx, e: &Ev, vs: &[Val]) -> Res {
    let (topics, data) = e.emit(vs);
    cx.state(&[e.show().as_bytes(), &topics.concat(), &data]);
    cx.sample(|| format!("{} {}", e.show(), show_log(&topics, &data)));
    let want = e.seen(vs);
    match real_parse(cx, e, &topics, &data)? {
        Ok(g) if g == want => {
            cx.outcome("parsed");
            Ok(())
        }
        o => Err(format!("{} {}: parsed as {:?}, expected {:?}", e.show(), show_log(&topics, &data), o, want)),
    }
}

fn names_for(cx: &mut Cx, n: usize) -> Vec<String> {
    // distinct, all empty, all equal, first and last equal
    match cx.choose(4) {
        0 => (0..n).map(|i| format!("p{}", i)).collect(),
        1 => vec![String::new(); n],
        2 => vec!["same".into(); n],
        _ => (0..n).map(|i| if i == 0 || i + 1 == n { "x".into() } else if i % 2 == 0 { String::new() } else { format!("p{}", i) }).collect(),
    }
}

fn ev_of(cx: &mut Cx, ts: Vec<Ty>, max_ix: usize) -> Option<Ev> {
    let names = names_for(cx, ts.len());
    let flags: Vec<bool> = ts.iter().map(|_| cx.flag()).collect();
    let anon = cx.flag();
    if flags.iter().filter(|x| **x).count() > max_ix + anon as usize {
        return None;
    }
    Some(Ev { name: "Ev".into(), ins: names.into_iter().zip(ts).zip(flags).map(|((n, t), f)| (n, t, f)).collect(), anon })
}

pub fn c14(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = t.pick(5, 5);
    v.push(space("shapes", 1, move |cx| {
        let ts = tys_upto(cx, n, true, &[Ty::Uint(256), Ty::Bytes], t.pick(&[2][..], &[2, 1]));
        let e = match ev_of(cx, ts, 3) {
            Some(e) => e,
            None => return cx.prune(),
        };
        let mut g = Vg::new();
        let vs = g.vals(cx, &e.tys());
        check_emit(cx, &e, &vs)
    }));
    let n = t.pick(3, 3);
    v.push(space("kinds", t.pick(1, 2), move |cx| {
        let ts = tys_upto(cx, n, false, &leaf_kinds(), &[2, 1]);
        let e = match ev_of(cx, ts, 3) {
            Some(e) => e,
            None => return cx.prune(),
        };
        let mut g = Vg::new();
        let vs = g.vals(cx, &e.tys());
        check_emit(cx, &e, &vs)
    }));
    // one indexed argument of every type, among others
    let n = t.pick(4, 5);
    v.push(space("indexed-types", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Bytes, Ty::Bool, Ty::Str, Ty::FBytes(32), Ty::Addr], &[2, 1, 3]);
        let pos = cx.choose(3);
        let mut ins = vec![("s".to_string(), Ty::Str, false), ("u".to_string(), Ty::Uint(64), true)];
        ins.insert(pos, ("a".into(), ty, true));
        let e = Ev { name: "Ix".into(), ins, anon: cx.flag() };
        let mut g = Vg::new();
        let vs = g.vals(cx, &e.tys());
        check_emit(cx, &e, &vs)
    }));
    // lengths of an indexed fixed-size array
    let m = t.pick(70, 300);
    v.push(space("indexed-array-lengths", 0, move |cx| {
        let n = count(cx, m, 1024).max(1);
        let item = cx.pick(&[Ty::Uint(8), Ty::Addr, tup(&[Ty::Bool]), farr(Ty::Bool, 1), Ty::Str]).clone();
        let ty = match cx.choose(3) {
            0 => farr(item, n),
            1 => tup(&vec![item; n]),
            _ => arr(farr(item, n)),
        };
        let ix = cx.flag();
        let e = Ev { name: "Ix".into(), ins: vec![("d".into(), Ty::Bool, false), ("a".into(), ty, ix), ("b".into(), Ty::Uint(8), true)], anon: cx.flag() };
        let mut g = Vg::new();
        let vs = g.vals(cx, &e.tys());
        check_emit(cx, &e, &vs)
    }));
    // every assignment of indexed flags over longer parameter lists of mixed types
    let n = t.pick(9, 11);
    v.push(space("flags", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let kinds = [Ty::Addr, Ty::Str, Ty::Uint(256), Ty::Bool, tup(&[Ty::Bytes, Ty::Int(8)]), arr(Ty::Uint(8)), Ty::FBytes(4)];
        let r = cx.choose(kinds.len());
        let ts: Vec<Ty> = (0..k).map(|i| kinds[(i + r) % kinds.len()].clone()).collect();
        let e = match ev_of(cx, ts, 3) {
            Some(e) => e,
            None => return cx.prune(),
        };
        let mut g = Vg::new();
        let vs = g.vals(cx, &e.tys());
        check_emit(cx, &e, &vs)
    }));
    // long parameter lists with the indexed ones anywhere
    let m = t.pick(36, 70);
    v.push(space("arity", 0, move |cx| {
        let n = 1 + cx.choose(m);
        let kinds = [Ty::Addr, Ty::Str, Ty::Uint(256), tup(&[Ty::Bytes, Ty::Int(8)]), arr(Ty::Uint(8)), farr(Ty::Bool, 2)];
        let r = cx.choose(2);
        let (i, j) = (cx.choose(n), cx.choose(n));
        let anon = cx.flag();
        let same = cx.flag();
        let ins = (0..n).map(|k| (if same { "v".to_string() } else { format!("v{}", k) }, kinds[(k * 5 + r) % 6].clone(), k == i || k == j || k + 1 == n && r == 1)).collect();
        let e = Ev { name: "Wide".into(), ins, anon };
        let mut g = Vg::new();
        let vs = g.vals(cx, &e.tys());
        check_emit(cx, &e, &vs)
    }));
    // what parameters are called
    v.push(space("odd-names", 0, move |cx| {
        let s = *cx.pick(STRINGS);
        let name = match cx.choose(5) {
            0 => s.to_string(),
            1 => format!("{}x", s),
            2 => format!("x{}", s),
            3 => format!("_{}", s),
            _ => format!("{}{}", s, cx.pick(STRINGS)),
        };
        let ty = cx.pick(&[Ty::Uint(8), Ty::Str]).clone();
        let last = cx.pick(&["", "y", &name.clone()]).to_string();
        let mut ins = vec![(name, ty, cx.flag()), (last, Ty::Bool, cx.flag())];
        if cx.flag() {
            ins.reverse();
        }
        let e = Ev { name: "Odd".into(), ins, anon: cx.flag() };
        let mut g = Vg::new();
        let vs = g.vals(cx, &e.tys());
        check_emit(cx, &e, &vs)
    }));
    // lengths of the data
    let mut ls: Vec<usize> = (0..t.pick(140, 600)).collect();
    ls.extend([255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]);
    v.push(space("data-lengths", 0, move |cx| {
        let n = *cx.pick(&ls);
        let mut g = Vg::new();
        let (ty, x) = match cx.choose(3) {
            0 => (Ty::Bytes, Val::Bytes(g.pat(n))),
            1 => (Ty::Str, Val::Str(g.text(n))),
            _ => (arr(Ty::Uint(8)), Val::Arr((0..n).map(|i| Val::Uint(word(i % 256))).collect())),
        };
        let ix = cx.flag();
        let e = Ev { name: "Len".into(), ins: vec![("a".into(), Ty::Bytes, false), ("b".into(), ty, ix), ("c".into(), Ty::Uint(8), true)], anon: cx.flag() };
        check_emit(cx, &e, &[Val::Bytes(vec![7]), x, Val::Uint(word(3))])
    }));
    // values of indexed arguments: every bit
    let els = Arc::new(elementary());
    v.push(space("topic-bits", 0, move |cx| {
        let a = cx.pick(&els).clone();
        let w = a.size_bits();
        let b = cx.choose(w.max(1));
        let x = match &a {
            Ty::Uint(_) => {
                let mut x = [0u8; 32];
                x[31 - b / 8] = 1 << (b % 8);
                Val::Uint(x)
            }
            Ty::Int(n) => {
                let mut x = [0u8; 32];
                if b + 1 == *n {
                    x = [0xff; 32];
                    for k in 0..b {
                        x[31 - k / 8] &= !(1 << (k % 8));
                    }
                } else {
                    x[31 - b / 8] = 1 << (b % 8);
                }
                Val::Int(x)
            }
            Ty::FBytes(n) => {
                let mut x = vec![0; *n];
                x[b / 8] = 1 << (b % 8);
                Val::FBytes(x)
            }
            Ty::Addr => {
                let mut x = [0; 20];
                x[b / 8] = 1 << (b % 8);
                Val::Addr(x)
            }
            Ty::Bool => Val::Bool(b == 1),
            _ => return cx.prune(),
        };
        let pos = cx.choose(3);
        let mut ins = vec![("q".to_string(), Ty::Bool, true), ("d".to_string(), Ty::Uint(8), false)];
        let mut vs = vec![Val::Bool(true), Val::Uint(word(4))];
        ins.insert(pos, ("a".into(), a, true));
        vs.insert(pos, x);
        check_emit(cx, &Ev { name: "Bits".into(), ins, anon: pos == 1 }, &vs)
    }));
    let els = Arc::new(elementary());
    v.push(space("elementary", 1, move |cx| {
        let a = cx.pick(&els).clone();
        let (ia, anon) = (cx.flag(), cx.flag());
        let pos = cx.choose(3);
        let mut ins = vec![("s".to_string(), Ty::Str, false), ("u".to_string(), Ty::Uint(64), true)];
        ins.insert(pos, ("a".into(), a, ia));
        let e = Ev { name: "Transfer".into(), ins, anon };
        let mut g = Vg::rich();
        let vs = g.vals(cx, &e.tys());
        check_emit(cx, &e, &vs)
    }));
    v
}

pub fn c15(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let check = |cx: &mut Cx, e: &Ev, topics: &[[u8; 32]], data: &[u8]| -> Res {
        cx.state(&[e.show().as_bytes(), &topics.concat(), data]);
        cx.sample(|| format!("{} {}", e.show(), show_log(topics, data)));
        let want = e.parse(topics, data);
        let got = real_parse(cx, e, topics, data)?;
        let names: Vec<String> = e.ins.iter().map(|x| x.0.clone()).collect();
        if let Ok(g) = &got {
            if g.iter().map(|x| x.0.clone()).collect::<Vec<_>>() != names {
                return Err(format!("{} {}: parameters named {:?}", e.show(), show_log(topics, data), g));
            }
        }
        let got = got.map(|g| g.into_iter().map(|x| x.1).collect());
        match judge(&want, &got) {
            Ok(o) => {
                cx.outcome(o);
                Ok(())
            }
            Err(m) => Err(format!("{} {}: {}", e.show(), show_log(topics, data), m)),
        }
    };
    // a genuine log with its topics edited
    let n = t.pick(3, 4);
    v.push(space("edited-topics", 1, move |cx| {
        let ts = tys_upto(cx, n, true, &[Ty::Uint(256), Ty::Bool, Ty::Str, Ty::Addr, Ty::FBytes(4)], &[2]);
        let flags: Vec<bool> = ts.iter().map(|_| cx.flag()).collect();
        let anon = cx.flag();
        let e = Ev { name: "Ev".into(), ins: ts.into_iter().zip(flags).enumerate().map(|(i, (t, f))| (format!("p{}", i), t, f)).collect(), anon };
        let mut g = Vg::new();
        g.blens = &[3];
        g.lens = &[2];
        g.extremes = false;
        let vs = g.vals(cx, &e.tys());
        let (mut topics, mut data) = e.emit(&vs);
        match cx.choose(7) {
            0 => {
                if topics.is_empty() {
                    return cx.prune();
                }
                let i = cx.choose(topics.len());
                topics.remove(i);
            }
            1 => {
                let i = cx.choose(topics.len() + 1);
                let w = [word(0), word(1), [0xff; 32], e.topic0()][cx.choose(4)];
                topics.insert(i, w);
            }
            2 => {
                if topics.is_empty() {
                    return cx.prune();
                }
                let i = cx.choose(topics.len());
                topics[i] = [word(0), word(1), word(2), [0xff; 32], { let mut w = word(1); w[0] = 1; w }, { let mut w = [0; 32]; w[..4].copy_from_slice(b"abcd"); w }, { let mut w = word(5); w[11] = 1; w }][cx.choose(7)];
            }
            3 => {
                if topics.is_empty() {
                    return cx.prune();
                }
                // one bit of one topic
                let i = cx.choose(topics.len());
                let b = cx.choose(256);
                topics[i][b / 8] ^= 1 << (b % 8);
            }
            4 => {
                if topics.len() < 2 {
                    return cx.prune();
                }
                let i = cx.choose(topics.len() - 1);
                topics.swap(i, i + 1);
            }
            5 => topics.clear(),
            _ => {
                let k = cx.choose(5);
                match k {
                    0 => data.clear(),
                    1 => data.extend([1; 32]),
                    2 => data.push(0),
                    3 => {
                        data.pop();
                    }
                    _ => {
                        let l = data.len().saturating_sub(32);
                        data.truncate(l)
                    }
                }
            }
        }
        check(cx, &e, &topics, &data)
    }));
    // hostile data under intact topics
    let (n, w, d) = t.pick((3, 5, 1), (3, 6, 2));
    v.push(space("hostile-data", d, move |cx| {
        let ts = tys_upto(cx, n, false, &[Ty::Bytes, Ty::Bool, Ty::Uint(256), Ty::Str], &[2]);
        let ix = cx.choose(3);
        let anon = cx.flag();
        let mut ins: Vec<(String, Ty, bool)> = ts.iter().enumerate().map(|(i, t)| (format!("d{}", i), t.clone(), false)).collect();
        if ix > 0 {
            ins.insert(if ix == 1 { 0 } else { ins.len() }, ("t".into(), Ty::Addr, true));
        }
        let e = Ev { name: "Ev".into(), ins, anon };
        let len = 32 * cx.choose(w + 1) + [0, 1, 31][cx.choose(3)];
        let data = {
            let mut m = Lazy::new(cx, len, false, false);
            decode_mem(&ts, &mut m);
            m.buf
        };
        let mut topics = vec![];
        if !anon {
            topics.push(e.topic0());
        }
        if ix > 0 {
            topics.push(word(77));
        }
        check(cx, &e, &topics, &data)
    }));
    // every event's log offered to every other event
    let n = t.pick(3, 3);
    v.push(space("foreign-logs", 0, move |cx| {
        let l = [Ty::Uint(256), Ty::Bool, Ty::Bytes];
        let mk = |cx: &mut Cx, n: usize| {
            let k = cx.choose(n + 1);
            let ts: Vec<Ty> = (0..k).map(|_| cx.pick(&l).clone()).collect();
            let flags: Vec<bool> = ts.iter().map(|_| cx.flag()).collect();
            let anon = cx.flag();
            let name = if cx.flag() { "A" } else { "B" };
            Ev { name: name.into(), ins: ts.into_iter().zip(flags).map(|(t, f)| ("p".to_string(), t, f)).collect(), anon }
        };
        let e = mk(cx, n);
        let f = mk(cx, t.pick(2, 3));
        let mut g = Vg::new();
        g.extremes = false;
        g.blens = &[3];
        let vs = g.vals(cx, &f.tys());
        let (topics, data) = f.emit(&vs);
        check(cx, &e, &topics, &data)
    }));
    // number of topics against number of indexed parameters
    v.push(space("topic-counts", 0, move |cx| {
        let (a, b, anon) = (cx.choose(6), cx.choose(8), cx.flag());
        let t = cx.pick(&[Ty::Uint(256), Ty::Str, Ty::FBytes(4), tup(&[Ty::Bool, Ty::Bool]), farr(Ty::Uint(8), 2), Ty::Bool]).clone();
        let plain = cx.choose(2);
        let mut ins: Vec<(String, Ty, bool)> = (0..a).map(|i| (format!("t{}", i), t.clone(), true)).collect();
        if plain == 1 {
            ins.insert(a / 2, ("d".into(), Ty::Bool, false));
        }
        let e = Ev { name: "E".into(), ins, anon };
        let mut topics: Vec<[u8; 32]> = vec![];
        let first = cx.flag();
        for i in 0..b {
            topics.push(if i == 0 && first { e.topic0() } else { word(i % 2) });
        }
        check(cx, &e, &topics, &if plain == 1 { word(1).to_vec() } else { vec![] })
    }));
    v
}

// ---- C16 --------------------------------------------------------------------------------------

fn check_filter_json(cx: &mut Cx, f: &TopicFilter) -> Res {
    let text = cx
        .guard(|| serde_json::to_string(f).map_err(|e| e.to_string()))
        .map_err(|m| format!("serializing {:?}: {}", f, m))?
        .map_err(|e| format!("serializing {:?}: {}", f, e))?;
    let h = |h: &[u8; 32]| J::Str(format!("0x{}", hexs(h)));
    let want = J::Arr(
        topics_of(f)
            .iter()
            .map(|t| match t {
                Tp::Any => J::Null,
                Tp::This(x) => h(x),
                Tp::OneOf(v) => J::Arr(v.iter().map(h).collect()),
            })
            .collect(),
    );
    if parse_json(text.as_bytes()) != Some(want.clone()) {
        return Err(format!("{:?} serialized as {}, expected {}", f, text, want.text()));
    }
    Ok(())
}

/// One constraint on the single indexed argument gives exactly the topics of its values.
fn judge_topics(cx: &mut Cx, ty: &Ty, c: Tp<Val>) -> Res {
    let e = Ev { name: "Ev".into(), ins: vec![("d".into(), Ty::Str, false), ("a".into(), ty.clone(), true)], anon: false };
    let want = match &c {
        Tp::Any => Tp::Any,
        Tp::This(v) => Tp::This(topic(ty, v)),
        Tp::OneOf(v) => Tp::OneOf(v.iter().map(|v| topic(ty, v)).collect()),
    };
    let show = || format!("{} filter {}", e.show(), clip(&format!("{:?}", c), 2000));
    cx.state(&[ty.name().as_bytes(), format!("{:?}", want).as_bytes()]);
    cx.sample(show);
    let ev = e.real();
    let rf = RawTopicFilter { topic0: real_topic(&c), ..Default::default() };
    let r = cx.guard(|| ev.filter(rf)).map_err(|m| format!("{}: {}", show(), m))?;
    let f = r.map_err(|e| format!("{}: refused ({})", show(), e))?;
    let got = topics_of(&f);
    if got != [Tp::This(e.topic0()), want.clone(), Tp::Any, Tp::Any] {
        return Err(format!("{}: {:?}, expected {:?}", show(), got, want));
    }
    check_filter_json(cx, &f)?;
    cx.outcome("exact");
    Ok(())
}

pub fn c16(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let judge_filter = |cx: &mut Cx, e: &Ev, ix: &[Ty], raw: &[Tp<Val>; 3]| -> Res {
        let show = format!("{} filter {:?}", e.show(), raw);
        cx.state(&[show.as_bytes()]);
        cx.sample(|| show.clone());
        let ev = e.real();
        let rf = RawTopicFilter { topic0: real_topic(&raw[0]), topic1: real_topic(&raw[1]), topic2: real_topic(&raw[2]) };
        let r = cx.guard(|| ev.filter(rf)).map_err(|m| format!("{}: {}", show, m))?;
        // a constraint on an argument that does not exist or of another type is an error
        let ok = raw.iter().enumerate().all(|(i, c)| {
            let all = |f: &dyn Fn(&Val) -> bool| match c {
                Tp::Any => true,
                Tp::This(v) => f(v),
                Tp::OneOf(v) => i < ix.len() && v.iter().all(f),
            };
            all(&|v| i < ix.len() && v.of(&ix[i]))
        });
        let f = match (ok, r) {
            (false, Err(_)) => {
                cx.outcome("refused");
                return Ok(());
            }
            (false, Ok(f)) => return Err(format!("{}: accepted as {:?}", show, f)),
            (true, Err(e)) => return Err(format!("{}: refused ({})", show, e)),
            (true, Ok(f)) => f,
        };
        let got = topics_of(&f);
        let skip = if e.anon { 0 } else { 1 };
        if !e.anon && got[0] != Tp::This(e.topic0()) {
            return Err(format!("{}: the first topic is {:?}", show, got[0]));
        }
        // each constraint is exactly the topics of its values, in order
        for i in 0..4 - skip {
            let c = raw.get(i).unwrap_or(&Tp::Any);
            let want = match c {
                Tp::Any => Tp::Any,
                Tp::This(v) => Tp::This(topic(&ix[i], v)),
                Tp::OneOf(v) => Tp::OneOf(v.iter().map(|v| topic(&ix[i], v)).collect()),
            };
            if got[i + skip] != want {
                return Err(format!("{}: topic {} is {:?}, expected {:?}", show, i + skip, got[i + skip], want));
            }
        }
        // and so the filter passes exactly the logs it is meant to pass
        let doms: Vec<Vec<Val>> = ix.iter().map(domain).collect();
        let total: usize = doms.iter().map(|d| d.len()).product();
        for n in 0..total {
            let mut k = n;
            let mut args = vec![];
            for d in &doms {
                args.push(d[k % d.len()].clone());
                k /= d.len();
            }
            let mut ai = args.iter();
            let all: Vec<Val> = e.ins.iter().map(|x| if x.2 { ai.next().unwrap().clone() } else { domain(&x.1)[1].clone() }).collect();
            let (topics, _) = e.emit(&all);
            let want = raw.iter().enumerate().all(|(i, c)| match c {
                Tp::Any => true,
                // the specification's in-place encoding is not injective on nested dynamic values
                Tp::This(v) => args[i] == *v || topic(&ix[i], &args[i]) == topic(&ix[i], v),
                Tp::OneOf(v) => v.iter().any(|v| args[i] == *v || topic(&ix[i], &args[i]) == topic(&ix[i], v)),
            });
            if passes(&got, &topics) != want {
                return Err(format!("{}: log of {:?} {} pass", show, args, if want { "does not" } else { "does" }));
            }
        }
        check_filter_json(cx, &f)?;
        cx.outcome("exact");
        Ok(())
    };
    let con = |cx: &mut Cx, t: Option<&Ty>| -> Tp<Val> {
        let d = domain(t.unwrap_or(&Ty::Bool));
        match cx.choose(4) {
            0 => Tp::Any,
            1 => Tp::This(cx.pick(&d).clone()),
            2 => {
                let n = cx.choose(4);
                Tp::OneOf((0..n).map(|_| cx.pick(&d).clone()).collect())
            }
            _ => Tp::This(cx.pick(&[Val::Uint(word(1)), Val::Int(word(1)), Val::Tup(vec![]), Val::FBytes(vec![1; 33]), Val::Str("q".into())]).clone()),
        }
    };
    // one indexed argument of every type
    let n = t.pick(4, 5);
    v.push(space("one-type", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Bytes, Ty::Str, Ty::Bool], &[2]);
        let anon = cx.flag();
        let pos = cx.choose(3);
        let mut ins = vec![("d".to_string(), Ty::Str, false), ("q".to_string(), Ty::Bool, false)];
        ins.insert(pos, ("a".into(), ty.clone(), true));
        let c = con(cx, Some(&ty));
        judge_filter(cx, &Ev { name: "Ev".into(), ins, anon }, &[ty], &[c, Tp::Any, Tp::Any])
    }));
    let els = Arc::new(elementary());
    v.push(space("elementary", 0, move |cx| {
        let ty = cx.pick(&els).clone();
        let ty = match cx.choose(4) {
            0 => ty,
            1 => arr(ty),
            2 => farr(ty, 2),
            _ => tup(&[ty, Ty::Bool]),
        };
        let c = con(cx, Some(&ty));
        let ins = vec![("a".into(), ty.clone(), true)];
        judge_filter(cx, &Ev { name: "Ev".into(), ins, anon: false }, &[ty], &[c, Tp::Any, Tp::Any])
    }));
    // topics of many values of many types
    let n = t.pick(4, 5);
    v.push(space("values", 1, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Bytes, Ty::Int(16), Ty::FBytes(3), Ty::Str], &[2, 1]);
        let mut g = if k <= 2 { Vg::rich() } else { Vg::new() };
        let x = g.val(cx, &ty);
        let c = if cx.flag() { Tp::This(x) } else { Tp::OneOf(vec![g.val(cx, &ty), x]) };
        judge_topics(cx, &ty, c)
    }));
    let mut ls: Vec<usize> = (0..t.pick(300, 700)).collect();
    ls.extend([511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537]);
    v.push(space("value-lengths", 0, move |cx| {
        let n = *cx.pick(&ls);
        let mut g = Vg::new();
        let (ty, x) = match cx.choose(6) {
            0 => (Ty::Bytes, Val::Bytes(g.pat(n))),
            1 => (Ty::Str, Val::Str(g.text(n))),
            2 => (arr(Ty::Uint(8)), Val::Arr((0..n).map(|i| Val::Uint(word(i % 256))).collect())),
            3 => (arr(Ty::Str), Val::Arr((0..n.min(600)).map(|i| Val::Str(g.text(i % 40))).collect())),
            4 => (farr(Ty::FBytes(2), n.max(1)), Val::FArr((0..n.max(1)).map(|_| Val::FBytes(g.pat(2))).collect())),
            _ => (tup(&[Ty::Bytes, arr(Ty::Bytes)]), Val::Tup(vec![Val::Bytes(g.pat(n)), Val::Arr(vec![Val::Bytes(g.pat(n)), Val::Bytes(g.pat(n / 2))])])),
        };
        judge_topics(cx, &ty, Tp::This(x))
    }));
    // many alternatives for one argument, in their order
    let m = t.pick(300, 700);
    v.push(space("alternatives", 0, move |cx| {
        let n = count(cx, m, t.pick(1024, 4096));
        let (ty, dup) = (cx.pick(&[Ty::Uint(256), Ty::Str, arr(Ty::Bool)]).clone(), cx.flag());
        let vs: Vec<Val> = (0..n)
            .map(|i| {
                let i = if dup { i / 2 } else { n - i };
                match &ty {
                    Ty::Uint(_) => Val::Uint(word(i)),
                    Ty::Str => Val::Str(format!("s{}", i)),
                    _ => Val::Arr(vec![Val::Bool(true); i]),
                }
            })
            .collect();
        judge_topics(cx, &ty, Tp::OneOf(vs))
    }));
    // one alternative among several that no value of the argument's type
    v.push(space("bad-alternative", 0, move |cx| {
        let ty = cx.pick(&[Ty::Uint(256), Ty::Str, Ty::Bool, Ty::FBytes(4), Ty::Addr, arr(Ty::Uint(8)), farr(Ty::Bool, 2), tup(&[Ty::Bool, Ty::Str])]).clone();
        let n = 1 + cx.choose(t.pick(4, 8));
        let d = domain(&ty);
        let mut vs: Vec<Val> = (0..n).map(|i| d[i % d.len()].clone()).collect();
        let at = cx.choose(n);
        vs[at] = cx
            .pick(&[
                Val::Uint(word(1)),
                Val::Int(word(1)),
                Val::Tup(vec![]),
                Val::FBytes(vec![1; 33]),
                Val::Bytes(vec![1]),
                Val::Str("q".into()),
                Val::Bool(true),
                Val::Arr(vec![]),
                Val::Arr(vec![Val::Bool(true)]),
                Val::FArr(vec![Val::Bool(true)]),
                Val::Tup(vec![Val::Bool(true), Val::Bytes(vec![])]),
            ])
            .clone();
        let anon = cx.flag();
        let pos = cx.choose(3);
        let ix: Vec<Ty> = (0..3).map(|i| if i == pos { ty.clone() } else { Ty::Bool }).collect();
        let ins = ix.iter().enumerate().map(|(i, t)| (format!("t{}", i), t.clone(), true)).collect();
        let mut c = [Tp::Any, Tp::Any, Tp::Any];
        c[pos] = Tp::OneOf(vs);
        judge_filter(cx, &Ev { name: "Ev".into(), ins, anon }, &ix, &c)
    }));
    // all combinations of constraints over up to four indexed arguments
    let full = t.pick(false, true);
    v.push(space("combinations", 0, move |cx| {
        let kinds = [Ty::Uint(256), Ty::Str, Ty::Bool];
        let n = cx.choose(5);
        let anon = cx.flag();
        if n == 4 && !anon {
            return cx.prune();
        }
        let r = cx.choose(3);
        let ix: Vec<Ty> = (0..n).map(|i| kinds[(i + r) % 3].clone()).collect();
        let mut ins: Vec<(String, Ty, bool)> = ix.iter().enumerate().map(|(i, t)| (format!("t{}", i), t.clone(), true)).collect();
        let gap = cx.choose(ins.len() + 1);
        ins.insert(gap, ("d".into(), Ty::Addr, false));
        let mut c = vec![];
        for i in 0..3 {
            let d = domain(ix.get(i).unwrap_or(&Ty::Bool));
            c.push(match cx.choose(if full { 6 } else { 5 }) {
                0 => Tp::Any,
                1 => Tp::This(d[0].clone()),
                2 => Tp::This(d[1].clone()),
                3 => Tp::OneOf(vec![d[1].clone(), d[0].clone()]),
                4 => Tp::OneOf(vec![]),
                _ => Tp::OneOf(vec![d[1].clone(), d[1].clone()]),
            });
        }
        let c = [c[0].clone(), c[1].clone(), c[2].clone()];
        judge_filter(cx, &Ev { name: "Ev".into(), ins, anon }, &ix, &c)
    }));
    // topic containers and their JSON
    v.push(space("containers", 0, move |cx| {
        let hs = [Hash::zero(), Hash::from(word(1)), Hash::from([0xff; 32]), Hash::from(topic0("E", &[]))];
        let mk = |cx: &mut Cx| match cx.choose(3) {
            0 => Tp::Any,
            1 => Tp::This(cx.pick(&hs).0),
            _ => {
                let n = cx.choose(3);
                Tp::OneOf((0..n).map(|_| cx.pick(&hs).0).collect())
            }
        };
        let real = |t: &Tp<[u8; 32]>| match t {
            Tp::Any => Topic::Any,
            Tp::This(h) => Topic::This(Hash::from(*h)),
            Tp::OneOf(v) => Topic::OneOf(v.iter().map(|h| Hash::from(*h)).collect()),
        };
        let a = mk(cx);
        let b = mk(cx);
        let pos = cx.choose(4);
        let mut f = TopicFilter::default();
        let ta = real(&a);
        match pos {
            0 => f.topic0 = ta,
            1 => f.topic1 = ta,
            2 => f.topic2 = ta,
            _ => f.topic3 = ta,
        }
        if pos != 2 {
            f.topic2 = real(&b);
        }
        cx.state(&[format!("{:?}", f).as_bytes()]);
        cx.sample(|| format!("{:?}", f));
        check_filter_json(cx, &f)?;
        // conversions keep the contents and their order
        let m = cx.guard(|| {
            let into: Vec<Hash> = real(&a).into();
            let any = real(&a).is_any();
            let mapped = real(&a).map(|h| {
                let mut x = h.0;
                x[0] ^= 0x55;
                Hash::from(x)
            });
            let from_vec: Topic<Hash> = into.clone().into();
            let from_opt: Topic<Hash> = into.first().cloned().into();
            let ix: Vec<[u8; 32]> = (0..into.len()).map(|i| real(&a)[i].0).collect();
            (into, any, mapped, from_vec, from_opt, ix)
        });
        let (into, any, mapped, from_vec, from_opt, ix) = m.map_err(|m| format!("{:?}: {}", a, m))?;
        let list: Vec<[u8; 32]> = match &a {
            Tp::Any => vec![],
            Tp::This(h) => vec![*h],
            Tp::OneOf(v) => v.clone(),
        };
        let x = |h: &[u8; 32]| {
            let mut h = *h;
            h[0] ^= 0x55;
            h
        };
        let want_map = match &a {
            Tp::Any => Tp::Any,
            Tp::This(h) => Tp::This(x(h)),
            Tp::OneOf(v) => Tp::OneOf(v.iter().map(x).collect()),
        };
        let got: Vec<[u8; 32]> = into.iter().map(|h| h.0).collect();
        let opt = match list.first() {
            None => Tp::Any,
            Some(h) => Tp::This(*h),
        };
        if got != list
            || any != (a == Tp::Any)
            || of_topic(&mapped) != want_map
            || of_topic(&from_vec) != Tp::OneOf(list.clone())
            || of_topic(&from_opt) != opt
            || ix != list
        {
            return Err(format!("conversions of {:?}: {:?} {} {:?} {:?} {:?}", a, got, any, mapped, from_vec, from_opt));
        }
        cx.outcome("converted");
        Ok(())
    }));
    v
}
