//! C24 every call answers for its own arguments only: whatever was called before, on the same or
//! on other objects, in the same process, the answer is the one the model gives for the call alone.

use super::codec::function;
use super::text;
use ethabi::param_type::Reader;
use ethabi::{Contract, Event, Function, Hash, RawLog, RawTopicFilter, Topic};
use mc::abi::*;
use mc::engine::*;
use mc::ev::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;
use std::sync::Arc;

struct Shared {
    fns: Vec<Function>,
    evs: Vec<Event>,
    contract: Contract,
    other: Contract,
    ctors: Vec<ethabi::Constructor>,
}

struct Call {
    what: String,
    run: Box<dyn Fn(&Shared) -> String + Sync + Send>,
    want: String,
}

fn dec_str(e: &Expect) -> String {
    match e {
        Expect::Must(v) | Expect::May(v) => format!("{:?}", v),
        Expect::Reject => "error".into(),
    }
}
fn real_str(r: Result<Vec<ethabi::Token>, ethabi::Error>) -> String {
    match r {
        Ok(v) => format!("{:?}", vals(&v)),
        Err(_) => "error".into(),
    }
}

fn alphabet() -> (Arc<Shared>, Vec<Call>) {
    let mut calls: Vec<Call> = vec![];
    let mut add = |what: String, want: String, run: Box<dyn Fn(&Shared) -> String + Sync + Send>| {
        calls.push(Call { what, run, want })
    };
    // the same bytes under different types, different bytes under the same types, and failures
    let u = |n: usize| Val::Uint(word(n));
    let t1 = vec![Ty::Uint(256), Ty::Bytes];
    let v1 = vec![u(7), Val::Bytes(vec![1, 2, 3])];
    let v2 = vec![u(8), Val::Bytes(vec![9; 33])];
    let d1 = encode(&t1, &v1);
    let mut cut = d1.clone();
    cut.truncate(70);
    for (ts, d) in [
        (t1.clone(), d1.clone()),
        (vec![Ty::Int(256), Ty::Str], d1.clone()),
        (vec![Ty::Uint(256), arr(Ty::Bool)], d1.clone()),
        (t1.clone(), encode(&t1, &v2)),
        (t1.clone(), cut),
        (t1.clone(), vec![]),
        (vec![farr(Ty::Uint(256), 2)], d1.clone()),
        (vec![tup(&t1)], encode(&[tup(&t1)], &[Val::Tup(v2.clone())])),
    ] {
        let want = dec_str(&decode(&ts, &d));
        let p = reals(&ts);
        add(format!("decode ({}) {}", names(&ts), clip(&hexs(&d), 40)), want, Box::new(move |_| real_str(ethabi::decode(&p, &d))));
    }
    for (ts, vs) in [
        (t1.clone(), v1.clone()),
        (t1.clone(), v2.clone()),
        (vec![arr(Ty::Str), Ty::Bool], vec![Val::Arr(vec![Val::Str("x".into()), Val::Str("".into())]), Val::Bool(true)]),
        (vec![arr(Ty::Str)], vec![Val::Arr(vec![])]),
    ] {
        let want = hexs(&encode(&ts, &vs));
        let tk = toks(&vs);
        add(format!("encode {}", show(&ts, &vs)), want, Box::new(move |_| hexs(&ethabi::encode(&tk))));
    }
    // overloads: one name, different parameters, on shared objects
    let fdefs: Vec<(&str, Vec<Ty>, Vec<Ty>, Vec<Val>)> = vec![
        ("f", vec![Ty::Uint(256)], vec![Ty::Bool], vec![u(3)]),
        ("f", vec![Ty::Uint(8)], vec![], vec![u(3)]),
        ("f", vec![Ty::Str], vec![Ty::Str], vec![Val::Str("q".into())]),
        ("g", vec![Ty::Uint(256)], vec![Ty::Bool], vec![u(3)]),
        ("f", vec![], vec![Ty::Uint(256)], vec![]),
        // the same selector, other outputs
        ("f", vec![Ty::Uint(256)], vec![Ty::Int(256)], vec![u(4)]),
        ("f", vec![tup(&[Ty::Uint(256)])], vec![tup(&[Ty::Bool])], vec![Val::Tup(vec![u(3)])]),
    ];
    let fns: Vec<Function> = fdefs.iter().map(|(n, i, o, _)| function(n, i, o)).collect();
    for (k, (n, i, o, v)) in fdefs.iter().enumerate() {
        let mut want = selector(n, i).to_vec();
        want.extend(encode(i, v));
        let tk = toks(v);
        add(
            format!("encode_input {}({})", n, names(i)),
            hexs(&want),
            Box::new(move |s| s.fns[k].encode_input(&tk).map(|b| hexs(&b)).unwrap_or("error".into())),
        );
        let sig = if o.is_empty() { format!("{}({})", n, names(i)) } else { format!("{}({}):({})", n, names(i), names(o)) };
        add(format!("signature {}", sig), sig, Box::new(move |s| s.fns[k].signature()));
        let d = word(1).to_vec();
        let want = dec_str(&decode(o, &d));
        add(format!("decode_output {}({})", n, names(o)), want, Box::new(move |s| real_str(s.fns[k].decode_output(&d))));
    }
    let cdefs = [(vec![], vec![]), (vec![Ty::Bool], vec![Val::Bool(true)]), (vec![Ty::Str], vec![Val::Str("ab".into())])];
    let ctors: Vec<ethabi::Constructor> = cdefs.iter().map(|c| ethabi::Constructor { inputs: function("", &c.0, &[]).inputs }).collect();
    for (k, (ts, vs)) in cdefs.iter().enumerate() {
        for code in [vec![], vec![0x60, 0x80]] {
            let mut want = code.clone();
            want.extend(encode(ts, vs));
            let tk = toks(vs);
            add(format!("constructor({}) with code {}", names(ts), hexs(&code)), hexs(&want), Box::new(move |s| {
                s.ctors[k].encode_input(code.clone(), &tk).map(|b| hexs(&b)).unwrap_or("error".into())
            }));
        }
    }
    for v in [u(16), Val::Int([0xff; 32]), Val::Arr(vec![Val::Str("a".into()), Val::Str("b".into())]), Val::Tup(vec![Val::Bool(true), Val::Bytes(vec![0, 1])])] {
        let tok = v.real();
        add(format!("display {:?}", v), v.display(), Box::new(move |_| tok.to_string()));
    }
    // ill-typed calls in between
    let tk = vec![ethabi::Token::Bool(true)];
    add("encode_input f(uint256) with a bool".into(), "error".into(), Box::new(move |s| {
        s.fns[0].encode_input(&tk).map(|b| hexs(&b)).unwrap_or("error".into())
    }));
    // events sharing a name
    let edefs = vec![
        (Ev { name: "E".into(), ins: vec![("a".into(), Ty::Uint(256), true), ("b".into(), Ty::Str, false)], anon: false }, vec![u(5), Val::Str("hey".into())]),
        (Ev { name: "E".into(), ins: vec![("a".into(), Ty::Uint(256), false), ("b".into(), Ty::Str, true)], anon: false }, vec![u(5), Val::Str("hey".into())]),
        (Ev { name: "E".into(), ins: vec![("x".into(), Ty::Bool, true)], anon: false }, vec![Val::Bool(true)]),
        (Ev { name: "E".into(), ins: vec![("x".into(), Ty::Bool, true)], anon: true }, vec![Val::Bool(false)]),
        // the same signature, other names
        (Ev { name: "E".into(), ins: vec![("z".into(), Ty::Uint(256), true), ("".into(), Ty::Str, false)], anon: false }, vec![u(6), Val::Str("you".into())]),
    ];
    let evs: Vec<Event> = edefs.iter().map(|e| e.0.real()).collect();
    let logs: Vec<(Vec<[u8; 32]>, Vec<u8>)> = edefs.iter().map(|(e, v)| e.emit(v)).collect();
    for (k, (e, _)) in edefs.iter().enumerate() {
        add(
            format!("signature of {}", e.show()),
            hexs(&topic0(&e.name, &e.tys())),
            Box::new(move |s| hexs(&s.evs[k].signature().0)),
        );
        for (l, (topics, data)) in logs.iter().enumerate() {
            let want = match e.parse(topics, data) {
                Expect::Reject => "error".into(),
                Expect::Must(v) | Expect::May(v) => format!("{:?}", e.ins.iter().map(|p| p.0.clone()).zip(v).collect::<Vec<_>>()),
            };
            let (topics, data) = (topics.clone(), data.clone());
            add(
                format!("{} parses log {}", e.show(), l),
                want,
                Box::new(move |s| {
                    let raw = RawLog { topics: topics.iter().map(|t| Hash::from(*t)).collect(), data: data.clone() };
                    match s.evs[k].parse_log(raw) {
                        Ok(l) => format!("{:?}", l.params.iter().map(|p| (p.name.clone(), Val::from_real(&p.value))).collect::<Vec<_>>()),
                        Err(_) => "error".into(),
                    }
                }),
            );
        }
    }
    for (k, v) in [(0usize, u(5)), (0, u(6)), (2, Val::Bool(true))] {
        let e = &edefs[k].0;
        let want = format!("{} {}", hexs(&topic0(&e.name, &e.tys())), hexs(&topic(&e.ins[0].1, &v)));
        let tok = v.real();
        add(format!("filter {} on {:?}", e.show(), v), want, Box::new(move |s| {
            let f = RawTopicFilter { topic0: Topic::This(tok.clone()), ..Default::default() };
            match s.evs[k].filter(f) {
                Ok(f) => match (f.topic0, f.topic1) {
                    (Topic::This(a), Topic::This(b)) => format!("{} {}", hexs(&a.0), hexs(&b.0)),
                    o => format!("{:?}", o),
                },
                Err(_) => "error".into(),
            }
        }));
    }
    // type names
    for (n, want) in [
        ("uint", "uint256"),
        ("uint8[2][]", "uint8[2][]"),
        ("(bool,string)", "(bool,string)"),
        ("(bool,string", "error"),
        ("string", "string"),
        ("uint8[2]", "uint8[2]"),
        ("int", "int256"),
        ("((bool),string)[]", "((bool),string)[]"),
        ("uint8[x]", "error"),
    ] {
        add(format!("read {}", n), want.into(), Box::new(move |_| Reader::read(n).map(|t| Ty::from_real(&t).name()).unwrap_or("error".into())));
    }
    // types as deep as they may be
    for ty in [(0..150).fold(Ty::Bool, |t, _| arr(t)), (0..150).fold(Ty::Bool, |t, _| tup(&[t]))] {
        let n = ty.name();
        add(format!("read {}", clip(&n, 40)), n.clone(), Box::new(move |_| Reader::read(&n).map(|t| Ty::from_real(&t).name()).unwrap_or("error".into())));
    }
    let deep = (0..150).fold(Ty::Uint(8), |t, _| tup(&[t]));
    let dv = (0..150).fold(u(9), |v, _| Val::Tup(vec![v]));
    let want = hexs(&encode(&[deep.clone()], &[dv.clone()]));
    let (p, d, tk) = (reals(&[deep.clone()]), encode(&[deep.clone()], &[dv.clone()]), toks(&[dv.clone()]));
    add("decode 150 nested tuples".into(), format!("{:?}", vec![dv]), Box::new(move |_| real_str(ethabi::decode(&p, &d))));
    add("encode 150 nested tuples".into(), want, Box::new(move |_| hexs(&ethabi::encode(&tk))));
    // text
    for (t, x, len) in [
        (arr(Ty::Str), "[a,b]", false),
        (arr(Ty::Str), "[a,\"b]", false),
        (tup(&[Ty::Str, Ty::Bool]), "(a,1)", true),
        (Ty::Uint(256), "12", true),
        (Ty::Uint(256), "12", false),
        (Ty::Int(256), "-12", true),
        (farr(Ty::Bool, 2), "[1,0]", false),
        (Ty::Int(256), "12", true),
        (Ty::Uint(8), "-12", true),
        (Ty::Str, "[a,b]", true),
        (tup(&[tup(&[Ty::Str]), Ty::Str]), "((a),b)", true),
        (Ty::Bytes, "ab", false),
        (Ty::FBytes(2), "ab", false),
    ] {
        let want = match text::parse(&t, x, len) {
            text::Text::Must(v) => format!("{:?}", v),
            _ => "error".into(),
        };
        let p = t.real();
        add(format!("tokenize {} {:?} lenient={}", t.name(), x, len), want, Box::new(move |_| {
            text::tokenize(&p, x, len).map(|t| format!("{:?}", Val::from_real(&t))).unwrap_or("error".into())
        }));
    }
    // contracts: two documents with clashing names, one shared object for lookups
    let al = super::json::ops_alphabet();
    let docs = [vec![al[0].clone(), al[1].clone(), al[4].clone()], vec![al[2].clone(), al[5].clone(), al[7].clone(), al[9].clone()]];
    for d in &docs {
        let text = J::Arr(d.iter().map(op_json).collect()).text();
        let want = format!("{:?}", MContract::from_ops(d));
        add(format!("load {}", clip(&text, 60)), want, Box::new(move |_| {
            Contract::load(text.as_bytes()).map(|c| format!("{:?}", MContract::of(&c))).unwrap_or("error".into())
        }));
    }
    let text = J::Arr(docs[0].iter().map(op_json).collect()).text();
    add("load a cut document".into(), "error".into(), Box::new(move |_| {
        Contract::load(&text.as_bytes()[..text.len() - 1]).map(|c| format!("{:?}", MContract::of(&c))).unwrap_or("error".into())
    }));
    let mc = MContract::from_ops(&docs[0]);
    for n in ["f", "E", "nope"] {
        let want = mc.fns.get(n).map(|v| format!("{:?} {:?}", v[0], v)).unwrap_or("error".into());
        add(format!("functions named {}", n), want, Box::new(move |s| {
            match (s.contract.function(n), s.contract.functions_by_name(n)) {
                (Ok(a), Ok(b)) => format!("{:?} {:?}", MFn::of(a), b.iter().map(MFn::of).collect::<Vec<_>>()),
                (Err(_), Err(_)) => "error".into(),
                o => format!("{:?}", o),
            }
        }));
    }
    // another contract with the same names
    let mo = MContract::from_ops(&[al[2].clone(), al[0].clone(), al[5].clone(), al[6].clone()]);
    for n in ["f", "E", "nope"] {
        let want = mo.evs.get(n).map(|v| format!("{:?} {:?}", v[0], v)).unwrap_or("error".into());
        add(format!("events named {} of the other contract", n), want, Box::new(move |s| {
            match (s.other.event(n), s.other.events_by_name(n)) {
                (Ok(a), Ok(b)) => format!("{:?} {:?}", MEv::of(a), b.iter().map(MEv::of).collect::<Vec<_>>()),
                (Err(_), Err(_)) => "error".into(),
                o => format!("{:?}", o),
            }
        }));
    }
    let want = mo.fns.get("f").map(|v| format!("{:?} {:?}", v[0], v)).unwrap();
    add("functions named f of the other contract".into(), want, Box::new(move |s| {
        match (s.other.function("f"), s.other.functions_by_name("f")) {
            (Ok(a), Ok(b)) => format!("{:?} {:?}", MFn::of(a), b.iter().map(MFn::of).collect::<Vec<_>>()),
            o => format!("{:?}", o),
        }
    }));
    for (k, m) in [mc.clone(), mo.clone()].into_iter().enumerate() {
        add(format!("serialize contract {}", k), format!("{:?}", Loaded::Must(m)), Box::new(move |s| {
            let c = if k == 0 { &s.contract } else { &s.other };
            serde_json::to_string(c).map(|t| format!("{:?}", load_text(t.as_bytes()))).unwrap_or("error".into())
        }));
    }
    let (contract, other) = (mc.real(), mo.real());
    (Arc::new(Shared { fns, evs, contract, other, ctors }), calls)
}

/// The same few operations on many types and values: calls that differ from each other in little.
fn family(t: Tier) -> Vec<Call> {
    let mut calls: Vec<Call> = vec![];
    let mut add = |what: String, want: String, run: Box<dyn Fn(&Shared) -> String + Sync + Send>| calls.push(Call { what, run, want });
    let leaves = [Ty::Uint(256), Ty::Int(256), Ty::Uint(8), Ty::Bytes, Ty::Str, Ty::Bool, Ty::Addr, Ty::FBytes(2), Ty::FBytes(32)];
    let mut types: Vec<Vec<Ty>> = vec![vec![]];
    for l in &leaves {
        types.extend([vec![l.clone()], vec![arr(l.clone())], vec![farr(l.clone(), 2)], vec![tup(&[l.clone()])]]);
    }
    for l in [Ty::Uint(256), Ty::Str] {
        types.extend([
            vec![l.clone(), l.clone()],
            vec![l.clone(), Ty::Bool],
            vec![Ty::Bool, l.clone()],
            vec![tup(&[l.clone(), Ty::Bool])],
            vec![arr(arr(l.clone()))],
            vec![arr(tup(&[l.clone()]))],
            vec![farr(l.clone(), 3)],
            vec![farr(arr(l.clone()), 2)],
            vec![arr(farr(l.clone(), 2))],
        ]);
    }
    let many = t.pick(2, 4);
    for ts in &types {
        let ps = reals(ts);
        let n = ts.iter().map(|t| domain(t).len()).min().unwrap_or(1).min(many);
        let name = signature("f", ts);
        let sel = selector("f", ts);
        let f = function("f", ts, ts);
        {
            let f = f.clone();
            let full = if ts.is_empty() { name.clone() } else { format!("{}:({})", name, ts.iter().map(|t| t.name()).collect::<Vec<_>>().join(",")) };
            add(format!("signature of {}", name), full, Box::new(move |_| f.signature()));
        }
        let ev = Ev { name: "f".into(), ins: ts.iter().map(|t| ("a".to_string(), t.clone(), false)).collect(), anon: false };
        {
            let e = ev.real();
            add(format!("topic of {}", name), hexs(&ev.topic0()), Box::new(move |_| hexs(&e.signature().0)));
        }
        if let [t] = &ts[..] {
            let n = t.name();
            add(format!("read {}", n), n.clone(), Box::new(move |_| Reader::read(&n).map(|t| Ty::from_real(&t).name()).unwrap_or("error".into())));
        }
        for k in 0..n {
            let vs: Vec<Val> = ts.iter().map(|t| domain(t)[k].clone()).collect();
            let (d, tk) = (encode(ts, &vs), toks(&vs));
            let what = format!("{} {:?}", name, vs);
            let want = format!("{:?}", ts.iter().zip(&vs).map(|(t, v)| v.normal(t)).collect::<Vec<_>>());
            {
                let tk = tk.clone();
                add(format!("encode {}", what), hexs(&d), Box::new(move |_| hexs(&ethabi::encode(&tk))));
            }
            {
                let (f, tk) = (f.clone(), tk.clone());
                add(format!("call {}", what), format!("{}{}", hexs(&sel), hexs(&d)), Box::new(move |_| f.encode_input(&tk).map(|d| hexs(&d)).unwrap_or("error".into())));
            }
            for cut in [false, true] {
                let (ps, mut d) = (ps.clone(), d.clone());
                if cut {
                    d.pop();
                }
                let want = dec_str(&decode(ts, &d));
                add(format!("decode{} {}", if cut { " cut" } else { "" }, what), want, Box::new(move |_| real_str(ethabi::decode(&ps, &d))));
            }
            {
                let (f, d) = (f.clone(), d.clone());
                add(format!("result {}", what), want.clone(), Box::new(move |_| real_str(f.decode_output(&d))));
            }
            for indexed in [false, true] {
                let mut ev = ev.clone();
                ev.ins.iter_mut().for_each(|i| i.2 = indexed);
                let (topics, data) = ev.emit(&vs);
                let want = format!("{:?}", ev.seen(&vs));
                let e = ev.real();
                add(format!("log {} {}", ev.show(), show_log(&topics, &data)), want, Box::new(move |_| match e.parse_log(raw(&topics, &data)) {
                    Ok(l) => format!("{:?}", l.params.iter().map(|p| (p.name.clone(), Val::from_real(&p.value))).collect::<Vec<_>>()),
                    Err(_) => "error".into(),
                }));
            }
            if let ([t], [v]) = (&ts[..], &vs[..]) {
                let ev = Ev { name: "f".into(), ins: vec![("a".to_string(), t.clone(), true)], anon: false };
                let want = format!("{} {}", hexs(&ev.topic0()), hexs(&topic(t, v)));
                let (e, tok) = (ev.real(), v.real());
                add(format!("filter {}", what), want, Box::new(move |_| {
                    match e.filter(RawTopicFilter { topic0: Topic::This(tok.clone()), ..Default::default() }) {
                        Ok(f) => match (f.topic0, f.topic1) {
                            (Topic::This(a), Topic::This(b)) => format!("{} {}", hexs(&a.0), hexs(&b.0)),
                            o => format!("{:?}", o),
                        },
                        Err(_) => "error".into(),
                    }
                }));
                let (text, tok) = (v.display(), v.real());
                add(format!("show {}", what), text, Box::new(move |_| tok.to_string()));
            }
        }
    }
    calls
}

/// Names and texts, right and nearly right, under many types: what is refused once, or read once
/// under another type, says nothing about the next.
fn readings(t: Tier) -> Vec<Call> {
    let mut calls: Vec<Call> = vec![];
    let mut add = |what: String, want: String, run: Box<dyn Fn(&Shared) -> String + Sync + Send>| calls.push(Call { what, run, want });
    let words = ["bool", "uint256", "uint", "int8", "string", "bytes", "bytes32", "address"];
    let mut names: Vec<String> = vec![];
    for w in words {
        let cap: String = w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect();
        names.extend([w.to_string(), w.to_uppercase(), cap, format!(" {}", w), format!("{} ", w), format!("{}[]", w), format!("{}[2]", w), format!("{}[", w), format!("{}]", w), format!("({})", w), format!("({}", w)]);
        names.extend([format!("({},bool)", w), format!("{}[][3]", w), w[1..].to_string(), format!("{}x", w)]);
    }
    names.extend(["", "()", "[]", "tuple", "(bool,)", "uint8", "uint16", "uint2560", "bytes3", "bytes320"].iter().map(|s| s.to_string()));
    for n in names {
        let want = match parse_name(&n) {
            Named::Must(t) => t.name(),
            Named::Reject => "error".into(),
            Named::May(_) => continue,
        };
        let js = serde_json::to_string(&n).unwrap();
        add(format!("read {:?}", n), want.clone(), Box::new(move |_| Reader::read(&n).map(|t| Ty::from_real(&t).name()).unwrap_or("error".into())));
        add(format!("deserialize {}", js), want, Box::new(move |_| {
            serde_json::from_str::<ethabi::ParamType>(&js).map(|t| Ty::from_real(&t).name()).unwrap_or("error".into())
        }));
    }
    let types = [Ty::Uint(256), Ty::Int(256), Ty::Uint(8), Ty::Bool, Ty::Str, Ty::Bytes, Ty::FBytes(1), Ty::Addr, arr(Ty::Str), arr(Ty::Bool), farr(Ty::Str, 2), tup(&[Ty::Str, Ty::Bool]), arr(Ty::Uint(8))];
    let mut texts = vec!["1", "0", "true", "True", "-1", "01", "ab", "AB", "", "[1,0]", "[a,1]", "(a,1)", "[", "[]", "\"1\""];
    if t == Tier::Thorough {
        texts.extend(["10", " 1", "[[1]]", "(1)", "[\"a,b\",1]", "[1", "1]", "x"]);
    }
    let z = format!("{}1", "0".repeat(63));
    let a = "ab".repeat(20);
    texts.extend([z.as_str(), a.as_str()]);
    for ty in &types {
        for x in &texts {
            for lenient in [false, true] {
                let want = match text::parse(ty, x, lenient) {
                    text::Text::Must(v) => format!("{:?}", v),
                    text::Text::Reject => "error".into(),
                    text::Text::May => continue,
                };
                let (p, x) = (ty.real(), x.to_string());
                add(format!("tokenize {} {:?} lenient={}", ty.name(), x, lenient), want, Box::new(move |_| {
                    text::tokenize(&p, &x, lenient).map(|t| format!("{:?}", Val::from_real(&t))).unwrap_or("error".into())
                }));
            }
        }
    }
    calls
}

/// Functions and events that differ though their selectors, or ends of their hashes, are equal.
fn colliding() -> Vec<Call> {
    let mut calls: Vec<Call> = vec![];
    let mut add = |what: String, want: String, run: Box<dyn Fn(&Shared) -> String + Sync + Send>| calls.push(Call { what, run, want });
    let three = |l: &[Ty]| -> Vec<Val> { l.iter().enumerate().map(|(i, t)| if let Ty::Int(_) = t { Val::Int(word(i + 3)) } else { Val::Uint(word(i + 3)) }).collect() };
    for pair in super::cli::colliding_fns() {
        for (l, outs) in pair.iter().zip([vec![Ty::Uint(256)], vec![Ty::Bool]]) {
            let f = function("over", l, &outs);
            let name = signature("over", l);
            let sel = selector("over", l);
            let vs = three(l);
            let d = encode(l, &vs);
            let full = format!("{}:({})", name, names(&outs));
            let g = f.clone();
            add(format!("signature of {}", full), full, Box::new(move |_| g.signature()));
            let g = f.clone();
            let tk = toks(&vs);
            add(format!("call {}", name), format!("{}{}", hexs(&sel), hexs(&d)), Box::new(move |_| g.encode_input(&tk).map(|d| hexs(&d)).unwrap_or("error".into())));
            let g = f.clone();
            add(format!("call {} with a bool", name), "error".into(), Box::new(move |_| g.encode_input(&[ethabi::Token::Bool(true)]).map(|d| hexs(&d)).unwrap_or("error".into())));
            let g = f.clone();
            let one = word(1).to_vec();
            let want = dec_str(&decode(&outs, &one));
            add(format!("result of {}", name), want, Box::new(move |_| real_str(g.decode_output(&one))));
            // both of a pair take the same payload
            let want = dec_str(&decode(l, &d));
            let g = f.clone();
            add(format!("arguments of {}", name), want, Box::new(move |_| real_str(g.decode_input(&d))));
        }
    }
    for pair in super::cli::colliding_evs() {
        for (k, l) in pair.iter().enumerate() {
            for anon in [false, true] {
                let ev = Ev { name: "Over".into(), ins: l.iter().enumerate().map(|(i, t)| (format!("e{}p{}", k, i), t.clone(), i == k)).collect(), anon };
                let vs = three(l);
                let e = ev.real();
                add(format!("topic of {}", ev.show()), hexs(&topic0("Over", l)), Box::new(move |_| hexs(&e.signature().0)));
                for (j, other) in pair.iter().enumerate() {
                    let from = Ev { name: "Over".into(), ins: other.iter().enumerate().map(|(i, t)| ("q".into(), t.clone(), i == j)).collect(), anon };
                    let (topics, data) = from.emit(&three(other));
                    let want = match ev.parse(&topics, &data) {
                        Expect::Reject => "error".into(),
                        Expect::Must(v) | Expect::May(v) => format!("{:?}", ev.ins.iter().map(|p| p.0.clone()).zip(v).collect::<Vec<_>>()),
                    };
                    let e = ev.real();
                    add(format!("{} parses a log of {}", ev.show(), from.show()), want, Box::new(move |_| match e.parse_log(raw(&topics, &data)) {
                        Ok(l) => format!("{:?}", l.params.iter().map(|p| (p.name.clone(), Val::from_real(&p.value))).collect::<Vec<_>>()),
                        Err(_) => "error".into(),
                    }));
                }
                let (e, tok) = (ev.real(), vs[k].real());
                let t = hexs(&topic(&l[k], &vs[k]));
                let want = if anon { format!("{} any", t) } else { format!("{} {}", hexs(&topic0("Over", l)), t) };
                let show = |t: Topic<Hash>| match t {
                    Topic::This(h) => hexs(&h.0),
                    Topic::Any => "any".to_string(),
                    o => format!("{:?}", o),
                };
                add(format!("filter {}", ev.show()), want, Box::new(move |_| match e.filter(RawTopicFilter { topic0: Topic::This(tok.clone()), ..Default::default() }) {
                    Ok(f) => format!("{} {}", show(f.topic0), show(f.topic1)),
                    Err(_) => "error".into(),
                }));
            }
        }
    }
    calls
}

/// Documents, whole and damaged, and lookups of names near to theirs.
fn documents() -> Vec<Call> {
    let mut calls: Vec<Call> = vec![];
    let mut add = |what: String, want: String, run: Box<dyn Fn(&Shared) -> String + Sync + Send>| calls.push(Call { what, run, want });
    let al = super::json::ops_alphabet();
    let mut docs: Vec<Vec<Op>> = vec![vec![]];
    for i in 0..al.len() {
        docs.push(vec![al[i].clone()]);
        docs.push(vec![al[i].clone(), al[(i + 1) % al.len()].clone()]);
        docs.push(vec![al[(i + 3) % al.len()].clone(), al[i].clone()]);
    }
    for d in docs {
        let full = J::Arr(d.iter().map(op_json).collect()).text();
        let mut variants = vec![full.clone(), full[..full.len() - 1].to_string()];
        if let Some(i) = full.find("\"type\"") {
            variants.push(format!("{}\"tipe\"{}", &full[..i], &full[i + 6..]));
        }
        if full.contains("uint256") {
            variants.push(full.replacen("uint256", "uint255x", 1));
            variants.push(full.replacen("uint256", "bool", 1));
        }
        for x in variants {
            let want = match load_text(x.as_bytes()) {
                Loaded::Must(c) => format!("{:?}", c),
                Loaded::Reject => "error".into(),
                _ => continue,
            };
            let y = x.clone();
            add(format!("load {}", clip(&x, 200)), want.clone(), Box::new(move |_| {
                Contract::load(x.as_bytes()).map(|c| format!("{:?}", MContract::of(&c))).unwrap_or("error".into())
            }));
            if want != "error" {
                // what is written of it is read back as the same
                add(format!("load, write and load {}", clip(&y, 200)), want, Box::new(move |_| {
                    let c = Contract::load(y.as_bytes()).unwrap();
                    let w = serde_json::to_string(&c).unwrap_or_default();
                    match load_text(w.as_bytes()) {
                        Loaded::Must(c) => format!("{:?}", c),
                        _ => "error".into(),
                    }
                }));
            }
        }
    }
    calls
}

/// An operation that calls back into code of its user, who may do anything there.
struct Stream {
    what: String,
    want: String,
    /// How often it calls back when run alone.
    points: usize,
    run: Box<dyn Fn(&mut dyn FnMut()) -> String + Sync + Send>,
}

/// Serves one byte at a time, pausing before each.
struct Pausing<'a> {
    text: &'a [u8],
    pause: &'a mut dyn FnMut(),
}
impl<'a> std::io::Read for Pausing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        (self.pause)();
        let n = buf.len().min(self.text.len()).min(1);
        buf[..n].copy_from_slice(&self.text[..n]);
        self.text = &self.text[n..];
        Ok(n)
    }
}
struct Taking<'a> {
    got: Vec<u8>,
    pause: &'a mut dyn FnMut(),
}
impl<'a> std::io::Write for Taking<'a> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        (self.pause)();
        self.got.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl<'a> std::fmt::Write for Taking<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        (self.pause)();
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

fn streams() -> Vec<Stream> {
    use std::fmt::Write;
    let mut v: Vec<Stream> = vec![];
    let mut add = |what: String, want: String, run: Box<dyn Fn(&mut dyn FnMut()) -> String + Sync + Send>| v.push(Stream { what, want, points: 0, run });
    let al = super::json::ops_alphabet();
    let docs = [vec![al[0].clone(), al[4].clone()], vec![al[2].clone(), al[5].clone(), al[9].clone()]];
    for d in &docs {
        let text = J::Arr(d.iter().map(op_json).collect()).text();
        let m = MContract::from_ops(d);
        add(format!("load {}", clip(&text, 60)), format!("{:?}", m), Box::new(move |pause| {
            Contract::load(Pausing { text: text.as_bytes(), pause }).map(|c| format!("{:?}", MContract::of(&c))).unwrap_or("error".into())
        }));
        let c = m.real();
        add(format!("serialize {:?}", m), format!("{:?}", Loaded::Must(m)), Box::new(move |pause| {
            let mut w = Taking { got: vec![], pause };
            match serde_json::to_writer(&mut w, &c) {
                Ok(()) => format!("{:?}", load_text(&w.got)),
                Err(e) => e.to_string(),
            }
        }));
    }
    add("load a broken document".into(), "error".into(), Box::new(move |pause| {
        let text = b"[{\"type\":\"event\",\"name\":\"E\",\"anonymous\":false,\"inputs\":[{\"name\":\"a\",\"type\":\"(bool\",\"indexed\":true}]}]";
        Contract::load(Pausing { text, pause }).map(|c| format!("{:?}", MContract::of(&c))).unwrap_or("error".into())
    }));
    let q = MParam { name: "q".into(), ty: arr(tup(&[Ty::Str, farr(tup(&[Ty::Uint(8)]), 2)])), internal: Some("struct S[]".into()) };
    let text = match op_json(&Op::Ctor(vec![q.clone()])) {
        J::Obj(o) => match o.into_iter().find(|e| e.0 == "inputs") {
            Some((_, J::Arr(v))) => v[0].text(),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    };
    add(format!("read parameter {}", text), format!("{:?}", q), Box::new(move |pause| {
        serde_json::from_reader::<_, ethabi::Param>(Pausing { text: text.as_bytes(), pause }).map(|p| format!("{:?}", MParam::of(&p))).unwrap_or("error".into())
    }));
    for val in [
        Val::Arr(vec![Val::Str("a".into()), Val::Str("b".into())]),
        Val::Tup(vec![Val::Bool(true), Val::Bytes(vec![0, 1]), Val::Arr(vec![Val::Uint(word(17))])]),
    ] {
        let tok = val.real();
        add(format!("display {:?}", val), val.display(), Box::new(move |pause| {
            let mut w = Taking { got: vec![], pause };
            match write!(w, "{}", tok) {
                Ok(()) => String::from_utf8_lossy(&w.got).into_owned(),
                Err(e) => e.to_string(),
            }
        }));
    }
    let ty = tup(&[arr(Ty::Uint(8)), tup(&[Ty::Bool, farr(Ty::Str, 3)])]);
    let real = ty.real();
    add(format!("display type {}", ty.name()), ty.name(), Box::new(move |pause| {
        let mut w = Taking { got: vec![], pause };
        match write!(w, "{}", real) {
            Ok(()) => String::from_utf8_lossy(&w.got).into_owned(),
            Err(e) => e.to_string(),
        }
    }));
    add("map a topic".into(), "OneOf([2, 4, 6])".into(), Box::new(|pause| {
        let pause = std::cell::RefCell::new(pause);
        format!("{:?}", Topic::OneOf(vec![1, 2, 3]).map(|x| {
            (&mut *pause.borrow_mut())();
            x * 2
        }))
    }));
    let h = |b: u8| Hash::from([b; 32]);
    let f = ethabi::TopicFilter { topic0: Topic::This(h(1)), topic1: Topic::OneOf(vec![h(2), h(3)]), topic2: Topic::Any, topic3: Topic::This(h(4)) };
    let x = |b: &str| format!("\"0x{}\"", b.repeat(32));
    add("serialize a filter".into(), format!("[{},[{},{}],null,{}]", x("01"), x("02"), x("03"), x("04")), Box::new(move |pause| {
        let mut w = Taking { got: vec![], pause };
        match serde_json::to_writer(&mut w, &f) {
            Ok(()) => String::from_utf8_lossy(&w.got).into_owned(),
            Err(e) => e.to_string(),
        }
    }));
    for s in &mut v {
        let mut n = 0;
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)(&mut || n += 1)));
        s.points = n;
    }
    v
}

/// Two operations on two threads, only one running at a time: the first is stopped at its i-th
/// callback, the second at its j-th, then one of them is finished before the other.
fn interleave(a: &Stream, i: usize, b: &Stream, j: usize, first: bool) -> (Result<String, String>, Result<String, String>) {
    use std::sync::mpsc::{channel, Receiver, Sender};
    use std::time::Duration;
    enum Ev {
        Paused,
        Done,
    }
    fn co(s: &Stream, stop: usize, tell: Sender<Ev>, go: Receiver<()>) -> Result<String, String> {
        let mut n = 0;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            (s.run)(&mut || {
                if n == stop {
                    let _ = tell.send(Ev::Paused);
                    let _ = go.recv();
                }
                n += 1;
            })
        }));
        let _ = tell.send(Ev::Done);
        r.map_err(|_| "panicked".to_string())
    }
    std::thread::scope(|sc| {
        let (ta, ra) = channel();
        let (ga, wa) = channel();
        let (tb, rb) = channel();
        let (gb, wb) = channel();
        let ha = sc.spawn(move || co(a, i, ta, wa));
        let _ = ra.recv();
        let hb = sc.spawn(move || co(b, j, tb, wb));
        // should one have to wait for the other, it is given its way
        let _ = rb.recv_timeout(Duration::from_millis(300));
        let (g1, r1, g2) = if first { (ga, ra, gb) } else { (gb, rb, ga) };
        let _ = g1.send(());
        let _ = r1.recv_timeout(Duration::from_millis(300));
        let _ = g2.send(());
        (ha.join().expect("caught"), hb.join().expect("caught"))
    })
}

pub fn c24(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let run = |cx: &mut Cx, sh: &Shared, calls: &[Call], n: usize| -> Res {
        let mut seq: Vec<usize> = vec![];
        for _ in 0..n {
            let k = cx.choose(calls.len());
            seq.push(k);
            let c = &calls[k];
            let hist = || seq.iter().map(|k| calls[*k].what.clone()).collect::<Vec<_>>().join("; then ");
            let got = cx.guard(|| (c.run)(sh)).map_err(|m| format!("{}: {}", hist(), m))?;
            if got != c.want {
                return Err(format!("{}: answered {}, expected {}", hist(), clip(&got, 600), clip(&c.want, 600)));
            }
        }
        let key: Vec<u8> = seq.iter().flat_map(|k| (*k as u16).to_le_bytes()).collect();
        cx.state(&[&key]);
        cx.sample(|| seq.iter().map(|k| calls[*k].what.clone()).collect::<Vec<_>>().join("; then "));
        cx.outcome("all answers as if alone");
        Ok(())
    };
    let (sh, calls) = alphabet();
    let calls = Arc::new(calls);
    let n = t.pick(3, 4);
    let (s2, c2) = (sh.clone(), calls.clone());
    v.push(space("sequences", 0, move |cx| run(cx, &s2, &c2, n)));
    // the same, with the objects made afresh in every history: state an object itself keeps
    let c3 = calls.clone();
    let m = t.pick(2, 3);
    v.push(space("fresh-objects", 0, move |cx| {
        let sh = Shared { fns: sh.fns.clone(), evs: sh.evs.clone(), contract: sh.contract.clone(), other: sh.other.clone(), ctors: sh.ctors.clone() };
        run(cx, &sh, &c3, m)
    }));
    // every pair of many closely related calls, one right after the other
    let fam = family(t);
    let (s5, _) = alphabet();
    v.push(space("pairs", 0, move |cx| run(cx, &s5, &fam, 2)));
    let fam = readings(t);
    let (s6, _) = alphabet();
    v.push(space("reading-pairs", 0, move |cx| run(cx, &s6, &fam, 2)));
    let fam = documents();
    let (s7, _) = alphabet();
    let n = t.pick(2, 3);
    v.push(space("document-pairs", 0, move |cx| run(cx, &s7, &fam, n)));
    let fam = colliding();
    let (s8, _) = alphabet();
    let n = t.pick(2, 3);
    v.push(space("colliding-pairs", 0, move |cx| run(cx, &s8, &fam, n)));
    // any call made while another is under way, at each of its callbacks, on the same thread
    let st = Arc::new(streams());
    let (s9, c9) = alphabet();
    let st2 = st.clone();
    v.push(space("calls-within-calls", 0, move |cx| {
        let a = &st2[cx.choose(st2.len())];
        let k = cx.choose(c9.len() + st2.len());
        let at = if a.points == 0 { 0 } else { cx.choose(a.points) };
        let (what, want) = if k < c9.len() { (&c9[k].what, &c9[k].want) } else { (&st2[k - c9.len()].what, &st2[k - c9.len()].want) };
        let show = || format!("{} while in callback {} of {}", what, at, a.what);
        cx.state(&[a.what.as_bytes(), what.as_bytes(), &at.to_le_bytes()]);
        cx.sample(&show);
        let (inner, outer) = cx
            .guard(|| {
                let (mut n, mut inner) = (0, None);
                let outer = (a.run)(&mut || {
                    if n == at {
                        inner = Some(if k < c9.len() { (c9[k].run)(&s9) } else { (st2[k - c9.len()].run)(&mut || ()) });
                    }
                    n += 1;
                });
                (inner, outer)
            })
            .map_err(|m| format!("{}: {}", show(), m))?;
        if outer != a.want || inner.as_ref().map_or(false, |i| i != want) {
            return Err(format!("{}: answered {}, expected {}; the outer call answered {}, expected {}", show(), clip(&inner.unwrap_or_default(), 600), clip(want, 600), clip(&outer, 600), clip(&a.want, 600)));
        }
        cx.outcome("both answers as if alone");
        Ok(())
    }));
    // two calls on two threads, switched at their callbacks: all schedules of two preemptions
    let step = t.pick(8, 40);
    v.push(space("two-threads", 0, move |cx| {
        let a = &st[cx.choose(st.len())];
        let b = &st[cx.choose(st.len())];
        let at = |cx: &mut Cx, n: usize| {
            let m = n.min(step).max(1);
            cx.choose(m) * n.max(1) / m
        };
        let (i, j) = (at(cx, a.points), at(cx, b.points));
        let first = cx.flag();
        let show = || format!("{} stopped at callback {}, then {} stopped at callback {}, then the {} finished first", a.what, i, b.what, j, if first { "former" } else { "latter" });
        cx.state(&[show().as_bytes()]);
        cx.sample(&show);
        let (ra, rb) = cx.guard(|| interleave(a, i, b, j, first)).map_err(|m| format!("{}: {}", show(), m))?;
        if ra.as_ref() != Ok(&a.want) || rb.as_ref() != Ok(&b.want) {
            return Err(format!("{}: answered {:?} and {:?}, expected {} and {}", show(), ra, rb, clip(&a.want, 600), clip(&b.want, 600)));
        }
        cx.outcome("both answers as if alone");
        Ok(())
    }));
    // two calls on two threads, the first stopped at its requests to the allocator: all schedules of one
    // preemption (the second runs to its end), and of two over fewer calls
    let (s10, c10) = alphabet();
    let asked: Arc<Vec<usize>> = Arc::new(c10.iter().map(|c| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mc::alloc::requests(|| (c.run)(&s10)).1)).unwrap_or(0)).collect());
    let c10 = Arc::new(c10);
    for two in [false, true] {
        let (s10, c10, asked) = (s10.clone(), c10.clone(), asked.clone());
        let few: Vec<usize> = (0..c10.len()).filter(|k| !two || k % t.pick(5, 3) == 0).collect();
        let step = if two { t.pick(5, 8) } else { t.pick(12, 64) };
        v.push(space(if two { "two-threads-two-stops" } else { "two-threads-one-stop" }, 0, move |cx| {
            let k = *cx.pick(&few);
            let l = *cx.pick(&few);
            let at = |cx: &mut Cx, n: usize| {
                let m = n.min(step).max(1);
                cx.choose(m) * n.max(1) / m
            };
            let i = at(cx, asked[k]);
            let j = if two { Some(at(cx, asked[l])) } else { None };
            let first = !two || cx.flag();
            let (a, b) = (&c10[k], &c10[l]);
            let show = || match j {
                None => format!("{} stopped before memory request {}, then {} on another thread", a.what, i, b.what),
                Some(j) => format!("{} stopped before memory request {}, then {} stopped before memory request {}, then the {} finished first", a.what, i, b.what, j, if first { "former" } else { "latter" }),
            };
            cx.state(&[&(k as u16).to_le_bytes(), &(l as u16).to_le_bytes(), &i.to_le_bytes(), &j.unwrap_or(usize::MAX).to_le_bytes(), &[first as u8]]);
            cx.sample(&show);
            let (ga, gb) = (mc::alloc::Gate::new(), mc::alloc::Gate::new());
            let go = |c: &Call, n: Option<usize>, g: &mc::alloc::Gate| {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match n {
                    Some(n) => mc::alloc::stopping(n, g, || (c.run)(&s10)),
                    None => (c.run)(&s10),
                }));
                g.finish();
                r.map_err(|_| "panicked".to_string())
            };
            let (ra, rb) = cx.guard(|| {
                std::thread::scope(|sc| {
                    let ha = sc.spawn(|| go(a, Some(i), &ga));
                    ga.stopped();
                    let rb = if two {
                        let hb = sc.spawn(|| go(b, j, &gb));
                        gb.stopped();
                        let (x, y) = if first { (&ga, &gb) } else { (&gb, &ga) };
                        x.go();
                        x.finished();
                        y.go();
                        hb.join().expect("caught")
                    } else {
                        go(b, None, &gb)
                    };
                    ga.go();
                    (ha.join().expect("caught"), rb)
                })
            })?;
            if ra.as_ref() != Ok(&a.want) || rb.as_ref() != Ok(&b.want) {
                return Err(format!("{}: answered {:?} and {:?}, expected {} and {}", show(), ra, rb, clip(&a.want, 600), clip(&b.want, 600)));
            }
            cx.outcome(if ga.gave_way() || gb.gave_way() { "both answers as if alone, one having waited for the other" } else { "both answers as if alone" });
            Ok(())
        }));
    }
    // repeated use of one call: nothing accumulates
    let (s4, c4) = alphabet();
    let reps = t.pick(300, 3000);
    v.push(space("repetition", 0, move |cx| {
        let k = cx.choose(c4.len());
        let j = cx.choose(c4.len());
        cx.state(&[&[k as u8, j as u8]]);
        for i in 0..reps {
            let c = &c4[if i % 7 == 6 { j } else { k }];
            let got = cx.guard(|| (c.run)(&s4)).map_err(|m| format!("{} (use {}): {}", c.what, i, m))?;
            if got != c.want {
                return Err(format!("{} (use {}): answered {}, expected {}", c.what, i, clip(&got, 600), clip(&c.want, 600)));
            }
        }
        cx.outcome("all answers as if alone");
        Ok(())
    }));
    v
}
