//! C23: generated bindings for events, compiled from the ABIs in abi/ by /repo's derive macro,
//! against the dynamic API and the model.

mod gen;
#[path = "../../derive_fn/src/rust.rs"]
mod rust;

use ethabi::{Address, Hash, RawLog, RawTopicFilter, Topic, TopicFilter, Uint};
use gen::{ABIS, EVS};
use mc::abi::{load_text, Loaded, MContract};
use mc::engine::*;
use mc::ev::*;
use mc::gen::{leaves, long_vals, moderate, Vg};
use mc::model::*;
use mc::runner::Tier;
use rust::*;
use std::sync::Arc;

#[global_allocator]
static ALLOC: mc::alloc::Counting = mc::alloc::Counting;

type Out = Result<Vec<Val>, String>;

pub struct EvCase {
    contract: usize,
    name: &'static str,
    /// the name in camel case
    camel: &'static str,
    parse: fn(RawLog, &[Ty]) -> Out,
    filter: fn(&[Tp<Val>]) -> TopicFilter,
    wildcard: fn() -> TopicFilter,
    event: fn() -> ethabi::Event,
}

/// A field that has to hold the topic of an indexed argument.
fn hash(h: Hash) -> Val {
    Val::FBytes(h.0.to_vec())
}
fn con<T: Rust>(c: &[Tp<Val>], i: usize) -> Topic<T> {
    match &c[i] {
        Tp::Any => Topic::Any,
        Tp::This(v) => Topic::This(T::of_val(v)),
        Tp::OneOf(v) => Topic::OneOf(v.iter().map(T::of_val).collect()),
    }
}

fn load() -> Vec<MContract> {
    ABIS.iter()
        .map(|a| match load_text(a) {
            Loaded::Must(c) => c,
            o => panic!("{:?}", o),
        })
        .collect()
}
fn decl(c: &EvCase, cs: &[MContract]) -> Ev {
    let e = &cs[c.contract].evs[c.name][0];
    Ev { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon }
}

/// Run `f` for the declared event.  Bindings put the camel-case form of the name into the event
/// (a listed finding): if `f` fails for the declared name and holds for that form, it is that
/// finding.
fn named(cx: &mut Cx, c: &EvCase, e: &Ev, f: &dyn Fn(&mut Cx, &EvCase, &Ev) -> Res) -> Res {
    match f(cx, c, e) {
        Err(m) if c.camel != c.name && !e.anon => {
            let mut e2 = e.clone();
            e2.name = c.camel.into();
            f(cx, c, &e2)?;
            cx.outcome("camel-case event name");
            cx.known("C23", c.name, m)
        }
        r => r,
    }
}

fn check_log(cx: &mut Cx, c: &EvCase, e: &Ev, topics: &[[u8; 32]], data: &[u8], want: &Expect) -> Res {
    let what = || format!("c{} {} {}", c.contract, e.show(), show_log(topics, data));
    cx.state(&[&[c.contract as u8], e.name.as_bytes(), &topics.concat(), data]);
    cx.sample(what);
    let ev = e.real();
    let dynamic = cx
        .guard(|| ev.parse_log(raw(topics, data)))
        .map_err(|m| format!("{}: dynamic API: {}", what(), m))?
        .map(|l| l.params.iter().map(|p| Val::from_real(&p.value)).collect::<Vec<_>>())
        .map_err(|e| e.to_string());
    let log = raw(topics, data);
    let got = cx.guard(|| (c.parse)(log, &e.tys())).map_err(|m| format!("{}: {}", what(), m))?;
    let o = judge(want, &got).map_err(|m| format!("{}: {}", what(), m))?;
    if got.is_ok() != dynamic.is_ok() {
        return Err(format!("{}: generated {:?}, dynamic API {:?}", what(), got, dynamic));
    }
    cx.outcome(o);
    Ok(())
}

fn check_filter(cx: &mut Cx, c: &EvCase, e: &Ev, cons: &[Tp<Val>], wild: bool) -> Res {
    let what = || format!("c{} {} filter {:?}{}", c.contract, e.show(), cons, if wild { " (wildcard_filter)" } else { "" });
    cx.state(&[what().as_bytes()]);
    cx.sample(what);
    let got = cx.guard(|| if wild { (c.wildcard)() } else { (c.filter)(cons) }).map_err(|m| format!("{}: {}", what(), m))?;
    let at = |i: usize| real_topic(cons.get(i).unwrap_or(&Tp::Any));
    let rf = RawTopicFilter { topic0: at(0), topic1: at(1), topic2: at(2) };
    let ev = e.real();
    let dynamic = cx.guard(|| ev.filter(rf)).map_err(|m| format!("{}: dynamic API: {}", what(), m))?;
    let mut want = vec![];
    if !e.anon {
        want.push(Tp::This(e.topic0()));
    }
    for (t, c) in e.indexed().iter().zip(cons) {
        want.push(match c {
            Tp::Any => Tp::Any,
            Tp::This(v) => Tp::This(topic(t, v)),
            Tp::OneOf(v) => Tp::OneOf(v.iter().map(|v| topic(t, v)).collect()),
        });
    }
    want.resize(4, Tp::Any);
    if topics_of(&got)[..] != want[..] {
        return Err(format!("{}: {:?}, expected {:?} (dynamic API {:?})", what(), got, want, dynamic.map_err(|e| e.to_string())));
    }
    cx.outcome("same filter");
    Ok(())
}

fn c23(t: Tier) -> Vec<Space> {
    let cs = Arc::new(load());
    let mut v = vec![];
    let c = cs.clone();
    v.push(space("declaration of every event", 0, move |cx| {
        let k = cx.pick(EVS);
        let e = decl(k, &c);
        named(cx, k, &e, &|cx, k, e| check_decl(cx, k, e))
    }));
    let c = cs.clone();
    v.push(space("emitted logs of every event", t.pick(2, 3), move |cx| {
        let k = cx.pick(EVS);
        let e = decl(k, &c);
        moderate(cx, &e.tys());
        let vs = Vg::new().vals(cx, &e.tys());
        named(cx, k, &e, &|cx, k, e| {
            let (topics, data) = e.emit(&vs);
            let want = Expect::Must(e.seen(&vs).into_iter().map(|x| x.1).collect());
            check_log(cx, k, e, &topics, &data, &want)
        })
    }));
    let c = cs.clone();
    v.push(space("unusual contents of the logs of every event", t.pick(1, 2), move |cx| {
        let k = cx.pick(EVS);
        let e = decl(k, &c);
        if e.ins.len() > 3 || leaves(&e.tys()) > 8 {
            return cx.prune();
        }
        let vs = Vg::rich().vals(cx, &e.tys());
        named(cx, k, &e, &|cx, k, e| {
            let (topics, data) = e.emit(&vs);
            let want = Expect::Must(e.seen(&vs).into_iter().map(|x| x.1).collect());
            check_log(cx, k, e, &topics, &data, &want)
        })
    }));
    let c = cs.clone();
    v.push(space("long contents of the logs of every event", 0, move |cx| {
        let k = cx.pick(EVS);
        let e = decl(k, &c);
        let vs = match long_vals(cx, &e.tys()) {
            Some(v) => v,
            None => return cx.prune(),
        };
        named(cx, k, &e, &|cx, k, e| {
            let (topics, data) = e.emit(&vs);
            let want = Expect::Must(e.seen(&vs).into_iter().map(|x| x.1).collect());
            check_log(cx, k, e, &topics, &data, &want)
        })
    }));
    let c = cs.clone();
    v.push(space("changed logs of every event", t.pick(2, 3), move |cx| {
        let k = cx.pick(EVS);
        let e = decl(k, &c);
        moderate(cx, &e.tys());
        let mut g = Vg::new();
        g.extremes = false;
        g.lens = &[2];
        g.blens = &[5];
        let vs = g.vals(cx, &e.tys());
        let (topics, data) = e.emit(&vs);
        let (nt, nw) = (topics.len(), data.len() / 32);
        // up to `dev` changes, each one of: a topic removed, doubled, exchanged, replaced; the
        // data cut, extended or a word replaced
        let mut edits = vec![];
        for i in 0..nt {
            let k = cx.deviate(9);
            if k > 0 {
                edits.push((0, i, k));
            }
        }
        for i in 0..nw {
            let k = cx.deviate(9);
            if k > 0 {
                edits.push((1, i, k));
            }
        }
        let tail = cx.deviate(7);
        named(cx, k, &e, &|cx, k, e| {
            let (topics, data) = e.emit(&vs);
            let (mut tt, mut d) = (vec![], data.clone());
            let mut skip = vec![];
            for (i, w) in topics.iter().enumerate() {
                let mut w = *w;
                match edits.iter().find(|x| x.0 == 0 && x.1 == i).map_or(0, |x| x.2) {
                    0 => {}
                    1 => skip.push(i),
                    2 => tt.push(w),
                    3 => w = word(0),
                    4 => w = word(1),
                    5 => w = [0xff; 32],
                    6 => w[0] ^= 0x80,
                    7 => w[31] ^= 1,
                    _ => w = topics[(i + 1) % topics.len()],
                }
                if !skip.contains(&i) {
                    tt.push(w);
                }
            }
            for (_, i, k) in edits.iter().filter(|x| x.0 == 1) {
                let w = &mut d[32 * i..32 * i + 32];
                match k {
                    1 => w.copy_from_slice(&word(0)),
                    2 => w.copy_from_slice(&word(1)),
                    3 => w.copy_from_slice(&word(2)),
                    4 => w.copy_from_slice(&word(32)),
                    5 => w.copy_from_slice(&word(data.len())),
                    6 => w.copy_from_slice(&[0xff; 32]),
                    7 => w[0] ^= 0x80,
                    _ => w[31] ^= 1,
                }
            }
            match tail {
                0 => {}
                1 => {
                    d.pop();
                }
                2 => d.truncate(d.len().saturating_sub(32)),
                3 => d.clear(),
                4 => d.extend([0; 32]),
                5 => tt.push(word(1)),
                _ => tt.clear(),
            }
            let want = e.parse(&tt, &d);
            check_log(cx, k, e, &tt, &d, &want)
        })
    }));
    let c = cs.clone();
    v.push(space("filters of every event", 0, move |cx| {
        let k = cx.pick(EVS);
        let e = decl(k, &c);
        let mut cons = vec![];
        for (i, t) in e.indexed().into_iter().enumerate() {
            if i == 3 {
                // filters take three constraints
                cons.push(Tp::Any);
                continue;
            }
            let d = domain(t);
            cons.push(match cx.choose(4 + d.len()) {
                0 => Tp::Any,
                1 => Tp::OneOf(vec![]),
                2 => Tp::OneOf(vec![d[1].clone()]),
                3 => Tp::OneOf(vec![d[1].clone(), d[0].clone()]),
                k => Tp::This(d[k - 4].clone()),
            });
        }
        named(cx, k, &e, &|cx, k, e| check_filter(cx, k, e, &cons, false))?;
        if cons.iter().all(|c| *c == Tp::Any) {
            named(cx, k, &e, &|cx, k, e| check_filter(cx, k, e, &cons, true))?;
        }
        Ok(())
    }));
    v
}

fn check_decl(cx: &mut Cx, c: &EvCase, e: &Ev) -> Res {
    let what = || format!("c{} {}", c.contract, e.show());
    cx.state(&[&[c.contract as u8], e.name.as_bytes()]);
    let got = cx.guard(|| (c.event)()).map_err(|m| format!("{}: {}", what(), m))?;
    let mut want = e.real();
    if e.anon {
        // shows nowhere in a log; the listed finding about names otherwise
        want.name = got.name.clone();
    }
    if got != want {
        return Err(format!("{}: event() is {:?}", what(), got));
    }
    cx.outcome("same declaration");
    Ok(())
}

fn registry(id: &str, t: Tier) -> Option<Vec<Space>> {
    if id == "C23" {
        Some(c23(t))
    } else {
        None
    }
}

fn assumptions(_: &str) -> Vec<String> {
    vec![
        "ABIs without tuples and overloads, whose names map to distinct Rust identifiers that are no keywords and not used by the generated code itself; filters constrain the first three indexed parameters".into(),
        "the bindings are compiled as edition 2018, like the repository's own crates".into(),
    ]
}

fn main() {
    mc::runner::main(registry, assumptions)
}
