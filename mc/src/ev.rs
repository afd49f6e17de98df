//! Events: what a contract emits, what a reader of a log sees, and topic filters.

use crate::gen::clip;
use crate::model::*;
use ethabi::{Event, EventParam, Hash, RawLog, Token, Topic, TopicFilter};

#[derive(Clone, Debug)]
pub struct Ev {
    pub name: String,
    pub ins: Vec<(String, Ty, bool)>,
    pub anon: bool,
}

impl Ev {
    pub fn real(&self) -> Event {
        Event {
            name: self.name.clone(),
            inputs: self
                .ins
                .iter()
                .map(|(n, t, i)| EventParam { name: n.clone(), kind: t.real(), indexed: *i })
                .collect(),
            anonymous: self.anon,
        }
    }
    pub fn tys(&self) -> Vec<Ty> {
        self.ins.iter().map(|x| x.1.clone()).collect()
    }
    pub fn indexed(&self) -> Vec<&Ty> {
        self.ins.iter().filter(|x| x.2).map(|x| &x.1).collect()
    }
    pub fn plain(&self) -> Vec<Ty> {
        self.ins.iter().filter(|x| !x.2).map(|x| x.1.clone()).collect()
    }
    pub fn topic0(&self) -> [u8; 32] {
        topic0(&self.name, &self.tys())
    }
    /// What a contract emits.
    pub fn emit(&self, vs: &[Val]) -> (Vec<[u8; 32]>, Vec<u8>) {
        let mut topics = vec![];
        if !self.anon {
            topics.push(self.topic0());
        }
        let (mut pt, mut pv) = (vec![], vec![]);
        for ((_, t, ix), v) in self.ins.iter().zip(vs) {
            if *ix {
                topics.push(topic(t, v));
            } else {
                pt.push(t.clone());
                pv.push(v.clone());
            }
        }
        (topics, encode(&pt, &pv))
    }
    /// What a reader of the log gets back: hashed arguments come back as their hash.
    pub fn seen(&self, vs: &[Val]) -> Vec<(String, Val)> {
        self.ins
            .iter()
            .zip(vs)
            .map(|((n, t, ix), v)| {
                let x = if *ix && is_hashed_topic(t) { Val::FBytes(topic(t, v).to_vec()) } else { v.clone() };
                (n.clone(), x)
            })
            .collect()
    }
    /// The model's verdict on any log.
    pub fn parse(&self, topics: &[[u8; 32]], data: &[u8]) -> Expect {
        let mut rest = topics;
        if !self.anon {
            match topics.first() {
                Some(t) if *t == self.topic0() => rest = &topics[1..],
                _ => return Expect::Reject,
            }
        }
        let ix = self.indexed();
        if rest.len() != ix.len() {
            return Expect::Reject;
        }
        let mut may = false;
        let mut tv = vec![];
        for (t, w) in ix.iter().zip(rest) {
            if is_hashed_topic(t) {
                tv.push(Val::FBytes(w.to_vec()));
            } else {
                match decode(&[(*t).clone()], w) {
                    Expect::Must(v) => tv.extend(v),
                    Expect::May(v) => {
                        may = true;
                        tv.extend(v)
                    }
                    Expect::Reject => return Expect::Reject,
                }
            }
        }
        let pv = match decode(&self.plain(), data) {
            Expect::Must(v) => v,
            Expect::May(v) => {
                may = true;
                v
            }
            Expect::Reject => return Expect::Reject,
        };
        let (mut ti, mut pi) = (tv.into_iter(), pv.into_iter());
        let out = self.ins.iter().map(|x| if x.2 { ti.next().unwrap() } else { pi.next().unwrap() }).collect();
        if may {
            Expect::May(out)
        } else {
            Expect::Must(out)
        }
    }
    pub fn show(&self) -> String {
        format!(
            "event {}({}){}",
            self.name,
            self.ins.iter().map(|(n, t, i)| format!("{}{} {}", t.name(), if *i { " indexed" } else { "" }, n)).collect::<Vec<_>>().join(", "),
            if self.anon { " anonymous" } else { "" }
        )
    }
}

pub fn raw(topics: &[[u8; 32]], data: &[u8]) -> RawLog {
    RawLog { topics: topics.iter().map(|t| Hash::from(*t)).collect(), data: data.to_vec() }
}

pub fn show_log(topics: &[[u8; 32]], data: &[u8]) -> String {
    format!("topics [{}] data {}", topics.iter().map(|t| hexs(t)).collect::<Vec<_>>().join(","), clip(&hexs(data), 600))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tp<T> {
    Any,
    This(T),
    OneOf(Vec<T>),
}

pub fn of_topic(t: &Topic<Hash>) -> Tp<[u8; 32]> {
    match t {
        Topic::Any => Tp::Any,
        Topic::This(h) => Tp::This(h.0),
        Topic::OneOf(v) => Tp::OneOf(v.iter().map(|h| h.0).collect()),
    }
}
pub fn real_topic(t: &Tp<Val>) -> Topic<Token> {
    match t {
        Tp::Any => Topic::Any,
        Tp::This(v) => Topic::This(v.real()),
        Tp::OneOf(v) => Topic::OneOf(v.iter().map(Val::real).collect()),
    }
}
pub fn topics_of(f: &TopicFilter) -> [Tp<[u8; 32]>; 4] {
    [of_topic(&f.topic0), of_topic(&f.topic1), of_topic(&f.topic2), of_topic(&f.topic3)]
}

/// The node's rule for whether a log passes a filter.
pub fn passes(f: &[Tp<[u8; 32]>; 4], topics: &[[u8; 32]]) -> bool {
    f.iter().enumerate().all(|(i, t)| match t {
        Tp::Any => true,
        Tp::This(h) => topics.get(i) == Some(h),
        Tp::OneOf(v) => topics.get(i).map_or(false, |x| v.contains(x)),
    })
}

/// Two or three different values per type.
pub fn domain(t: &Ty) -> Vec<Val> {
    fn one(t: &Ty, k: usize) -> Val {
        match t {
            Ty::Uint(n) => Val::Uint(if k == 2 { let mut w = [0; 32]; w[32 - n / 8..].iter_mut().for_each(|x| *x = 0xff); w } else { word(k) }),
            Ty::Int(_) => Val::Int(if k == 2 { [0xff; 32] } else { word(k) }),
            Ty::Bool => Val::Bool(k % 2 == 1),
            Ty::Addr => Val::Addr([k as u8; 20]),
            Ty::FBytes(n) => Val::FBytes(vec![k as u8 + 1; *n]),
            Ty::Bytes => Val::Bytes(vec![7; 31 * k]),
            Ty::Str => Val::Str("a".repeat(32 * k + k % 2)),
            Ty::Arr(t) => Val::Arr((0..k).map(|i| one(t, (i + 1) % 2)).collect()),
            Ty::FArr(t, n) => Val::FArr((0..*n).map(|i| one(t, (i + k) % 3)).collect()),
            Ty::Tup(ts) => Val::Tup(ts.iter().enumerate().map(|(i, t)| one(t, (i + k) % 3)).collect()),
        }
    }
    let mut v: Vec<Val> = (0..3).map(|k| one(t, k)).collect();
    v.dedup();
    if *t == Ty::Bool {
        v.truncate(2);
    }
    v
}

