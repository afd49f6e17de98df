//! Reference model of JSON ABI documents: an own JSON reader that keeps key order and duplicate
//! keys, and an own loader from JSON to the contract the document describes.

use crate::model::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// The literal text.
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::Str(x.into())
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.put(&mut o, "");
        o
    }
    pub fn spaced(&self) -> String {
        let mut o = " \n".to_string();
        self.put(&mut o, " \t\r\n");
        o.push('\n');
        o
    }
    fn put(&self, o: &mut String, sp: &str) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(x) => put_str(x, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    o.push_str(sp);
                    x.put(o, sp);
                }
                o.push_str(sp);
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    o.push_str(sp);
                    put_str(k, o);
                    o.push_str(sp);
                    o.push(':');
                    o.push_str(sp);
                    x.put(o, sp);
                }
                o.push_str(sp);
                o.push('}');
            }
        }
    }
}

fn put_str(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

/// Strict RFC 8259 reader; `None` when the text is not one JSON value.
pub fn parse(t: &[u8]) -> Option<J> {
    let mut p = P { t, i: 0, depth: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != t.len() {
        return None;
    }
    Some(v)
}

struct P<'a> {
    t: &'a [u8],
    i: usize,
    depth: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.t.len() && matches!(self.t[self.i], b' ' | b'\t' | b'\r' | b'\n') {
            self.i += 1
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.t.get(self.i).copied()
    }
    fn lit(&mut self, l: &[u8], v: J) -> Option<J> {
        if self.t[self.i..].starts_with(l) {
            self.i += l.len();
            Some(v)
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<J> {
        match self.peek()? {
            b'n' => self.lit(b"null", J::Null),
            b't' => self.lit(b"true", J::Bool(true)),
            b'f' => self.lit(b"false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                self.depth += 1;
                let mut v = vec![];
                if self.peek()? == b']' {
                    self.i += 1;
                    self.depth -= 1;
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    match self.peek()? {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            self.depth -= 1;
                            return Some(J::Arr(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.peek()? == b'}' {
                    self.i += 1;
                    return Some(J::Obj(v));
                }
                loop {
                    if self.peek()? != b'"' {
                        return None;
                    }
                    let k = self.string()?;
                    if self.peek()? != b':' {
                        return None;
                    }
                    self.i += 1;
                    let x = self.value()?;
                    v.push((k, x));
                    match self.peek()? {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Some(J::Obj(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        }
    }
    fn digits(&mut self) -> Option<()> {
        let a = self.i;
        while self.i < self.t.len() && self.t[self.i].is_ascii_digit() {
            self.i += 1
        }
        if self.i > a {
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<J> {
        let a = self.i;
        if self.t[self.i] == b'-' {
            self.i += 1
        }
        if self.t.get(self.i) == Some(&b'0') {
            self.i += 1
        } else {
            self.digits()?
        }
        if self.t.get(self.i) == Some(&b'.') {
            self.i += 1;
            self.digits()?
        }
        if matches!(self.t.get(self.i), Some(b'e') | Some(b'E')) {
            self.i += 1;
            if matches!(self.t.get(self.i), Some(b'+') | Some(b'-')) {
                self.i += 1
            }
            self.digits()?
        }
        Some(J::Num(String::from_utf8(self.t[a..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let b = self.t.get(self.i..self.i + 4)?;
        self.i += 4;
        if !b.iter().all(u8::is_ascii_hexdigit) {
            return None;
        }
        u32::from_str_radix(std::str::from_utf8(b).ok()?, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            let c = *self.t.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).ok(),
                0..=31 => return None,
                b'\\' => {
                    let e = *self.t.get(self.i)?;
                    self.i += 1;
                    let ch = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                if self.t.get(self.i..self.i + 2)? != b"\\u" {
                                    return None;
                                }
                                self.i += 2;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return None;
                                }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00))?
                            } else {
                                char::from_u32(a)?
                            }
                        }
                        _ => return None,
                    };
                    let mut b = [0; 4];
                    o.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                c => o.push(c),
            }
        }
    }
}

// ---- contracts --------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct MParam {
    pub name: String,
    pub ty: Ty,
    pub internal: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MFn {
    pub name: String,
    pub ins: Vec<MParam>,
    pub outs: Vec<MParam>,
    pub constant: bool,
    pub mutability: &'static str,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MEv {
    pub name: String,
    pub ins: Vec<(String, Ty, bool)>,
    pub anon: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Ctor(Vec<MParam>),
    Fn(MFn),
    Ev(MEv),
    Fallback,
    Receive,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MContract {
    pub ctor: Option<Vec<MParam>>,
    pub fns: BTreeMap<String, Vec<MFn>>,
    pub evs: BTreeMap<String, Vec<MEv>>,
    pub receive: bool,
    pub fallback: bool,
}

pub const MUT: [&str; 4] = ["pure", "view", "nonpayable", "payable"];

pub fn mutability(m: ethabi::StateMutability) -> &'static str {
    match m {
        ethabi::StateMutability::Pure => MUT[0],
        ethabi::StateMutability::View => MUT[1],
        ethabi::StateMutability::NonPayable => MUT[2],
        ethabi::StateMutability::Payable => MUT[3],
    }
}
pub fn real_mutability(m: &str) -> ethabi::StateMutability {
    match m {
        "pure" => ethabi::StateMutability::Pure,
        "view" => ethabi::StateMutability::View,
        "payable" => ethabi::StateMutability::Payable,
        _ => ethabi::StateMutability::NonPayable,
    }
}

impl MParam {
    pub fn of(p: &ethabi::Param) -> MParam {
        MParam { name: p.name.clone(), ty: Ty::from_real(&p.kind), internal: p.internal_type.clone() }
    }
    pub fn real(&self) -> ethabi::Param {
        ethabi::Param { name: self.name.clone(), kind: self.ty.real(), internal_type: self.internal.clone() }
    }
}
#[allow(deprecated)]
impl MFn {
    pub fn of(f: &ethabi::Function) -> MFn {
        MFn {
            name: f.name.clone(),
            ins: f.inputs.iter().map(MParam::of).collect(),
            outs: f.outputs.iter().map(MParam::of).collect(),
            constant: f.constant,
            mutability: mutability(f.state_mutability),
        }
    }
    pub fn real(&self) -> ethabi::Function {
        ethabi::Function {
            name: self.name.clone(),
            inputs: self.ins.iter().map(MParam::real).collect(),
            outputs: self.outs.iter().map(MParam::real).collect(),
            constant: self.constant,
            state_mutability: real_mutability(self.mutability),
        }
    }
}
impl MEv {
    pub fn of(e: &ethabi::Event) -> MEv {
        MEv {
            name: e.name.clone(),
            ins: e.inputs.iter().map(|p| (p.name.clone(), Ty::from_real(&p.kind), p.indexed)).collect(),
            anon: e.anonymous,
        }
    }
    pub fn real(&self) -> ethabi::Event {
        ethabi::Event {
            name: self.name.clone(),
            inputs: self
                .ins
                .iter()
                .map(|(n, t, i)| ethabi::EventParam { name: n.clone(), kind: t.real(), indexed: *i })
                .collect(),
            anonymous: self.anon,
        }
    }
}
impl MContract {
    pub fn of(c: &ethabi::Contract) -> MContract {
        MContract {
            ctor: c.constructor.as_ref().map(|c| c.inputs.iter().map(MParam::of).collect()),
            fns: c.functions.iter().map(|(k, v)| (k.clone(), v.iter().map(MFn::of).collect())).collect(),
            evs: c.events.iter().map(|(k, v)| (k.clone(), v.iter().map(MEv::of).collect())).collect(),
            receive: c.receive,
            fallback: c.fallback,
        }
    }
    pub fn real(&self) -> ethabi::Contract {
        ethabi::Contract {
            constructor: self.ctor.as_ref().map(|c| ethabi::Constructor { inputs: c.iter().map(MParam::real).collect() }),
            functions: self.fns.iter().map(|(k, v)| (k.clone(), v.iter().map(MFn::real).collect())).collect(),
            events: self.evs.iter().map(|(k, v)| (k.clone(), v.iter().map(MEv::real).collect())).collect(),
            receive: self.receive,
            fallback: self.fallback,
        }
    }
    pub fn add(&mut self, op: &Op) {
        match op {
            Op::Ctor(p) => self.ctor = Some(p.clone()),
            Op::Fn(f) => self.fns.entry(f.name.clone()).or_default().push(f.clone()),
            Op::Ev(e) => self.evs.entry(e.name.clone()).or_default().push(e.clone()),
            Op::Fallback => self.fallback = true,
            Op::Receive => self.receive = true,
        }
    }
    pub fn from_ops(ops: &[Op]) -> MContract {
        let mut c = MContract::default();
        ops.iter().for_each(|o| c.add(o));
        c
    }
}

// ---- rendering --------------------------------------------------------------------------------

/// The JSON keys of a type: `type`, plus `components` when there is a tuple inside.
pub fn type_keys(t: &Ty, comp_names: bool) -> Vec<(String, J)> {
    let mut v = vec![("type".to_string(), s(&t.json_name()))];
    if let Some(ts) = t.inner_tuple() {
        let c = ts
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let mut k = type_keys(t, comp_names);
                if comp_names {
                    k.insert(0, ("name".into(), J::Str(format!("c{}", i))));
                }
                J::Obj(k)
            })
            .collect();
        v.push(("components".into(), J::Arr(c)));
    }
    v
}
pub fn param_json(p: &MParam) -> J {
    let mut v = vec![("name".to_string(), s(&p.name))];
    v.extend(type_keys(&p.ty, true));
    if let Some(i) = &p.internal {
        v.push(("internalType".into(), s(i)));
    }
    J::Obj(v)
}
pub fn ev_param_json(p: &(String, Ty, bool)) -> J {
    let mut v = vec![("indexed".to_string(), J::Bool(p.2)), ("name".to_string(), s(&p.0))];
    v.extend(type_keys(&p.1, true));
    J::Obj(v)
}
pub fn op_json(op: &Op) -> J {
    match op {
        Op::Ctor(p) => obj(vec![("type", s("constructor")), ("inputs", J::Arr(p.iter().map(param_json).collect()))]),
        Op::Fn(f) => obj(vec![
            ("type", s("function")),
            ("name", s(&f.name)),
            ("inputs", J::Arr(f.ins.iter().map(param_json).collect())),
            ("outputs", J::Arr(f.outs.iter().map(param_json).collect())),
            ("constant", J::Bool(f.constant)),
            ("stateMutability", s(f.mutability)),
        ]),
        Op::Ev(e) => obj(vec![
            ("type", s("event")),
            ("name", s(&e.name)),
            ("inputs", J::Arr(e.ins.iter().map(ev_param_json).collect())),
            ("anonymous", J::Bool(e.anon)),
        ]),
        Op::Fallback => obj(vec![("type", s("fallback"))]),
        Op::Receive => obj(vec![("type", s("receive"))]),
    }
}

// ---- loading ----------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Loaded<T> {
    Must(T),
    /// Neither demanded nor forbidden.
    May,
    Reject,
}
use Loaded::*;

/// Rejects weigh more than leniencies.
struct Acc {
    may: bool,
}

type L<T> = Result<T, ()>;

/// `Err` when a known key occurs twice.
fn field<'a>(o: &'a [(String, J)], k: &str) -> L<Option<&'a J>> {
    let mut it = o.iter().filter(|x| x.0 == k);
    let r = it.next().map(|x| &x.1);
    if it.next().is_some() {
        return Err(());
    }
    Ok(r)
}
fn string(j: Option<&J>) -> L<&str> {
    match j {
        Some(J::Str(x)) => Ok(x),
        _ => Err(()),
    }
}

impl Acc {
    fn ty(&mut self, o: &[(String, J)]) -> L<Ty> {
        let name = string(field(o, "type")?)?;
        let comps = match field(o, "components")? {
            None => None,
            Some(J::Arr(v)) => {
                let mut c = vec![];
                for x in v {
                    match x {
                        J::Obj(o) => {
                            match field(o, "name")? {
                                None | Some(J::Str(_)) => {}
                                _ => return Err(()),
                            }
                            self.internal(o)?;
                            c.push(self.ty(o)?)
                        }
                        _ => return Err(()),
                    }
                }
                Some(c)
            }
            Some(_) => return Err(()),
        };
        match parse_name(name) {
            Named::Reject => Err(()),
            Named::May(_) => {
                self.may = true;
                Ok(Ty::Bool)
            }
            Named::Must(t) => {
                if t.inner_tuple().is_none() {
                    return Ok(t);
                }
                if name.contains('(') {
                    // written-out tuples belong in signatures, not in JSON
                    self.may = true;
                }
                let c = comps.ok_or(())?;
                if c.is_empty() {
                    self.may = true;
                }
                fn fill(t: &Ty, c: &[Ty]) -> Ty {
                    match t {
                        Ty::Arr(t) => arr(fill(t, c)),
                        Ty::FArr(t, n) => farr(fill(t, c), *n),
                        _ => Ty::Tup(c.to_vec()),
                    }
                }
                Ok(fill(&t, &c))
            }
        }
    }
    fn internal(&mut self, o: &[(String, J)]) -> L<Option<String>> {
        Ok(match field(o, "internalType")? {
            None => None,
            Some(J::Str(x)) => Some(x.clone()),
            _ => return Err(()),
        })
    }
    fn params(&mut self, j: Option<&J>) -> L<Vec<MParam>> {
        match j {
            Some(J::Arr(v)) => v
                .iter()
                .map(|x| match x {
                    J::Obj(o) => Ok(MParam {
                        name: string(field(o, "name")?)?.to_string(),
                        ty: self.ty(o)?,
                        internal: self.internal(o)?,
                    }),
                    _ => Err(()),
                })
                .collect(),
            _ => Err(()),
        }
    }
    fn ev_params(&mut self, j: Option<&J>) -> L<Vec<(String, Ty, bool)>> {
        match j {
            Some(J::Arr(v)) => v
                .iter()
                .map(|x| match x {
                    J::Obj(o) => Ok((
                        string(field(o, "name")?)?.to_string(),
                        self.ty(o)?,
                        match field(o, "indexed")? {
                            None => false,
                            Some(J::Bool(b)) => *b,
                            _ => return Err(()),
                        },
                    )),
                    _ => Err(()),
                })
                .collect(),
            _ => Err(()),
        }
    }
    fn op(&mut self, j: &J) -> L<Op> {
        let o = match j {
            J::Obj(o) => o,
            J::Arr(_) => {
                // a sequence standing for the object: not part of the format
                self.may = true;
                return Ok(Op::Fallback);
            }
            _ => return Err(()),
        };
        let name = |o| -> L<String> {
            let n = string(field(o, "name")?)?;
            Ok(n.split('(').next().unwrap().to_string())
        };
        Ok(match string(field(o, "type")?)? {
            "constructor" => Op::Ctor(self.params(field(o, "inputs")?)?),
            "function" => Op::Fn(MFn {
                name: name(o)?,
                ins: self.params(field(o, "inputs")?)?,
                outs: self.params(field(o, "outputs")?)?,
                constant: match field(o, "constant")? {
                    None => false,
                    Some(J::Bool(b)) => *b,
                    _ => return Err(()),
                },
                mutability: match field(o, "stateMutability")? {
                    None => MUT[2],
                    Some(J::Str(x)) => MUT.iter().find(|m| *m == x).ok_or(())?,
                    Some(J::Obj(_)) => {
                        self.may = true;
                        MUT[2]
                    }
                    _ => return Err(()),
                },
            }),
            "event" => Op::Ev(MEv {
                name: name(o)?,
                ins: self.ev_params(field(o, "inputs")?)?,
                anon: match field(o, "anonymous")? {
                    Some(J::Bool(b)) => *b,
                    _ => return Err(()),
                },
            }),
            "fallback" => Op::Fallback,
            "receive" => Op::Receive,
            _ => return Err(()),
        })
    }
}

/// What loading the document must give.
pub fn load(j: &J) -> Loaded<MContract> {
    let v = match j {
        J::Arr(v) => v,
        _ => return Reject,
    };
    let mut a = Acc { may: false };
    let mut c = MContract::default();
    for x in v {
        match a.op(x) {
            Err(()) => return Reject,
            Ok(op) => {
                if matches!(op, Op::Ctor(_)) && c.ctor.is_some() {
                    a.may = true
                }
                c.add(&op)
            }
        }
    }
    if a.may {
        May
    } else {
        Must(c)
    }
}

/// What loading the text must give.
pub fn load_text(t: &[u8]) -> Loaded<MContract> {
    match parse(t) {
        None => Reject,
        Some(j) => {
            if odd_numbers(&j) {
                return May;
            }
            load(&j)
        }
    }
}
fn odd_numbers(j: &J) -> bool {
    match j {
        J::Num(n) => n.len() > 15 || n.contains(|c| c == 'e' || c == 'E'),
        J::Arr(v) => v.iter().any(odd_numbers),
        J::Obj(v) => v.iter().any(|x| odd_numbers(&x.1)),
        _ => false,
    }
}
