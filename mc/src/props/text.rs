//! C17 textual values mean what they say; C18 integers; C19 tokenizing arbitrary text is total and
//! sound; C25 display.
//!
//! `parse` below is the reference reading of a textual value.  It is three-valued: a few spellings
//! (an empty decimal number, a lone sign) are neither demanded nor forbidden.

use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
use mc::alloc;
use mc::engine::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;

#[derive(Clone, Debug, PartialEq)]
pub enum Text {
    Must(Val),
    May,
    Reject,
}

/// Decimal digits to a 256-bit number; `None` on overflow.
pub fn dec(s: &str) -> Option<[u8; 32]> {
    let mut w = [0u8; 32];
    for c in s.bytes() {
        let mut carry = (c - b'0') as u32;
        for x in w.iter_mut().rev() {
            let v = *x as u32 * 10 + carry;
            *x = v as u8;
            carry = v >> 8;
        }
        if carry != 0 {
            return None;
        }
    }
    Some(w)
}
pub fn to_dec(w: &[u8; 32]) -> String {
    let mut n = w.to_vec();
    let mut out = vec![];
    while n.iter().any(|x| *x != 0) {
        let mut rem = 0u32;
        for x in n.iter_mut() {
            let v = rem * 256 + *x as u32;
            *x = (v / 10) as u8;
            rem = v % 10;
        }
        out.push(b'0' + rem as u8);
    }
    if out.is_empty() {
        out.push(b'0')
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}
pub fn negate(w: &[u8; 32]) -> [u8; 32] {
    let mut r = [0; 32];
    let mut carry = 1u16;
    for i in (0..32).rev() {
        let v = (!w[i]) as u16 + carry;
        r[i] = v as u8;
        carry = v >> 8;
    }
    r
}

fn number(s: &str, signed: bool, lenient: bool) -> Result<Option<[u8; 32]>, ()> {
    // Err = don't care, Ok(None) = reject
    if let Some(b) = unhex(s) {
        if b.len() == 32 {
            let mut w = [0; 32];
            w.copy_from_slice(&b);
            return Ok(Some(w));
        }
    }
    if !lenient {
        return Ok(None);
    }
    let (minus, d) = match s.strip_prefix('-') {
        Some(r) if signed => (true, r),
        _ => (false, s),
    };
    if d.is_empty() {
        return Err(());
    }
    if !d.bytes().all(|c| c.is_ascii_digit()) {
        return Ok(None);
    }
    let w = match dec(d) {
        None => return Ok(None),
        Some(w) => w,
    };
    if !signed {
        return Ok(Some(w));
    }
    let mut min = [0; 32];
    min[0] = 0x80;
    Ok(if minus {
        if w > min {
            None
        } else {
            Some(negate(&w))
        }
    } else if w >= min {
        None
    } else {
        Some(w)
    })
}

fn holds(t: &Ty, array: bool) -> bool {
    match t {
        Ty::Arr(t) | Ty::FArr(t, _) => array || holds(t, array),
        Ty::Tup(v) => !array || v.iter().any(|t| holds(t, array)),
        _ => false,
    }
}

struct Scan<'a> {
    b: &'a [u8],
    i: usize,
    sq: bool,
    pa: bool,
}
impl<'a> Scan<'a> {
    /// Consume up to (not including) the next delimiter of the current level.
    fn item(&mut self, stop_comma: bool) -> Option<()> {
        while self.i < self.b.len() {
            match self.b[self.i] {
                b'"' => {
                    self.i += 1;
                    while self.i < self.b.len() && self.b[self.i] != b'"' {
                        self.i += 1
                    }
                    if self.i == self.b.len() {
                        return None;
                    }
                }
                b',' if stop_comma => return Some(()),
                b'[' if self.sq => self.group(b']')?,
                b'(' if self.pa => self.group(b')')?,
                b']' if self.sq => return Some(()),
                b')' if self.pa => return Some(()),
                _ => {}
            }
            self.i += 1;
        }
        Some(())
    }
    fn group(&mut self, close: u8) -> Option<()> {
        self.i += 1;
        self.item(false)?;
        if self.i < self.b.len() && self.b[self.i] == close {
            Some(())
        } else {
            None
        }
    }
}

/// The items of a list: the text between its own commas, verbatim.  A quoted stretch never
/// delimits anything; brackets (parentheses) delimit only where an array (tuple) can occur.
fn items<'a>(s: &'a str, open: char, close: char, ts: &[&Ty]) -> Option<Vec<&'a str>> {
    let inner = s.strip_prefix(open)?.strip_suffix(close)?;
    if inner.is_empty() && open == '[' {
        return Some(vec![]);
    }
    let sq = open == '[' || ts.iter().any(|t| holds(t, true));
    let pa = open == '(' || ts.iter().any(|t| holds(t, false));
    let mut sc = Scan { b: inner.as_bytes(), i: 0, sq, pa };
    let mut out = vec![];
    loop {
        let a = sc.i;
        sc.item(true)?;
        if sc.i < inner.len() && sc.b[sc.i] != b',' {
            return None; // a closing delimiter nothing opened
        }
        out.push(&inner[a..sc.i]);
        if sc.i == inner.len() {
            return Some(out);
        }
        sc.i += 1;
    }
}

fn all(v: Vec<Text>, f: impl FnOnce(Vec<Val>) -> Val) -> Text {
    if v.iter().any(|x| *x == Text::Reject) {
        return Text::Reject;
    }
    let mut out = vec![];
    for x in v {
        match x {
            Text::Must(v) => out.push(v),
            _ => return Text::May,
        }
    }
    Text::Must(f(out))
}

pub fn parse(t: &Ty, s: &str, lenient: bool) -> Text {
    let opt = |o: Option<Val>| o.map(Text::Must).unwrap_or(Text::Reject);
    match t {
        Ty::Addr => opt(unhex(s).filter(|b| b.len() == 20).map(|b| {
            let mut a = [0; 20];
            a.copy_from_slice(&b);
            Val::Addr(a)
        })),
        Ty::Bytes => opt(unhex(s).map(Val::Bytes)),
        Ty::FBytes(n) => opt(unhex(s).filter(|b| b.len() == *n).map(Val::FBytes)),
        Ty::Str => Text::Must(Val::Str(s.to_string())),
        Ty::Bool => opt(match s {
            "true" | "1" => Some(Val::Bool(true)),
            "false" | "0" => Some(Val::Bool(false)),
            _ => None,
        }),
        Ty::Uint(_) => match number(s, false, lenient) {
            Err(()) => Text::May,
            Ok(w) => opt(w.map(Val::Uint)),
        },
        Ty::Int(_) => match number(s, true, lenient) {
            Err(()) => Text::May,
            Ok(w) => opt(w.map(Val::Int)),
        },
        Ty::Arr(t) => match items(s, '[', ']', &[t]) {
            None => Text::Reject,
            Some(v) => all(v.iter().map(|x| parse(t, x, lenient)).collect(), Val::Arr),
        },
        Ty::FArr(t, n) => match items(s, '[', ']', &[t]) {
            Some(v) if v.len() == *n => all(v.iter().map(|x| parse(t, x, lenient)).collect(), Val::FArr),
            _ => Text::Reject,
        },
        Ty::Tup(ts) => match items(s, '(', ')', &ts.iter().collect::<Vec<_>>()) {
            Some(v) if v.len() == ts.len() => {
                all(v.iter().zip(ts).map(|(x, t)| parse(t, x, lenient)).collect(), Val::Tup)
            }
            _ => Text::Reject,
        },
    }
}

pub fn tokenize(t: &ethabi::ParamType, s: &str, lenient: bool) -> Result<ethabi::Token, String> {
    if lenient {
        LenientTokenizer::tokenize(t, s).map_err(|e| e.to_string())
    } else {
        StrictTokenizer::tokenize(t, s).map_err(|e| e.to_string())
    }
}

/// Real verdict against the model's; also bounded memory.
fn check(cx: &mut Cx, t: &Ty, s: &str, lenient: bool, want: &Text) -> Res {
    let pt = t.real();
    let what = || format!("{} tokenizer, {} from {:?}", if lenient { "lenient" } else { "strict" }, t.name(), clip(s, 400));
    cx.state(&[t.name().as_bytes(), s.as_bytes(), &[lenient as u8]]);
    cx.sample(|| format!("{} => {}", what(), clip(&format!("{:?}", want), 150)));
    let (r, used) = alloc::measure(|| cx.guard(|| tokenize(&pt, s, lenient)));
    let r = r.map_err(|m| format!("{}: {}", what(), m))?;
    let cap = (64 << 10) + 512 * (s.len() + 1) * t.nodes();
    if used.peak > cap {
        return Err(format!("{}: {} bytes allocated, allowance {}", what(), used.peak, cap));
    }
    if let Ok(tok) = &r {
        let v = Val::from_real(tok);
        let full = |v: &Val| v.of(t) && v.normal(t) == *v;
        if !full(&v) {
            return Err(format!("{}: produced {:?}, not a value of the type", what(), v));
        }
    }
    match (want, r) {
        (Text::Must(v), Ok(g)) if Val::from_real(&g) == *v => cx.outcome("accepted"),
        (Text::Reject, Err(_)) => cx.outcome("rejected"),
        (Text::May, _) => cx.outcome("unspecified"),
        (Text::Must(v), Ok(g)) => return Err(format!("{}: read as {:?}, means {:?}", what(), Val::from_real(&g), v)),
        (Text::Must(v), Err(e)) => return Err(format!("{}: rejected ({}), means {:?}", what(), e, v)),
        (Text::Reject, Ok(g)) => return Err(format!("{}: accepted as {:?}", what(), Val::from_real(&g))),
    }
    Ok(())
}

// ---- writing values ---------------------------------------------------------------------------

const STRINGS: [&str; 17] = [
    "abc", "", " ", "a b", "\u{e9}\u{20ac}", "\"a\"", "\"a,b\"", "\"[x\"", "\")\"", "\"x\"y\",(\"", "true", "-1", "'q'", "a\\b", "{};:",
    "\n", "\"\"",
];
/// Strings that stand for themselves only where no list can swallow their delimiters.
const BARE: [&str; 6] = ["a,b", "[", ")", "[a,b]", "\"", "(1,2)"];

struct Write<'c> {
    cx: &'c mut Cx,
    lenient: bool,
    g: Vg,
}

impl<'c> Write<'c> {
    fn hex(&mut self, b: &[u8]) -> String {
        let s = hexs(b);
        match self.cx.deviate(3) {
            0 => s,
            1 => s.to_uppercase(),
            _ => s.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        }
    }
    /// A value of the type together with one of its spellings.
    fn val(&mut self, t: &Ty, top: bool) -> (Val, String) {
        match t {
            Ty::Str => {
                let n = STRINGS.len();
                let k = self.cx.deviate(n + if top { BARE.len() } else { 0 });
                let s = if k < n { STRINGS[k] } else { BARE[k - n] };
                (Val::Str(s.into()), s.into())
            }
            Ty::Bool => {
                self.g.ctr += 1;
                let b = self.g.ctr % 2 == 0;
                let k = self.cx.deviate(3);
                match (k, b) {
                    (0, true) => (Val::Bool(true), "true".into()),
                    (0, false) => (Val::Bool(false), "false".into()),
                    (1, _) => (Val::Bool(true), "1".into()),
                    (_, _) => (Val::Bool(false), "0".into()),
                }
            }
            Ty::Uint(_) | Ty::Int(_) => {
                let signed = matches!(t, Ty::Int(_));
                let v = self.g.val(self.cx, t);
                let w = match &v {
                    Val::Uint(w) | Val::Int(w) => *w,
                    _ => unreachable!(),
                };
                let dec = self.lenient && self.cx.choose2(1, 1) == 0;
                if !dec {
                    let s = self.hex(&w);
                    return (v, s);
                }
                let s = if signed && w[0] & 0x80 != 0 { format!("-{}", to_dec(&negate(&w))) } else { to_dec(&w) };
                if s.len() == 64 {
                    // reads as hexadecimal
                    return (v, hexs(&w));
                }
                (v, s)
            }
            Ty::Addr | Ty::Bytes | Ty::FBytes(_) => {
                let v = self.g.val(self.cx, t);
                let b = match &v {
                    Val::Addr(a) => a.to_vec(),
                    Val::Bytes(b) | Val::FBytes(b) => b.clone(),
                    _ => unreachable!(),
                };
                let s = self.hex(&b);
                (v, s)
            }
            Ty::Arr(t) => {
                let n = *self.cx.pick_dev(&[2, 0, 1, 3]);
                // "[]" is the empty list, so a single empty string cannot be written
                let v: Vec<_> = (0..n).map(|_| self.val(t, false)).collect();
                (Val::Arr(v.iter().map(|x| x.0.clone()).collect()), format!("[{}]", join(&v)))
            }
            Ty::FArr(t, n) => {
                let v: Vec<_> = (0..*n).map(|_| self.val(t, false)).collect();
                (Val::FArr(v.iter().map(|x| x.0.clone()).collect()), format!("[{}]", join(&v)))
            }
            Ty::Tup(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.val(t, false)).collect();
                (Val::Tup(v.iter().map(|x| x.0.clone()).collect()), format!("({})", join(&v)))
            }
        }
    }
}
fn join(v: &[(Val, String)]) -> String {
    v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(",")
}
/// A list of one empty item prints as the empty list; such values have no spelling.
fn writable(v: &Val, top: bool) -> bool {
    let _ = top;
    match v {
        Val::Arr(x) | Val::FArr(x) => {
            !(x.len() == 1 && (x[0] == Val::Str("".into()) || x[0] == Val::Bytes(vec![]))) && x.iter().all(|x| writable(x, false))
        }
        Val::Tup(x) => x.iter().all(|x| writable(x, false)),
        _ => true,
    }
}

/// A value of the type with one of its spellings, for other checks.
pub fn spelled(cx: &mut Cx, ts: &Ty, lenient: bool, g: Vg) -> Option<(Val, String)> {
    let mut w = Write { cx, lenient, g };
    let (v, s) = w.val(ts, true);
    if writable(&v, true) {
        Some((v, s))
    } else {
        None
    }
}

fn written(cx: &mut Cx, ts: Ty) -> Res {
    written_with(cx, ts, false)
}
fn written_with(cx: &mut Cx, ts: Ty, rich: bool) -> Res {
    let lenient = cx.flag();
    let mut w = Write { cx, lenient, g: if rich { Vg::rich() } else { Vg::new() } };
    if !rich {
        w.g.blens = &[3, 0, 1, 33];
    }
    let (v, s) = w.val(&ts, true);
    if !writable(&v, true) {
        return cx.prune();
    }
    // an independent cross-check of the reference reading itself
    match parse(&ts, &s, lenient) {
        Text::Must(x) if x == v => {}
        o => panic!("model disagrees with itself on {} {:?}: {:?}", ts.name(), s, o),
    }
    check(cx, &ts, &s, lenient, &Text::Must(v))
}

pub fn c17(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // unusual contents, alone and as items
    v.push(space("odd-contents", t.pick(1, 2), move |cx| {
        let ty = cx.pick(&elementary()).clone();
        let ty = match cx.choose(4) {
            0 => ty,
            1 => arr(ty),
            2 => farr(ty, 2),
            _ => tup(&[ty.clone(), Ty::Bool, ty]),
        };
        written_with(cx, ty, true)
    }));
    v.push(space("odd-strings", 0, move |cx| {
        let s = *cx.pick(mc::gen::STRINGS);
        let (ty, text) = match cx.choose(9) {
            0 => (Ty::Str, s.to_string()),
            1 => (arr(Ty::Str), format!("[{}]", s)),
            2 => (arr(Ty::Str), format!("[a,{}]", s)),
            3 => (arr(Ty::Str), format!("[{},a]", s)),
            4 => (farr(Ty::Str, 3), format!("[a,{},b]", s)),
            5 => (tup(&[Ty::Str]), format!("({})", s)),
            6 => (tup(&[Ty::Bool, Ty::Str, Ty::Uint(8)]), format!("(true,{},{})", s, "0".repeat(64))),
            7 => (arr(tup(&[Ty::Str, Ty::Str])), format!("[({},b),(c,{})]", s, s)),
            _ => (tup(&[arr(Ty::Str), Ty::Str]), format!("([{},x],{})", s, s)),
        };
        let lenient = cx.flag();
        let want = parse(&ty, &text, lenient);
        check(cx, &ty, &text, lenient, &want)
    }));
    let (n, d) = t.pick((4, 2), (5, 2));
    v.push(space("written-shapes", d, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Str, Ty::Bool], &[2, 1]);
        written(cx, ty)
    }));
    let (n, d) = t.pick((3, 2), (4, 2));
    v.push(space("written-kinds", d, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &leaf_kinds(), &[2, 1]);
        written(cx, ty)
    }));
    v.push(space("written-elementary", 2, move |cx| {
        let t = cx.pick(&elementary()).clone();
        let t = match cx.choose(4) {
            0 => t,
            1 => arr(t),
            2 => farr(t, 2),
            _ => tup(&[Ty::Bool, t]),
        };
        written(cx, t)
    }));
    let depth = t.pick(6, 9);
    v.push(space("written-deep", 1, move |cx| {
        let mut ty = cx.pick(&[Ty::Int(256), Ty::Str, tup(&[Ty::Str, Ty::Bool])]).clone();
        let n = cx.choose(depth + 1);
        for _ in 0..n {
            ty = match cx.choose(3) {
                0 => arr(ty),
                1 => farr(ty, 1),
                _ => tup(&[ty, Ty::Bool]),
            }
        }
        written(cx, ty)
    }));
    // long lists, tuples and literals
    let mut ls: Vec<usize> = (0..=t.pick(140, 400)).collect();
    ls.extend([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096]);
    let l2 = ls.clone();
    v.push(space("list-lengths", 0, move |cx| {
        let n = *cx.pick(&ls);
        let lenient = cx.flag();
        let kinds = [
            (Ty::Bool, vec![("1", Val::Bool(true)), ("false", Val::Bool(false))]),
            (Ty::Str, vec![("x", Val::Str("x".into())), ("\"a,b\"", Val::Str("\"a,b\"".into())), ("", Val::Str("".into()))]),
            (Ty::FBytes(1), vec![("0a", Val::FBytes(vec![10])), ("FF", Val::FBytes(vec![255]))]),
            (arr(Ty::Bool), vec![("[1,0]", Val::Arr(vec![Val::Bool(true), Val::Bool(false)])), ("[]", Val::Arr(vec![]))]),
            (tup(&[Ty::Str, Ty::Bool]), vec![("(a,1)", Val::Tup(vec![Val::Str("a".into()), Val::Bool(true)])), ("(,0)", Val::Tup(vec![Val::Str("".into()), Val::Bool(false)]))]),
        ];
        let (ty, items) = cx.pick(&kinds).clone();
        let it = |i: usize| items[(i * 5 + n) % items.len()].clone();
        let text = (0..n).map(|i| it(i).0).collect::<Vec<_>>().join(",");
        let vs: Vec<Val> = (0..n).map(|i| it(i).1).collect();
        let (ty, s, x) = match cx.choose(4) {
            0 => (arr(ty), format!("[{}]", text), Val::Arr(vs)),
            1 if n > 0 => (farr(ty, n), format!("[{}]", text), Val::FArr(vs)),
            2 if n > 0 => (tup(&vec![ty; n]), format!("({})", text), Val::Tup(vs)),
            3 => (tup(&[arr(ty), Ty::Bool]), format!("([{}],1)", text), Val::Tup(vec![Val::Arr(vs), Val::Bool(true)])),
            _ => return cx.prune(),
        };
        if !writable(&x, true) {
            return cx.prune();
        }
        check(cx, &ty, &s, lenient, &Text::Must(x))
    }));
    v.push(space("literal-lengths", 0, move |cx| {
        let n = *cx.pick(&l2);
        let lenient = cx.flag();
        let mut g = Vg::new();
        let (ty, x, s) = match cx.choose(4) {
            0 => {
                let b = g.pat(n);
                (Ty::Bytes, Val::Bytes(b.clone()), hexs(&b))
            }
            1 => {
                let b = g.pat(n);
                (Ty::Bytes, Val::Bytes(b.clone()), hexs(&b).to_uppercase())
            }
            2 => {
                let b = g.text(n);
                (Ty::Str, Val::Str(b.clone()), b)
            }
            _ => {
                let b = format!("\"{}\"", g.text(n).replace('b', ",").replace('c', "]").replace('d', "("));
                (Ty::Str, Val::Str(b.clone()), b)
            }
        };
        let (ty, x, s) = match cx.choose(3) {
            0 => (ty, x, s),
            1 => (arr(ty), Val::Arr(vec![x.clone(), x]), format!("[{},{}]", s, s)),
            _ => (tup(&[Ty::Bool, ty, Ty::Str]), Val::Tup(vec![Val::Bool(true), x, Val::Str("z".into())]), format!("(true,{},z)", s)),
        };
        check(cx, &ty, &s, lenient, &Text::Must(x))
    }));
    let m = 201;
    v.push(space("deep-chains", 0, move |cx| {
        let n = cx.choose(m);
        let how = cx.choose(5);
        let lenient = cx.flag();
        let (mut t, mut x, mut s) = if cx.flag() { (Ty::Bool, Val::Bool(true), "1".to_string()) } else { (Ty::Str, Val::Str("\"[,)\"".into()), "\"[,)\"".to_string()) };
        for i in 0..n {
            let (a, b, c) = match (how, i % 3) {
                (0, _) | (3, 0) => (arr(t), Val::Arr(vec![x]), format!("[{}]", s)),
                (1, _) | (3, 1) => (farr(t, 1), Val::FArr(vec![x]), format!("[{}]", s)),
                (4, 0) => (arr(t), Val::Arr(vec![x.clone(), x]), format!("[{},{}]", s, s)),
                (2, _) => (tup(&[t]), Val::Tup(vec![x]), format!("({})", s)),
                _ => (tup(&[Ty::Bool, t, Ty::Str]), Val::Tup(vec![Val::Bool(false), x, Val::Str("q".into())]), format!("(0,{},q)", s)),
            };
            if how == 4 && i > 20 {
                return cx.prune();
            }
            t = a;
            x = b;
            s = c;
        }
        check(cx, &t, &s, lenient, &Text::Must(x))
    }));
    // one edit away from a spelling: still exactly what the reference reading says
    let n = t.pick(4, 5);
    v.push(space("edited-spellings", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(8), Ty::Str, Ty::Bool, Ty::FBytes(1)], &[2]);
        let lenient = cx.flag();
        let s = {
            let mut w = Write { cx, lenient, g: Vg::new() };
            w.val(&ty, true).1
        };
        let s = edit(cx, &s);
        let want = parse(&ty, &s, lenient);
        check(cx, &ty, &s, lenient, &want)
    }));
    v
}

const EDITS: [&str; 11] = ["[", "]", "(", ")", ",", "\"", " ", "0", "-", "g", "\u{e9}"];

fn edit(cx: &mut Cx, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    // long literals: only their ends matter
    let pos: Vec<usize> = (0..=cs.len())
        .filter(|&i| {
            let near = |j: usize| cs.get(j).map(|c| !c.is_ascii_alphanumeric()).unwrap_or(true);
            near(i) || i == 0 || near(i - 1) || near(i + 1) || (i > 1 && near(i - 2))
        })
        .collect();
    let i = *cx.pick(&pos);
    let mut out: Vec<char> = cs.clone();
    match cx.choose(4) {
        0 => {
            let c = cx.pick(&EDITS).chars().next().unwrap();
            out.insert(i, c);
        }
        1 => {
            let c = cx.pick(&EDITS).chars().next().unwrap();
            if i < out.len() {
                out[i] = c
            } else {
                out.push(c)
            }
        }
        2 => {
            if i < out.len() {
                out.remove(i);
            }
        }
        _ => {
            if i + 1 < out.len() {
                out.swap(i, i + 1)
            } else {
                out.extend(cs.iter())
            }
        }
    }
    out.into_iter().collect()
}

// ---- C18 --------------------------------------------------------------------------------------

fn add(w: &[u8; 33], d: i32) -> Option<[u8; 33]> {
    let mut r = *w;
    let mut c = d;
    for x in r.iter_mut().rev() {
        let v = *x as i32 + c;
        *x = v.rem_euclid(256) as u8;
        c = v.div_euclid(256);
    }
    if c != 0 {
        None
    } else {
        Some(r)
    }
}
fn dec33(w: &[u8; 33]) -> String {
    let mut n = w.to_vec();
    let mut out = vec![];
    while n.iter().any(|x| *x != 0) {
        let mut rem = 0u32;
        for x in n.iter_mut() {
            let v = rem * 256 + *x as u32;
            *x = (v / 10) as u8;
            rem = v % 10;
        }
        out.push(b'0' + rem as u8);
    }
    if out.is_empty() {
        out.push(b'0')
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

fn int_ty(cx: &mut Cx) -> Ty {
    let bits = [256, 8, 64, 128, 248][cx.choose(5)];
    if cx.flag() {
        Ty::Int(bits)
    } else {
        Ty::Uint(bits)
    }
}

fn int_check(cx: &mut Cx, t: Ty, s: String) -> Res {
    let lenient = cx.choose(2) == 0;
    let (t, s) = match cx.choose(3) {
        0 => (t, s),
        1 => (arr(t), format!("[{},{}]", s, s)),
        _ => (tup(&[Ty::Bool, t]), format!("(1,{})", s)),
    };
    let want = parse(&t, &s, lenient);
    check(cx, &t, &s, lenient, &want)
}

pub fn c18(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // every power of two and its neighbours, both signs
    let dmax = t.pick(3, 20);
    v.push(space("powers", 0, move |cx| {
        let k = cx.choose(260);
        let d = cx.choose(2 * dmax + 1) as i32 - dmax as i32;
        let mut w = [0u8; 33];
        w[32 - k / 8] = 1 << (k % 8);
        let w = match add(&w, d) {
            None => return cx.prune(),
            Some(w) => w,
        };
        let s = dec33(&w);
        let sign = ["", "-", "+", "--"][cx.choose(4)];
        let zeros = ["", "0", "000"][cx.choose(3)];
        let t = int_ty(cx);
        int_check(cx, t, format!("{}{}{}", sign, zeros, s))
    }));
    // every short string over the characters numbers are made of
    let n = t.pick(5, 6);
    v.push(space("strings", 0, move |cx| {
        let al = ["0", "1", "9", "-", "+", " ", "a", "x", "_", "\u{661}", "."];
        let l = cx.choose(n + 1);
        let s: String = (0..l).map(|_| *cx.pick(&al)).collect();
        let t = if cx.flag() { Ty::Int(256) } else { Ty::Uint(256) };
        let lenient = cx.choose(2) == 0;
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // repeated digits of every length: the limits by length, and the 64-digit rule
    let l = t.pick(140, 300);
    v.push(space("runs", 0, move |cx| {
        let d = cx.choose(10);
        let n = 1 + cx.choose(l);
        let mut s: Vec<u8> = vec![b'0' + d as u8; n];
        let k = cx.choose(4);
        match k {
            0 => {}
            1 => s[0] = b'1',
            2 => s[n - 1] = b'7',
            _ => s[n / 2] = b'x',
        }
        let sign = ["", "-", "0x"][cx.choose(3)];
        let t = int_ty(cx);
        int_check(cx, t, format!("{}{}", sign, String::from_utf8(s).unwrap()))
    }));
    // the full-width hexadecimal form, every position, every class of character
    v.push(space("hex-form", 0, move |cx| {
        let n = 60 + cx.choose(8);
        let mut s: Vec<char> = (0..n).map(|i| char::from_digit(((i * 7 + 3) % 16) as u32, 16).unwrap()).collect();
        let i = cx.choose(n);
        let c = *cx.pick(&['5', 'A', 'f', 'g', '-', ' ', '\u{e9}', 'x', '+']);
        s[i] = c;
        let t = int_ty(cx);
        int_check(cx, t, s.into_iter().collect())
    }));
    // one odd character in, before, after or in place of part of a number
    v.push(space("odd-character", 0, move |cx| {
        const ODD: [char; 41] = [
            '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{b2}', '\u{b9}', '\u{bd}', '\u{e9}', '\u{130}', '\u{131}', '\u{660}', '\u{661}', '\u{669}', '\u{6f5}', '\u{7c1}', '\u{966}', '\u{967}', '\u{9e7}', '\u{e51}', '\u{1680}',
            '\u{2002}', '\u{2007}', '\u{2009}', '\u{200b}', '\u{200e}', '\u{2010}', '\u{2013}', '\u{2028}', '\u{202f}', '\u{2070}', '\u{2080}', '\u{2212}', '\u{2460}', '\u{3000}', '\u{3007}', '\u{feff}', '\u{ff0b}', '\u{ff0d}', '\u{ff11}', '\u{1d7cf}', '\u{1fbf1}',
        ];
        let k = cx.choose(128 + ODD.len());
        let c = if k < 128 { k as u8 as char } else { ODD[k - 128] };
        let z = format!("{}1f", "0".repeat(62));
        let base: String = cx.pick(&["1", "10", "255", "-7", "-128", &z]).to_string();
        let mut cs: Vec<char> = base.chars().collect();
        let n = cs.len();
        match cx.choose(7) {
            0 => cs.insert(0, c),
            1 => cs.push(c),
            2 => cs.insert(n / 2, c),
            3 => cs[0] = c,
            4 => cs[n - 1] = c,
            5 => {
                cs.insert(0, c);
                cs.push(c);
            }
            _ => cs = vec![c; n],
        }
        let s: String = cs.into_iter().collect();
        let t = int_ty(cx);
        let lenient = cx.choose(2) == 0;
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // what people write before and after numbers
    v.push(space("affixes", 0, move |cx| {
        let z = "0".repeat(64);
        let d = *cx.pick(&["0", "1", "10", "255", "100000", "1000000000000000000", &z]);
        let s = format!("{}{}{}", cx.pick(mc::gen::BEFORE), d, cx.pick(mc::gen::AFTER));
        let t = int_ty(cx);
        let lenient = cx.choose(2) == 0;
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // small numbers, exhaustively
    let m = t.pick(10000, 70000);
    v.push(space("small", 0, move |cx| {
        let (a, b) = (cx.choose(256), cx.choose(m / 256 + 1));
        let i = a + 256 * b;
        let sign = ["", "-"][cx.choose(2)];
        let t = int_ty(cx);
        let s = format!("{}{}", sign, i);
        let want = parse(&t, &s, true);
        check(cx, &t, &s, true, &want)
    }));
    v
}

// ---- C19 --------------------------------------------------------------------------------------

fn text_types() -> Vec<Ty> {
    vec![
        arr(Ty::Str),
        tup(&[Ty::Str, Ty::Bool]),
        arr(arr(Ty::Bool)),
        arr(tup(&[Ty::Str])),
        tup(&[arr(Ty::Str), Ty::Str]),
        farr(Ty::Str, 2),
        tup(&[tup(&[Ty::Str]), Ty::Uint(8)]),
        tup(&[Ty::Uint(8)]),
        arr(Ty::Int(8)),
        farr(arr(Ty::Str), 1),
        Ty::Bytes,
        Ty::Bool,
        Ty::Str,
        Ty::FBytes(1),
        Ty::Addr,
        Ty::Uint(256),
    ]
}

pub fn c19(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // backslashes escape nothing
    let m = t.pick(6, 7);
    v.push(space("backslashes", 0, move |cx| {
        let al = ["\\", "\"", ",", "a", "'"];
        let n = cx.choose(m + 1);
        let s: String = (0..n).map(|_| *cx.pick(&al)).collect();
        let (ty, s) = match cx.choose(4) {
            0 => (arr(Ty::Str), format!("[{}]", s)),
            1 => (tup(&[Ty::Str, Ty::Str]), format!("({})", s)),
            2 => (farr(Ty::Str, 2), format!("[{}]", s)),
            _ => (tup(&[Ty::Bool, arr(Ty::Str)]), format!("(1,[{}])", s)),
        };
        let lenient = cx.flag();
        let want = parse(&ty, &s, lenient);
        check(cx, &ty, &s, lenient, &want)
    }));
    let n = t.pick(6, 7);
    let tys = text_types();
    v.push(space("strings", 0, move |cx| {
        let al = ["[", "]", "(", ")", ",", "\"", "1", "a", "\u{e9}"];
        let l = cx.choose(n + 1);
        let s: String = (0..l).map(|_| *cx.pick(&al)).collect();
        let t = cx.pick(&tys).clone();
        let lenient = cx.flag();
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // inside correct outer delimiters, one level deeper
    let n = t.pick(5, 6);
    let tys: Vec<Ty> = text_types().into_iter().take(10).collect();
    v.push(space("enclosed", 0, move |cx| {
        let t = cx.pick(&tys).clone();
        let (o, c) = if matches!(t, Ty::Tup(_)) { ("(", ")") } else { ("[", "]") };
        let (io, ic) = [("", ""), ("[", "]"), ("(", ")"), ("\"", "\"")][cx.choose(4)];
        let al = ["[", "]", "(", ")", ",", "\"", "1"];
        let l = cx.choose(n + 1);
        let s: String = (0..l).map(|_| *cx.pick(&al)).collect();
        let s = format!("{}{}{}{}{}", o, io, s, ic, c);
        let lenient = cx.flag();
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // two edits away from a well-formed value
    let n = t.pick(2, 3);
    v.push(space("edited-twice", 0, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(8), Ty::Str, Ty::Bool], &[2]);
        let lenient = cx.flag();
        let s = {
            let mut w = Write { cx, lenient, g: Vg::new() };
            w.val(&ty, true).1
        };
        let s = edit(cx, &s);
        let s = edit(cx, &s);
        let want = parse(&ty, &s, lenient);
        check(cx, &ty, &s, lenient, &want)
    }));
    // long hostile text: time, memory and stack stay proportionate
    let mut lens = vec![100, 1000, 4000];
    if t == Tier::Thorough {
        lens.extend([9000, 20000])
    }
    let tys = text_types();
    v.push(space("long", 0, move |cx| {
        let n = *cx.pick(&lens);
        let unit = *cx.pick(&["[", "]", "(", ")", ",", "\"", "1", "[]", "()", "[1,", "(1,", "],[", "\",\"", "\u{e9}", "-", "0"]);
        let s = unit.repeat(n);
        let s = match cx.choose(3) {
            0 => s,
            1 => format!("[{}]", s),
            _ => format!("({})", s),
        };
        let t = cx.pick(&tys).clone();
        let lenient = cx.flag();
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // the number of items against the number the type has
    let m = t.pick(36, 70);
    v.push(space("item-counts", 0, move |cx| {
        let (n, k) = (1 + cx.choose(m), cx.choose(m + 2));
        let (ty, it) = cx.pick(&[(Ty::Bool, "1"), (Ty::Str, "a"), (Ty::Str, ""), (tup(&[Ty::Str]), "(b)"), (arr(Ty::Str), "[]"), (Ty::Bytes, "")]).clone();
        let body = vec![it; k].join(",");
        let (t, s) = match cx.choose(6) {
            0 => (farr(ty, n), format!("[{}]", body)),
            1 => (tup(&vec![ty; n]), format!("({})", body)),
            2 => (arr(farr(ty, n)), format!("[[{}]]", body)),
            3 => (tup(&[Ty::Bool, tup(&vec![ty; n])]), format!("(1,({}))", body)),
            4 => (farr(ty, n), format!("[{},]", body)),
            _ => (tup(&vec![ty; n]), format!("(,{})", body)),
        };
        let lenient = cx.flag();
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // every length of hexadecimal text, and one bad digit anywhere
    let m = t.pick(140, 270);
    v.push(space("hex-lengths", 0, move |cx| {
        let n = cx.choose(m);
        let at = cx.choose(n + 1); // n: none is bad
        let bad = *cx.pick(&['g', 'G', '@', '`', ':', '/', ' ', '\u{e9}', '"']);
        let s: String = (0..n).map(|i| if i == at { bad } else { b"0123456789abcdefABCDEF"[(i * 7) % 22] as char }).collect();
        let els = [Ty::Bytes, Ty::Addr, Ty::FBytes(1), Ty::FBytes(n.clamp(2, 64) / 2), Ty::FBytes(32), Ty::Uint(256), Ty::Int(256)];
        let t = cx.pick(&els).clone();
        if t == Ty::FBytes(1) && n > 6 || matches!(t, Ty::FBytes(k) if k > 32) {
            return cx.prune();
        }
        let lenient = cx.flag();
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // bytes of a multi-byte character can never be split
    v.push(space("characters", 0, move |cx| {
        let cs = ["\u{0}", "\u{7f}", "\u{80}", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{feff}", "\u{202e}", "\u{ff3b}", "\u{ff0c}"];
        let c = *cx.pick(&cs);
        let form = cx.choose(8);
        let d = *cx.pick(&cs);
        let s = match form {
            0 => format!("{}{}", c, d),
            1 => format!("[{}{}]", c, d),
            2 => format!("[{},{}]", c, d),
            3 => format!("({}{},1)", c, d),
            4 => format!("{}[{}]", c, d),
            5 => format!("[{}]{}", c, d),
            6 => format!("[\"{}\",{}]", c, d),
            _ => format!("(({}),{})", c, d),
        };
        let t = cx.pick(&text_types()).clone();
        let lenient = cx.flag();
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    // spellings people try: words, numbers with decorations, padding — alone and inside lists
    let els: Vec<Ty> = leaf_kinds().into_iter().chain([Ty::Uint(8), Ty::Int(8), Ty::FBytes(1), Ty::FBytes(4)]).collect();
    v.push(space("words", 0, move |cx| {
        let s = odd_word(cx);
        let e = cx.pick(&els).clone();
        let (t, s) = match cx.choose(7) {
            0 => (e, s),
            1 => (arr(e), format!("[{}]", s)),
            2 => (tup(&[Ty::Bool, e]), format!("(1,{})", s)),
            3 => (farr(e, 2), format!("[{},{}]", s, s)),
            4 => (tup(&[e, arr(Ty::Str)]), format!("({},[])", s)),
            5 => (arr(arr(e)), format!("[[{}]]", s)),
            _ => (arr(tup(&[e])), format!("[({})]", s)),
        };
        let lenient = cx.flag();
        let want = parse(&t, &s, lenient);
        check(cx, &t, &s, lenient, &want)
    }));
    v
}

/// A word in every mix of upper and lower case, or a decorated literal, possibly padded.
fn odd_word(cx: &mut Cx) -> String {
    let words = ["true", "false", "yes", "no", "on", "off", "t", "f", "y", "n", "null", "none", "nan", "inf", "ok", "wei", "ether", "eth"];
    let z: String = "0".repeat(63);
    let long = ["0x", "0X", "", "-", "+", "0b", "#"].iter().flat_map(|p| [format!("{}{}1", p, z), format!("{}{}", p, "a".repeat(40)), format!("{}{}A", p, z)]).collect::<Vec<_>>();
    let literals = [
        "0", "1", "2", "00", "01", "10", "11", "-1", "+1", "--1", "-0", "+0", "- 1", "1-", "1.0", "1.", ".5", "1e3", "1E3", "1e18", "1_000", "1,000", "1'000", "0x", "0x0", "0x1", "0X1", "0xff", "0b1",
        "0o7", "#1", "1u", "1n", "1 wei", "1ether", "ff", "FF", "fF", "0xFF", "f", "0xf", "abc", "\\x01", "'1'", "'true'", "\"1\"", "\"true\"", "\"\"", "''", "\u{661}", "\u{ff11}", "\u{2212}1", "\u{b2}", "True ", "",
        "0123456789abcdef0123456789abcdef01234567", "0x0123456789abcdef0123456789abcdef01234567", "0123456789ABCDEF0123456789abcdef01234567", "0123456789abcdef0123456789abcdef0123456", "vitalik.eth",
    ];
    match cx.choose(3) {
        0 => {
            let w = *cx.pick(&words);
            w.chars().map(|c| if cx.flag() { c.to_ascii_uppercase() } else { c }).collect()
        }
        1 => {
            let w = if cx.flag() { cx.pick(&literals).to_string() } else { cx.pick(&long).clone() };
            let pads = ["", " ", "\t", "\n", "\r\n", "\u{a0}", "\u{feff}", "\0", "_", "'", "+", "0", "0x", ";", "."];
            match cx.choose(3) {
                0 => format!("{}{}", cx.pick(&pads), w),
                1 => format!("{}{}", w, cx.pick(&pads)),
                _ => {
                    let p = *cx.pick(&pads);
                    format!("{}{}{}", p, w, p)
                }
            }
        }
        _ => {
            let w = *cx.pick(&words);
            let pads = ["", " ", "\t", "\n", "\0", "_", "0", "1", "\"", "."];
            match cx.choose(2) {
                0 => format!("{}{}", cx.pick(&pads), w),
                _ => format!("{}{}", w, cx.pick(&pads)),
            }
        }
    }
}

// ---- C25 --------------------------------------------------------------------------------------

fn shown(cx: &mut Cx, ts: Ty) -> Res {
    let mut g = Vg::new();
    g.fb_short = true;
    let v = g.val(cx, &ts);
    shown_val(cx, ts, v)
}

fn shown_val(cx: &mut Cx, ts: Ty, v: Val) -> Res {
    let want = v.display();
    let tok = v.real();
    cx.state(&[ts.name().as_bytes(), want.as_bytes()]);
    cx.sample(|| format!("{} value shown as {}", ts.name(), clip(&want, 200)));
    let got = cx.guard(|| format!("{}", tok)).map_err(|m| format!("display of {:?}: {}", v, m))?;
    cx.outcome("shown");
    if got != want {
        return Err(format!("{:?} shown as {:?}, expected {:?}", v, got, want));
    }
    let got = cx.guard(|| tok.to_string()).map_err(|m| format!("display of {:?}: {}", v, m))?;
    if got != want {
        return Err(format!("{:?} to_string gives {:?}, expected {:?}", v, got, want));
    }
    // what is shown for byte strings, booleans and lists of them reads back as the same value
    if readable(&ts) && writable(&v, true) && v.normal(&ts) == v {
        let pt = ts.real();
        for lenient in [false, true] {
            let r = cx.guard(|| tokenize(&pt, &got, lenient)).map_err(|m| format!("reading {:?}: {}", got, m))?;
            match r {
                Ok(t2) if Val::from_real(&t2) == v => cx.outcome("read back"),
                o => return Err(format!("{} shown as {:?} reads back as {:?}", ts.name(), got, o)),
            }
        }
    }
    Ok(())
}

fn readable(t: &Ty) -> bool {
    match t {
        Ty::Addr | Ty::Bytes | Ty::FBytes(_) | Ty::Bool => true,
        Ty::Arr(t) | Ty::FArr(t, _) => readable(t),
        Ty::Tup(v) => v.iter().all(readable),
        _ => false,
    }
}

pub fn c25(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = t.pick(5, 6);
    let d = t.pick(2, 2);
    v.push(space("shapes", d, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &[Ty::Uint(256), Ty::Bytes, Ty::Bool], &[2, 1]);
        shown(cx, ty)
    }));
    let n = t.pick(3, 4);
    v.push(space("kinds", 2, move |cx| {
        let k = 1 + cx.choose(n);
        let ty = ty(cx, k, &leaf_kinds(), &[2, 1, 3]);
        shown(cx, ty)
    }));
    v.push(space("numbers", 0, move |cx| {
        let k = cx.choose(256);
        let d = cx.choose(5) as i32 - 2;
        let mut w = [0u8; 33];
        w[32 - k / 8] = 1 << (k % 8);
        let w = add(&w, d).unwrap_or(w);
        let mut x = [0; 32];
        x.copy_from_slice(&w[1..]);
        let v = if cx.flag() { Val::Int(x) } else { Val::Uint(x) };
        let v = if cx.flag() { Val::Arr(vec![v.clone(), v]) } else { v };
        let want = v.display();
        let tok = v.real();
        cx.state(&[want.as_bytes()]);
        let got = cx.guard(|| format!("{}", tok)).map_err(|m| format!("display of {:?}: {}", v, m))?;
        cx.outcome("shown");
        if got != want {
            return Err(format!("{:?} shown as {:?}, expected {:?}", v, got, want));
        }
        Ok(())
    }));
    v.push(space("elementary", 1, move |cx| {
        let t = cx.pick(&elementary()).clone();
        let t = match cx.choose(3) {
            0 => t,
            1 => arr(t),
            _ => tup(&[t, Ty::Bool]),
        };
        let v = Vg::rich().val(cx, &t);
        shown_val(cx, t, v)
    }));
    // lengths and depths
    let mut ls: Vec<usize> = (0..=t.pick(140, 400)).collect();
    ls.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65536]);
    v.push(space("lengths", 0, move |cx| {
        let n = *cx.pick(&ls);
        let mut g = Vg::new();
        let k = cx.choose(6);
        let b = match cx.choose(3) {
            0 => g.pat(n),
            1 => vec![0; n],
            _ => (0..n).map(|i| i as u8).collect(),
        };
        let (ty, x) = match k {
            0 => (Ty::Bytes, Val::Bytes(b)),
            1 => (Ty::Str, Val::Str(g.text(n))),
            2 => (arr(Ty::FBytes(1)), Val::Arr(b.iter().map(|x| Val::FBytes(vec![*x])).collect())),
            3 => (tup(&vec![Ty::Bool; n.max(1)]), Val::Tup((0..n.max(1)).map(|i| Val::Bool(i % 3 == 0)).collect())),
            4 => (farr(Ty::Uint(256), n.max(1)), Val::FArr((0..n.max(1)).map(|i| Val::Uint(word(i * i))).collect())),
            _ => (arr(tup(&[Ty::Bytes, arr(Ty::Bool)])), Val::Arr((0..n.min(300)).map(|i| Val::Tup(vec![Val::Bytes(vec![i as u8; i % 5]), Val::Arr(vec![Val::Bool(true); i % 4])])).collect())),
        };
        shown_val(cx, ty, x)
    }));
    let m = 201;
    v.push(space("deep", 0, move |cx| {
        let n = cx.choose(m);
        let how = cx.choose(4);
        let mut ty = cx.pick(&[Ty::Uint(256), Ty::Bytes]).clone();
        for i in 0..n {
            ty = match (how, i % 3) {
                (0, _) | (3, 0) => arr(ty),
                (1, _) | (3, 1) => farr(ty, 1),
                _ => tup(&[Ty::Bool, ty]),
            }
        }
        let mut g = Vg::new();
        g.lens = &[1];
        let x = g.val(cx, &ty);
        shown_val(cx, ty, x)
    }));
    v
}
