//! Reference model of the Solidity contract ABI, written from the specification and sharing no
//! code with the implementation under test.

use ethabi::{ParamType, Token};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Addr,
    Bytes,
    Int(usize),
    Uint(usize),
    Bool,
    Str,
    FBytes(usize),
    Arr(Box<Ty>),
    FArr(Box<Ty>, usize),
    Tup(Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Addr([u8; 20]),
    Bytes(Vec<u8>),
    Int([u8; 32]),
    Uint([u8; 32]),
    Bool(bool),
    Str(String),
    FBytes(Vec<u8>),
    Arr(Vec<Val>),
    FArr(Vec<Val>),
    Tup(Vec<Val>),
}

pub fn arr(t: Ty) -> Ty {
    Ty::Arr(Box::new(t))
}
pub fn farr(t: Ty, n: usize) -> Ty {
    Ty::FArr(Box::new(t), n)
}
pub fn tup(v: &[Ty]) -> Ty {
    Ty::Tup(v.to_vec())
}

impl Ty {
    pub fn is_dyn(&self) -> bool {
        match self {
            Ty::Bytes | Ty::Str | Ty::Arr(_) => true,
            Ty::FArr(t, n) => *n > 0 && t.is_dyn(),
            Ty::Tup(v) => v.iter().any(Ty::is_dyn),
            _ => false,
        }
    }
    /// Size in bytes of the head part.
    pub fn head(&self) -> usize {
        if self.is_dyn() {
            return 32;
        }
        match self {
            Ty::FArr(t, n) => t.head() * n,
            Ty::Tup(v) => v.iter().map(Ty::head).sum(),
            _ => 32,
        }
    }
    /// Number of bits a value of an elementary static type has.
    pub fn size_bits(&self) -> usize {
        match self {
            Ty::Addr => 160,
            Ty::Bool => 2,
            Ty::Int(n) | Ty::Uint(n) => *n,
            Ty::FBytes(n) => 8 * n,
            _ => 0,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            Ty::Arr(t) | Ty::FArr(t, _) => 1 + t.nodes(),
            Ty::Tup(v) => 1 + v.iter().map(Ty::nodes).sum::<usize>(),
            _ => 1,
        }
    }
    /// Canonical name (as used in signatures).
    pub fn name(&self) -> String {
        match self {
            Ty::Addr => "address".into(),
            Ty::Bytes => "bytes".into(),
            Ty::Bool => "bool".into(),
            Ty::Str => "string".into(),
            Ty::Int(n) => format!("int{}", n),
            Ty::Uint(n) => format!("uint{}", n),
            Ty::FBytes(n) => format!("bytes{}", n),
            Ty::Arr(t) => t.name() + "[]",
            Ty::FArr(t, n) => format!("{}[{}]", t.name(), n),
            Ty::Tup(v) => format!("({})", v.iter().map(Ty::name).collect::<Vec<_>>().join(",")),
        }
    }
    /// Name used in a JSON ABI, where a tuple's members live in `components`.
    pub fn json_name(&self) -> String {
        match self {
            Ty::Arr(t) => t.json_name() + "[]",
            Ty::FArr(t, n) => format!("{}[{}]", t.json_name(), n),
            Ty::Tup(_) => "tuple".into(),
            t => t.name(),
        }
    }
    pub fn inner_tuple(&self) -> Option<&Vec<Ty>> {
        match self {
            Ty::Arr(t) | Ty::FArr(t, _) => t.inner_tuple(),
            Ty::Tup(v) => Some(v),
            _ => None,
        }
    }
    pub fn real(&self) -> ParamType {
        match self {
            Ty::Addr => ParamType::Address,
            Ty::Bytes => ParamType::Bytes,
            Ty::Bool => ParamType::Bool,
            Ty::Str => ParamType::String,
            Ty::Int(n) => ParamType::Int(*n),
            Ty::Uint(n) => ParamType::Uint(*n),
            Ty::FBytes(n) => ParamType::FixedBytes(*n),
            Ty::Arr(t) => ParamType::Array(Box::new(t.real())),
            Ty::FArr(t, n) => ParamType::FixedArray(Box::new(t.real()), *n),
            Ty::Tup(v) => ParamType::Tuple(v.iter().map(Ty::real).collect()),
        }
    }
    pub fn from_real(p: &ParamType) -> Ty {
        match p {
            ParamType::Address => Ty::Addr,
            ParamType::Bytes => Ty::Bytes,
            ParamType::Bool => Ty::Bool,
            ParamType::String => Ty::Str,
            ParamType::Int(n) => Ty::Int(*n),
            ParamType::Uint(n) => Ty::Uint(*n),
            ParamType::FixedBytes(n) => Ty::FBytes(*n),
            ParamType::Array(t) => arr(Ty::from_real(t)),
            ParamType::FixedArray(t, n) => farr(Ty::from_real(t), *n),
            ParamType::Tuple(v) => Ty::Tup(v.iter().map(Ty::from_real).collect()),
        }
    }
}

pub fn reals(t: &[Ty]) -> Vec<ParamType> {
    t.iter().map(Ty::real).collect()
}
pub fn toks(v: &[Val]) -> Vec<Token> {
    v.iter().map(Val::real).collect()
}
pub fn vals(v: &[Token]) -> Vec<Val> {
    v.iter().map(Val::from_real).collect()
}

impl Val {
    pub fn real(&self) -> Token {
        match self {
            Val::Addr(a) => Token::Address((*a).into()),
            Val::Bytes(b) => Token::Bytes(b.clone()),
            Val::FBytes(b) => Token::FixedBytes(b.clone()),
            Val::Int(w) => Token::Int(ethabi::Uint::from_big_endian(w)),
            Val::Uint(w) => Token::Uint(ethabi::Uint::from_big_endian(w)),
            Val::Bool(b) => Token::Bool(*b),
            Val::Str(s) => Token::String(s.clone()),
            Val::Arr(v) => Token::Array(toks(v)),
            Val::FArr(v) => Token::FixedArray(toks(v)),
            Val::Tup(v) => Token::Tuple(toks(v)),
        }
    }
    pub fn from_real(t: &Token) -> Val {
        let w = |u: &ethabi::Uint| {
            let mut b = [0u8; 32];
            u.to_big_endian(&mut b);
            b
        };
        match t {
            Token::Address(a) => Val::Addr(a.0),
            Token::Bytes(b) => Val::Bytes(b.clone()),
            Token::FixedBytes(b) => Val::FBytes(b.clone()),
            Token::Int(u) => Val::Int(w(u)),
            Token::Uint(u) => Val::Uint(w(u)),
            Token::Bool(b) => Val::Bool(*b),
            Token::String(s) => Val::Str(s.clone()),
            Token::Array(v) => Val::Arr(vals(v)),
            Token::FixedArray(v) => Val::FArr(vals(v)),
            Token::Tuple(v) => Val::Tup(vals(v)),
        }
    }
    /// Is this value of type `t` (shapes only; a shorter bytesN is a value of bytesN)?
    pub fn of(&self, t: &Ty) -> bool {
        match (self, t) {
            (Val::Addr(_), Ty::Addr)
            | (Val::Bytes(_), Ty::Bytes)
            | (Val::Int(_), Ty::Int(_))
            | (Val::Uint(_), Ty::Uint(_))
            | (Val::Bool(_), Ty::Bool)
            | (Val::Str(_), Ty::Str) => true,
            (Val::FBytes(b), Ty::FBytes(n)) => b.len() <= *n,
            (Val::Arr(v), Ty::Arr(t)) => v.iter().all(|x| x.of(t)),
            (Val::FArr(v), Ty::FArr(t, n)) => v.len() == *n && v.iter().all(|x| x.of(t)),
            (Val::Tup(v), Ty::Tup(ts)) => v.len() == ts.len() && v.iter().zip(ts).all(|(x, t)| x.of(t)),
            _ => false,
        }
    }
    /// bytesN values padded to their full length.
    pub fn normal(&self, t: &Ty) -> Val {
        match (self, t) {
            (Val::FBytes(b), Ty::FBytes(n)) => {
                let mut b = b.clone();
                b.resize(*n, 0);
                Val::FBytes(b)
            }
            (Val::Arr(v), Ty::Arr(t)) => Val::Arr(v.iter().map(|x| x.normal(t)).collect()),
            (Val::FArr(v), Ty::FArr(t, _)) => Val::FArr(v.iter().map(|x| x.normal(t)).collect()),
            (Val::Tup(v), Ty::Tup(ts)) => Val::Tup(v.iter().zip(ts).map(|(x, t)| x.normal(t)).collect()),
            (v, _) => v.clone(),
        }
    }
    /// Textual form documented for command-line output.
    pub fn display(&self) -> String {
        let list = |v: &Vec<Val>| v.iter().map(Val::display).collect::<Vec<_>>().join(",");
        match self {
            Val::Addr(a) => hexs(a),
            Val::Bytes(b) | Val::FBytes(b) => hexs(b),
            Val::Int(w) | Val::Uint(w) => {
                let s = hexs(w);
                let s = s.trim_start_matches('0');
                if s.is_empty() {
                    "0".into()
                } else {
                    s.into()
                }
            }
            Val::Bool(b) => if *b { "true" } else { "false" }.into(),
            Val::Str(s) => s.clone(),
            Val::Arr(v) | Val::FArr(v) => format!("[{}]", list(v)),
            Val::Tup(v) => format!("({})", list(v)),
        }
    }
}

pub fn hexs(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}

/// Strict lower/upper-case hexadecimal, an even number of digits.
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    b.chunks(2).map(|p| Some(d(p[0])? << 4 | d(p[1])?)).collect()
}

pub fn word(n: usize) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[24..].copy_from_slice(&(n as u64).to_be_bytes());
    w
}

fn right_pad(b: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(b);
    while out.len() % 32 != 0 {
        out.push(0)
    }
}

// ---- encoding ---------------------------------------------------------------------------------

/// enc(X) for a single value, as in the specification.
pub fn enc(t: &Ty, v: &Val) -> Vec<u8> {
    match (t, v) {
        (Ty::Addr, Val::Addr(a)) => {
            let mut w = vec![0; 12];
            w.extend_from_slice(a);
            w
        }
        (Ty::Int(_), Val::Int(w)) | (Ty::Uint(_), Val::Uint(w)) => w.to_vec(),
        (Ty::Bool, Val::Bool(b)) => word(*b as usize).to_vec(),
        (Ty::FBytes(n), Val::FBytes(b)) => {
            assert!(b.len() <= *n && *n <= 32);
            let mut w = b.clone();
            w.resize(32, 0);
            w
        }
        (Ty::Bytes, Val::Bytes(b)) => {
            let mut o = word(b.len()).to_vec();
            right_pad(b, &mut o);
            o
        }
        (Ty::Str, Val::Str(s)) => {
            let mut o = word(s.len()).to_vec();
            right_pad(s.as_bytes(), &mut o);
            o
        }
        (Ty::Arr(t), Val::Arr(v)) => {
            let mut o = word(v.len()).to_vec();
            o.extend(enc_seq(&v.iter().map(|x| (&**t, x)).collect::<Vec<_>>()));
            o
        }
        (Ty::FArr(t, n), Val::FArr(v)) => {
            assert_eq!(*n, v.len());
            enc_seq(&v.iter().map(|x| (&**t, x)).collect::<Vec<_>>())
        }
        (Ty::Tup(ts), Val::Tup(v)) => enc_seq(&ts.iter().zip(v).collect::<Vec<_>>()),
        _ => panic!("model: ill-typed value"),
    }
}

pub fn enc_seq(items: &[(&Ty, &Val)]) -> Vec<u8> {
    let heads: usize = items.iter().map(|(t, _)| t.head()).sum();
    let mut head = Vec::with_capacity(heads);
    let mut tail: Vec<u8> = vec![];
    for (t, v) in items {
        let e = enc(t, v);
        if t.is_dyn() {
            head.extend_from_slice(&word(heads + tail.len()));
            tail.extend(e);
        } else {
            head.extend(e);
        }
    }
    assert_eq!(head.len(), heads);
    head.extend(tail);
    head
}

pub fn encode(ts: &[Ty], vs: &[Val]) -> Vec<u8> {
    assert_eq!(ts.len(), vs.len());
    enc_seq(&ts.iter().zip(vs).collect::<Vec<_>>())
}

/// In-place encoding of an indexed event argument (specification, "Encoding of Indexed Event
/// Parameters").
fn enc_indexed(t: &Ty, v: &Val, top: bool, out: &mut Vec<u8>) {
    match (t, v) {
        (Ty::Bytes, Val::Bytes(b)) => {
            if top {
                out.extend_from_slice(b)
            } else {
                right_pad(b, out)
            }
        }
        (Ty::Str, Val::Str(s)) => {
            if top {
                out.extend_from_slice(s.as_bytes())
            } else {
                right_pad(s.as_bytes(), out)
            }
        }
        (Ty::Arr(t), Val::Arr(v)) | (Ty::FArr(t, _), Val::FArr(v)) => {
            for x in v {
                enc_indexed(t, x, false, out)
            }
        }
        (Ty::Tup(ts), Val::Tup(v)) => {
            for (t, x) in ts.iter().zip(v) {
                enc_indexed(t, x, false, out)
            }
        }
        _ => out.extend(enc(t, v)),
    }
}

/// The topic an indexed argument produces.
pub fn topic(t: &Ty, v: &Val) -> [u8; 32] {
    let mut o = vec![];
    enc_indexed(t, v, true, &mut o);
    if is_hashed_topic(t) {
        keccak(&o)
    } else {
        let mut w = [0; 32];
        w.copy_from_slice(&o);
        w
    }
}
pub fn is_hashed_topic(t: &Ty) -> bool {
    matches!(t, Ty::Bytes | Ty::Str | Ty::Arr(_) | Ty::FArr(..) | Ty::Tup(_))
}

// ---- decoding ---------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    Offset,
    Len,
    Bool,
    Scalar,
}

/// Where the reference decoder takes its words from.
pub trait Mem {
    fn len(&self) -> usize;
    /// Called before the 32-byte word at `pos` (in bounds) is read; `base` is the start of the
    /// enclosing frame that an offset is relative to.
    fn touch(&mut self, pos: usize, base: usize, role: Role);
    fn bytes(&self) -> &[u8];
}

impl Mem for &[u8] {
    fn len(&self) -> usize {
        <[u8]>::len(self)
    }
    fn touch(&mut self, _: usize, _: usize, _: Role) {}
    fn bytes(&self) -> &[u8] {
        self
    }
}

pub struct Dec<'m, M: Mem> {
    pub mem: &'m mut M,
    /// Set when the data is accepted by the model only under a leniency that the specification
    /// neither demands nor forbids.
    pub may: bool,
    pub work: usize,
}

/// `None`: the data must be rejected.
impl<'m, M: Mem> Dec<'m, M> {
    pub fn new(mem: &'m mut M) -> Self {
        Dec { mem, may: false, work: 0 }
    }
    fn word(&mut self, pos: usize, base: usize, role: Role) -> Option<[u8; 32]> {
        self.work += 1;
        if pos.checked_add(32)? > self.mem.len() {
            return None;
        }
        self.mem.touch(pos, base, role);
        let mut w = [0; 32];
        w.copy_from_slice(&self.mem.bytes()[pos..pos + 32]);
        Some(w)
    }
    fn num(&mut self, pos: usize, base: usize, role: Role) -> Option<usize> {
        let w = self.word(pos, base, role)?;
        if w[..24].iter().any(|x| *x != 0) {
            return None;
        }
        let mut b = [0; 8];
        b.copy_from_slice(&w[24..]);
        let n = u64::from_be_bytes(b);
        if n > u32::MAX as u64 * 16 {
            return None; // past any data this model is run on
        }
        Some(n as usize)
    }
    pub fn seq<'a>(&mut self, ts: impl Iterator<Item = &'a Ty>, base: usize) -> Option<Vec<Val>> {
        let mut pos = base;
        let mut out = vec![];
        for t in ts {
            out.push(self.head(t, pos, base)?);
            pos += t.head();
        }
        Some(out)
    }
    fn head(&mut self, t: &Ty, pos: usize, base: usize) -> Option<Val> {
        if t.is_dyn() {
            let off = self.num(pos, base, Role::Offset)?;
            let p = base + off;
            if p > self.mem.len() {
                return None;
            }
            self.body(t, p)
        } else {
            self.fixed(t, pos, base)
        }
    }
    fn fixed(&mut self, t: &Ty, pos: usize, base: usize) -> Option<Val> {
        Some(match t {
            Ty::Addr => {
                let w = self.word(pos, base, Role::Scalar)?;
                if w[..12].iter().any(|x| *x != 0) {
                    self.may = true;
                }
                let mut a = [0; 20];
                a.copy_from_slice(&w[12..]);
                Val::Addr(a)
            }
            Ty::Int(n) => {
                let w = self.word(pos, base, Role::Scalar)?;
                if !int_fits(&w, *n) {
                    self.may = true
                }
                Val::Int(w)
            }
            Ty::Uint(n) => {
                let w = self.word(pos, base, Role::Scalar)?;
                if !uint_fits(&w, *n) {
                    self.may = true
                }
                Val::Uint(w)
            }
            Ty::Bool => {
                let w = self.word(pos, base, Role::Bool)?;
                if w[..31].iter().any(|x| *x != 0) || w[31] > 1 {
                    return None;
                }
                Val::Bool(w[31] == 1)
            }
            Ty::FBytes(n) => {
                self.work += 1;
                if pos + n > self.mem.len() {
                    return None;
                }
                if pos + 32 > self.mem.len() {
                    self.may = true; // the padding of the word is missing
                    return Some(Val::FBytes(self.mem.bytes()[pos..pos + n].to_vec()));
                }
                let w = self.word(pos, base, Role::Scalar)?;
                if w[*n..].iter().any(|x| *x != 0) {
                    self.may = true
                }
                Val::FBytes(w[..*n].to_vec())
            }
            Ty::FArr(t, n) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.fixed(t, pos + i * t.head(), base)?)
                }
                Val::FArr(v)
            }
            Ty::Tup(ts) => {
                let (mut v, mut p) = (vec![], pos);
                for t in ts {
                    v.push(self.fixed(t, p, base)?);
                    p += t.head();
                }
                Val::Tup(v)
            }
            _ => unreachable!(),
        })
    }
    fn body(&mut self, t: &Ty, p: usize) -> Option<Val> {
        Some(match t {
            Ty::Bytes | Ty::Str => {
                let n = self.num(p, p + 32, Role::Len)?;
                if p + 32 + n > self.mem.len() {
                    return None;
                }
                self.work += n / 32 + 1;
                let b = self.mem.bytes()[p + 32..p + 32 + n].to_vec();
                if *t == Ty::Bytes {
                    Val::Bytes(b)
                } else {
                    // documented: invalid UTF-8 is replaced, never an error
                    Val::Str(String::from_utf8_lossy(&b).into_owned())
                }
            }
            Ty::Arr(t) => {
                let n = self.num(p, p + 32, Role::Len)?;
                Val::Arr(self.seq(std::iter::repeat(&**t).take(n), p + 32)?)
            }
            Ty::FArr(t, n) => Val::FArr(self.seq(std::iter::repeat(&**t).take(*n), p)?),
            Ty::Tup(ts) => Val::Tup(self.seq(ts.iter(), p)?),
            _ => unreachable!(),
        })
    }
}

pub fn uint_fits(w: &[u8; 32], bits: usize) -> bool {
    let n = 32 - (bits / 8).min(32);
    w[..n].iter().all(|x| *x == 0)
}
pub fn int_fits(w: &[u8; 32], bits: usize) -> bool {
    let n = 32 - (bits / 8).min(32);
    if n == 32 {
        return false;
    }
    let ext = if w[n] & 0x80 != 0 { 0xff } else { 0 };
    w[..n].iter().all(|x| *x == ext)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Must(Vec<Val>),
    May(Vec<Val>),
    Reject,
}

pub fn decode_mem<M: Mem>(ts: &[Ty], mem: &mut M) -> (Expect, usize) {
    if ts.is_empty() {
        return (Expect::Must(vec![]), 0);
    }
    if mem.len() == 0 {
        return (Expect::Reject, 0);
    }
    let mut d = Dec::new(mem);
    let r = d.seq(ts.iter(), 0);
    let w = d.work;
    match (r, d.may) {
        (None, _) => (Expect::Reject, w),
        (Some(v), false) => (Expect::Must(v), w),
        (Some(v), true) => (Expect::May(v), w),
    }
}

pub fn decode(ts: &[Ty], data: &[u8]) -> Expect {
    let mut m = data;
    decode_mem(ts, &mut m).0
}

/// Compare an implementation's verdict on data with the model's.
pub fn judge(e: &Expect, got: &Result<Vec<Val>, String>) -> Result<&'static str, String> {
    match (e, got) {
        (Expect::Must(v), Ok(g)) if v == g => Ok("accepted"),
        (Expect::May(v), Ok(g)) if v == g => Ok("accepted-lenient"),
        (Expect::May(_), Err(_)) => Ok("rejected-lenient"),
        (Expect::Reject, Err(_)) => Ok("rejected"),
        (Expect::Reject, Ok(g)) => Err(format!("malformed data accepted as {:?}", g)),
        (Expect::Must(v), Err(m)) => Err(format!("well-formed data rejected ({}), expected {:?}", m, v)),
        (Expect::Must(v), Ok(g)) | (Expect::May(v), Ok(g)) => Err(format!("decoded {:?}, expected {:?}", g, v)),
    }
}

// ---- keccak -----------------------------------------------------------------------------------

pub fn keccak(data: &[u8]) -> [u8; 32] {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b,
        0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088,
        0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089,
        0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
        0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROT: [[u32; 5]; 5] = [
        [0, 36, 3, 41, 18],
        [1, 44, 10, 45, 2],
        [62, 6, 43, 15, 61],
        [28, 55, 25, 21, 56],
        [27, 20, 39, 8, 14],
    ];
    let mut a = [[0u64; 5]; 5];
    let f = |a: &mut [[u64; 5]; 5]| {
        for rc in RC.iter() {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x][y] ^= d;
                }
            }
            let mut b = [[0u64; 5]; 5];
            for x in 0..5 {
                for y in 0..5 {
                    b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
                }
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
                }
            }
            a[0][0] ^= rc;
        }
    };
    let mut p = data.to_vec();
    p.push(1);
    while p.len() % 136 != 0 {
        p.push(0)
    }
    let l = p.len();
    p[l - 1] |= 0x80;
    for blk in p.chunks(136) {
        for (i, w) in blk.chunks(8).enumerate() {
            let mut b = [0; 8];
            b.copy_from_slice(w);
            a[i % 5][i / 5] ^= u64::from_le_bytes(b);
        }
        f(&mut a);
    }
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes());
    }
    o
}

pub fn signature(name: &str, ts: &[Ty]) -> String {
    format!("{}({})", name, ts.iter().map(Ty::name).collect::<Vec<_>>().join(","))
}
pub fn selector(name: &str, ts: &[Ty]) -> [u8; 4] {
    let h = keccak(signature(name, ts).as_bytes());
    [h[0], h[1], h[2], h[3]]
}
pub fn topic0(name: &str, ts: &[Ty]) -> [u8; 32] {
    keccak(signature(name, ts).as_bytes())
}

/// Cheap self-checks of the model against constants published in the specification.
pub fn self_test() {
    assert_eq!(hexs(&keccak(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
    assert_eq!(hexs(&selector("baz", &[Ty::Uint(32), Ty::Bool])), "cdcd77c0");
    assert_eq!(hexs(&selector("transfer", &[Ty::Addr, Ty::Uint(256)])), "a9059cbb");
    assert_eq!(
        hexs(&topic0("Transfer", &[Ty::Addr, Ty::Addr, Ty::Uint(256)])),
        "ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef"
    );
    assert_eq!(hexs(&keccak(&[7u8; 200])[..4]).len(), 8);
    // spec example: g(uint256[][],string[]) with ([[1,2],[3]], ["one","two","three"])
    let u = |n: usize| Val::Uint(word(n));
    let ts = [arr(arr(Ty::Uint(256))), arr(Ty::Str)];
    let vs = [
        Val::Arr(vec![Val::Arr(vec![u(1), u(2)]), Val::Arr(vec![u(3)])]),
        Val::Arr(["one", "two", "three"].iter().map(|s| Val::Str(s.to_string())).collect()),
    ];
    assert_eq!(hexs(&selector("g", &ts)), "2289b18c");
    let e = encode(&ts, &vs);
    let w = |i: usize| e[32 * i + 31] as usize + 256 * e[32 * i + 30] as usize;
    let want = [0x40, 0x140, 2, 0x40, 0xa0, 2, 1, 2, 1, 3, 3, 0x60, 0xa0, 0xe0, 3];
    for (i, x) in want.iter().enumerate() {
        assert_eq!(w(i), *x, "word {}", i);
    }
    assert_eq!(e.len(), 20 * 32);
    assert_eq!(decode(&ts, &e), Expect::Must(vs.to_vec()));
}

// ---- type names -------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Named {
    Must(Ty),
    /// Neither demanded nor forbidden (odd widths, signs or leading zeros in numbers, `tuple`
    /// inside parentheses, `()`), but nothing else may be understood by it.
    May(Ty),
    Reject,
}

pub fn parse_name(s: &str) -> Named {
    let mut odd = false;
    match parse_rec(s, &mut odd, true) {
        None => Named::Reject,
        Some(t) if odd => Named::May(t),
        Some(t) => Named::Must(t),
    }
}

fn num(s: &str, odd: &mut bool) -> Option<usize> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    if d.len() != s.len() || d.starts_with('0') {
        *odd = true
    }
    let mut n: usize = 0;
    for c in d.bytes() {
        n = n.checked_mul(10)?.checked_add((c - b'0') as usize)?;
    }
    Some(n)
}

fn parse_rec(s: &str, odd: &mut bool, top: bool) -> Option<Ty> {
    if let Some(r) = s.strip_suffix(']') {
        let i = r.rfind('[')?;
        let n = &r[i + 1..];
        let t = parse_rec(&r[..i], odd, top)?;
        if n.is_empty() {
            return Some(arr(t));
        }
        let k = num(n, odd)?;
        if k == 0 {
            *odd = true
        }
        return Some(farr(t, k));
    }
    if let Some(r) = s.strip_suffix(')') {
        let r = r.strip_prefix('(')?;
        if r.is_empty() {
            *odd = true;
            return Some(Ty::Tup(vec![]));
        }
        let (mut depth, mut start) = (0i32, 0);
        let mut v = vec![];
        for (i, c) in r.char_indices() {
            match c {
                '(' => depth += 1,
                ')' => {
                    depth -= 1;
                    if depth < 0 {
                        return None;
                    }
                }
                ',' if depth == 0 => {
                    v.push(parse_rec(&r[start..i], odd, false)?);
                    start = i + 1;
                }
                _ => {}
            }
        }
        if depth != 0 {
            return None;
        }
        v.push(parse_rec(&r[start..], odd, false)?);
        return Some(Ty::Tup(v));
    }
    Some(match s {
        "address" => Ty::Addr,
        "bool" => Ty::Bool,
        "string" => Ty::Str,
        "bytes" => Ty::Bytes,
        "int" => Ty::Int(256),
        "uint" => Ty::Uint(256),
        "tuple" => {
            if !top {
                *odd = true
            }
            Ty::Tup(vec![])
        }
        _ => {
            if let Some(r) = s.strip_prefix("uint") {
                let n = num(r, odd)?;
                if n % 8 != 0 || n == 0 || n > 256 {
                    *odd = true
                }
                Ty::Uint(n)
            } else if let Some(r) = s.strip_prefix("int") {
                let n = num(r, odd)?;
                if n % 8 != 0 || n == 0 || n > 256 {
                    *odd = true
                }
                Ty::Int(n)
            } else if let Some(r) = s.strip_prefix("bytes") {
                let n = num(r, odd)?;
                if n == 0 || n > 32 {
                    *odd = true
                }
                Ty::FBytes(n)
            } else {
                return None;
            }
        }
    })
}
