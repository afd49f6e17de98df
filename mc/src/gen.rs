//! Choice-driven generators: every type list and every value of a bounded universe is a path in
//! the decision tree.

use crate::engine::Cx;
use crate::model::*;

pub const FLENS: [usize; 3] = [2, 1, 3];

/// Every type with exactly `n` nodes over the given leaves.
pub fn ty(cx: &mut Cx, n: usize, leaves: &[Ty], flens: &[usize]) -> Ty {
    if n == 1 {
        return cx.pick(leaves).clone();
    }
    let k = cx.choose(2 + flens.len());
    match k {
        0 => arr(ty(cx, n - 1, leaves, flens)),
        1 => Ty::Tup(tys(cx, n - 1, leaves, flens)),
        i => farr(ty(cx, n - 1, leaves, flens), flens[i - 2]),
    }
}

/// Every list of types with exactly `n` nodes in total.
pub fn tys(cx: &mut Cx, n: usize, leaves: &[Ty], flens: &[usize]) -> Vec<Ty> {
    let mut left = n;
    let mut out = vec![];
    while left > 0 {
        let k = 1 + cx.choose(left);
        out.push(ty(cx, k, leaves, flens));
        left -= k;
    }
    out
}

/// Every list with 1..=max nodes (or 0..=max if `empty`).
pub fn tys_upto(cx: &mut Cx, max: usize, empty: bool, leaves: &[Ty], flens: &[usize]) -> Vec<Ty> {
    let n = if empty { cx.choose(max + 1) } else { 1 + cx.choose(max) };
    tys(cx, n, leaves, flens)
}

/// Every elementary Solidity type.
pub fn elementary() -> Vec<Ty> {
    let mut v = vec![Ty::Addr, Ty::Bool, Ty::Str, Ty::Bytes];
    for i in 1..=32 {
        v.push(Ty::Int(8 * i));
        v.push(Ty::Uint(8 * i));
        v.push(Ty::FBytes(i));
    }
    v
}

/// One elementary type per variant, plus the widths around which things change.
pub fn leaf_kinds() -> Vec<Ty> {
    vec![
        Ty::Uint(256),
        Ty::Bytes,
        Ty::Addr,
        Ty::Bool,
        Ty::Str,
        Ty::Int(256),
        Ty::FBytes(32),
        Ty::FBytes(1),
        Ty::FBytes(31),
        Ty::Uint(8),
        Ty::Int(8),
    ]
}

/// Deterministic, position-dependent values: every scalar of a value is different from every
/// other, so that misplacing, swapping or truncating anything is visible.
pub struct Vg {
    pub ctr: usize,
    pub lens: &'static [usize],
    pub blens: &'static [usize],
    pub fb_short: bool,
    pub extremes: bool,
    /// offer unusual contents of every leaf as well
    pub rich: bool,
}

pub const ALENS: [usize; 4] = [2, 0, 1, 3];
pub const BLENS: [usize; 7] = [5, 0, 1, 31, 32, 33, 65];

const ODD: usize = 11;
const SMALL: [u64; 8] = [1, 2, 10, 31, 32, 64, 256, 0x1_0000_0000];
/// Strings that something along the way could take for something else.
pub const STRINGS: &[&str] = &[
    "\0", "a\0", "\0a", "\0\0\0", " ", "a ", " a", "  a  b  ", "\n", "a\n", "\r\n", "\t", "a\nb", "\"", "\"\"", "\"a\"", "a\"b", "'a'", ",", "a,b", "a, b", "[", "]", "[]", "[a]",
    "(", ")", "()", "(a)", "{", "}", "{}", "{0}", "%s", "%", "\\", "\\n", "\\0", "\\u0041", "/", "0", "00", "0x", "0x00", "0xAb", "1", "-1", "true", "null", "A", "ABC", "aBc", "tuple", "_", "$", "\u{7f}", "\u{80}",
    "@", "@a", "#a", "~", "~/a", "$a", "${a}", "`a`", "!a", "*", "a*", "?", "=", "a=b", ";", "a;b", "&", "a&b", "|", "<", "<a>", "^", "%41", "&amp;", "//", "../a", "./a", "C:\\a", "a:b", ":", ".", "..", "a.b", "a\\\"b", "\\\"",
    "\u{e9}", "e\u{301}", "\u{df}", "\u{130}", "\u{a0}", "\u{200b}", "\u{202e}a", "\u{feff}", "\u{feff}a", "\u{fffd}", "\u{fffd}a", "\u{ffff}", "\u{10000}", "\u{1f600}", "\u{10ffff}",
    "0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcde\0", "0123456789abcdef0123456789abcde ", "\0123456789abcdef0123456789abcdef", "\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{e9}",
];

impl Vg {
    pub fn new() -> Vg {
        Vg { ctr: 0, lens: &ALENS, blens: &BLENS, fb_short: false, extremes: true, rich: false }
    }
    pub fn rich() -> Vg {
        Vg { rich: true, lens: &[2, 0, 1, 3, 4, 5], ..Vg::new() }
    }
    /// An unusual byte string of length n.
    pub fn odd_bytes(&mut self, n: usize, how: usize) -> Vec<u8> {
        let mut b = self.pat(n);
        let h = n / 2;
        match how {
            0 => b.iter_mut().for_each(|x| *x = 0),
            1 => b.iter_mut().for_each(|x| *x = 0xff),
            2 => b.iter_mut().take(1).for_each(|x| *x = 0),
            3 => b.iter_mut().rev().take(1).for_each(|x| *x = 0),
            4 => b.iter_mut().skip(1).for_each(|x| *x = 0),
            5 => b.iter_mut().rev().skip(1).for_each(|x| *x = 0),
            6 => b.iter_mut().skip(h).for_each(|x| *x = 0),
            7 => b.iter_mut().take(h).for_each(|x| *x = 0),
            8 => b.iter_mut().for_each(|x| *x = 0x20 + *x % 0x5f),
            9 => b.iter_mut().for_each(|x| *x = b'0' + *x % 10),
            _ => {
                let k = b.first().copied().unwrap_or(1);
                b.iter_mut().for_each(|x| *x = k)
            }
        }
        b
    }
    pub fn byte(&self, i: usize) -> u8 {
        ((self.ctr * 37 + i * 11 + 1) % 255 + 1) as u8
    }
    pub fn pat(&mut self, n: usize) -> Vec<u8> {
        self.ctr += 1;
        (0..n).map(|i| self.byte(i)).collect()
    }
    pub fn text(&mut self, n: usize) -> String {
        // mixes one-, two- and three-byte characters, exactly n bytes long
        self.ctr += 1;
        let mut s = String::new();
        let mut i = self.ctr;
        while s.len() < n {
            let left = n - s.len();
            match i % 5 {
                3 if left >= 2 => s.push('\u{e9}'),
                4 if left >= 3 => s.push('\u{20ac}'),
                k => s.push((b'a' + ((i * 7 + k) % 26) as u8) as char),
            }
            i += 1;
        }
        s
    }
    pub fn uint(&mut self, bits: usize, how: usize) -> [u8; 32] {
        let n = bits / 8;
        let mut w = [0; 32];
        match how {
            0 => w[32 - n..].copy_from_slice(&self.pat(n)),
            1 => {}
            _ => w[32 - n..].iter_mut().for_each(|x| *x = 0xff),
        }
        w
    }
    pub fn int(&mut self, bits: usize, how: usize) -> [u8; 32] {
        let n = bits / 8;
        let mut w = [0; 32];
        match how {
            0 => {
                let p = self.pat(n);
                if p[0] & 0x80 != 0 {
                    w = [0xff; 32]
                }
                w[32 - n..].copy_from_slice(&p);
            }
            1 => {}
            2 => w = [0xff; 32], // -1
            3 => {
                // minimum
                w = [0xff; 32];
                w[32 - n..].iter_mut().for_each(|x| *x = 0);
                w[32 - n] = 0x80;
            }
            _ => {
                w[32 - n..].iter_mut().for_each(|x| *x = 0xff);
                w[32 - n] = 0x7f;
            }
        }
        w
    }
    pub fn val(&mut self, cx: &mut Cx, t: &Ty) -> Val {
        let ex = self.extremes;
        match t {
            Ty::Addr => {
                let k = if self.rich { cx.deviate(3 + ODD) } else if ex { cx.deviate(3) } else { 0 };
                let mut a = [0; 20];
                if k >= 3 {
                    a.copy_from_slice(&self.odd_bytes(20, k - 3));
                    return Val::Addr(a);
                }
                match k {
                    0 => a.copy_from_slice(&self.pat(20)),
                    1 => {}
                    _ => a = [0xff; 20],
                }
                Val::Addr(a)
            }
            Ty::Bool => {
                self.ctr += 1;
                let k = if ex { cx.deviate(2) } else { 0 };
                Val::Bool((self.ctr + k) % 2 == 1)
            }
            Ty::Uint(n) => {
                let k = if self.rich { cx.deviate(3 + ODD + SMALL.len()) } else if ex { cx.deviate(3) } else { 0 };
                if k >= 3 + ODD {
                    let mut w = [0; 32];
                    w[24..].copy_from_slice(&SMALL[k - 3 - ODD].to_be_bytes());
                    w[..32 - n / 8].iter_mut().for_each(|x| *x = 0);
                    return Val::Uint(w);
                }
                if k >= 3 {
                    let mut w = [0; 32];
                    w[32 - n / 8..].copy_from_slice(&self.odd_bytes(n / 8, k - 3));
                    return Val::Uint(w);
                }
                Val::Uint(self.uint(*n, k))
            }
            Ty::Int(n) => {
                let k = if self.rich { cx.deviate(5 + ODD + 4) } else if ex { cx.deviate(5) } else { 0 };
                if k >= 5 {
                    let b = if k < 5 + ODD {
                        self.odd_bytes(n / 8, k - 5)
                    } else {
                        // 1, 16, -2, -16
                        let x = [1i8, 16, -2, -16][k - 5 - ODD];
                        let mut b = vec![if x < 0 { 0xff } else { 0 }; n / 8];
                        *b.last_mut().unwrap() = x as u8;
                        b
                    };
                    let mut w = [if b[0] & 0x80 != 0 { 0xff } else { 0 }; 32];
                    w[32 - n / 8..].copy_from_slice(&b);
                    return Val::Int(w);
                }
                Val::Int(self.int(*n, k))
            }
            Ty::FBytes(n) if self.rich => {
                let k = cx.deviate(1 + ODD);
                Val::FBytes(if k == 0 { self.pat(*n) } else { self.odd_bytes(*n, k - 1) })
            }
            Ty::FBytes(n) => {
                let l = if self.fb_short {
                    match cx.deviate(4) {
                        0 => *n,
                        1 => 0,
                        2 => n - 1,
                        _ => 1.min(*n),
                    }
                } else {
                    *n
                };
                Val::FBytes(self.pat(l))
            }
            Ty::Bytes if self.rich => {
                let k = cx.deviate(self.blens.len() + 6 * ODD);
                if k < self.blens.len() {
                    let l = self.blens[k];
                    return Val::Bytes(self.pat(l));
                }
                let k = k - self.blens.len();
                Val::Bytes(self.odd_bytes([1, 4, 20, 31, 32, 64][k / ODD], k % ODD))
            }
            Ty::Str if self.rich => {
                let k = cx.deviate(self.blens.len() + STRINGS.len());
                if k < self.blens.len() {
                    let l = self.blens[k];
                    return Val::Str(self.text(l));
                }
                self.ctr += 1;
                Val::Str(STRINGS[k - self.blens.len()].into())
            }
            Ty::Bytes => {
                let l = *cx.pick_dev(self.blens);
                Val::Bytes(self.pat(l))
            }
            Ty::Str => {
                let l = *cx.pick_dev(self.blens);
                Val::Str(self.text(l))
            }
            Ty::Arr(t) => {
                let l = *cx.pick_dev(self.lens);
                Val::Arr((0..l).map(|_| self.val(cx, t)).collect())
            }
            Ty::FArr(t, n) => Val::FArr((0..*n).map(|_| self.val(cx, t)).collect()),
            Ty::Tup(ts) => Val::Tup(ts.iter().map(|t| self.val(cx, t)).collect()),
        }
    }
    pub fn vals(&mut self, cx: &mut Cx, ts: &[Ty]) -> Vec<Val> {
        ts.iter().map(|t| self.val(cx, t)).collect()
    }
}

/// Every number below n, and the neighbours of the powers of two up to `cap`.
pub fn count(cx: &mut Cx, n: usize, cap: usize) -> usize {
    let mut big = vec![];
    let mut p = 1;
    while p <= cap {
        big.extend([p - 1, p, p + 1].iter().filter(|k| **k >= n && **k <= cap + 1));
        p *= 2;
    }
    big.dedup();
    let k = cx.choose(n + big.len());
    if k < n {
        k
    } else {
        big[k - n]
    }
}

/// Elementary values in a value of these types, arrays taken to hold two items.
pub fn leaves(ts: &[Ty]) -> usize {
    ts.iter()
        .map(|t| match t {
            Ty::Arr(t) => 2 * leaves(std::slice::from_ref(t)),
            Ty::FArr(t, n) => n * leaves(std::slice::from_ref(t)),
            Ty::Tup(ts) => leaves(ts),
            _ => 1,
        })
        .sum()
}
/// Fewer deviations for larger values: the number of executions stays proportionate.
pub fn moderate(cx: &mut Cx, ts: &[Ty]) {
    match leaves(ts) {
        0..=6 => {}
        7..=12 => cx.at_most(2),
        13..=300 => cx.at_most(1),
        _ => cx.at_most(0),
    }
}

pub fn show(ts: &[Ty], vs: &[Val]) -> String {
    let t = ts.iter().map(Ty::name).collect::<Vec<_>>().join(",");
    let v = vs.iter().map(Val::display).collect::<Vec<_>>().join(",");
    format!("({}) = ({})", t, clip(&v, 300))
}
pub fn names(ts: &[Ty]) -> String {
    ts.iter().map(Ty::name).collect::<Vec<_>>().join(",")
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1
    }
    format!("{}...[{} bytes]", &s[..i], s.len())
}

/// A tuple of up to `m` members, all of one type but for one of another type at any place, bare or
/// inside other types: whether and how a whole is dynamic depends on every part of it.
pub fn odd_member(cx: &mut Cx, m: usize) -> Ty {
    let n = 1 + cx.choose(m);
    let at = cx.choose(n + 1);
    let pairs = [
        (Ty::Bool, Ty::Str),
        (Ty::Str, Ty::Bool),
        (Ty::Uint(8), arr(Ty::Bool)),
        (Ty::FBytes(4), farr(Ty::Bytes, 2)),
        (farr(Ty::Int(16), 2), tup(&[Ty::Addr, arr(Ty::Addr)])),
        (tup(&[Ty::Bool]), farr(tup(&[Ty::Str]), 3)),
        (arr(Ty::Addr), farr(tup(&[Ty::Uint(256), Ty::Bool]), 2)),
    ];
    let pair = cx.pick(&pairs).clone();
    let ts: Vec<Ty> = (0..n).map(|i| if i == at { pair.1.clone() } else { pair.0.clone() }).collect();
    match cx.choose(5) {
        0 => tup(&ts),
        1 => farr(tup(&ts), 2),
        2 => tup(&[Ty::Bool, tup(&ts)]),
        3 => farr(farr(tup(&ts), 1), 1),
        _ => arr(tup(&ts)),
    }
}

/// What people write before and after numbers.
pub const BEFORE: &[&str] = &[
    "", "0x", "0X", "0b", "0o", "0d", "#", "$", "&h", "h'", "+", "-", "--", "-+", "+-", "- ", "0", "00", "-0", "1_", "1,", "1.", ".", "1e", "'", "\"", "(", "[", "{", "<", "~", "!", "0-", "1-", "1+", "2*", "1/", "n", "v", "u", "i", "uint ", "int ", "wei ", "\u{2212}", "=", "@",
];
pub const AFTER: &[&str] = &[
    "", "ether", " ether", "eth", "ETH", "gwei", " gwei", "wei", " wei", "finney", "szabo", "days", "seconds", "k", "K", "m", "M", "G", "Ki", "e", "E", "e0", "e1", "E1", "e18", "e+1", "e-0", ".", ".0", ".00", ".5", ",0", ",000", "_000", " 000", "'000", "u", "U", "n", "L", "l", "ul", "u8", "u64", "usize", "i256", "h", "H", "b", "d", "f", "px", "%", "\"", "'", ")", "]", "}", ">", "-", "+", "-0", "+0", "-1", "*1", "/1", "**2", "^2", "<<1", "..", "..2", ":1", ";", "//", "#", "!", "\u{b2}", "\\n",
];

pub const LONG: [[usize; 1]; 9] = [[16], [64], [100], [255], [256], [257], [1000], [4097], [70000]];

/// A long value of every type that holds one array or one byte string, for lengths of LONG.
pub fn long_vals(cx: &mut Cx, ts: &[Ty]) -> Option<Vec<Val>> {
    // how many arrays, byte strings and fixed arrays of more than two items there are
    fn count(t: &Ty) -> (usize, usize, usize) {
        match t {
            Ty::Arr(t) => {
                let c = count(t);
                (c.0 + 1, c.1, c.2)
            }
            Ty::FArr(t, n) => {
                let c = count(t);
                (c.0, c.1, c.2 + (*n > 2) as usize)
            }
            Ty::Tup(ts) => ts.iter().map(count).fold((0, 0, 0), |a, b| (a.0 + b.0, a.1 + b.1, a.2 + b.2)),
            Ty::Str | Ty::Bytes => (0, 1, 0),
            _ => (0, 0, 0),
        }
    }
    let (a, b, f) = ts.iter().map(count).fold((0, 0, 0), |a, b| (a.0 + b.0, a.1 + b.1, a.2 + b.2));
    if a + b == 0 || a > 1 || f > 0 || leaves(ts) > 4 {
        return None;
    }
    let mut g = Vg::new();
    g.extremes = false;
    g.lens = &[2];
    g.blens = &[5];
    let l = &LONG[cx.choose(LONG.len())];
    if a > 0 && (b == 0 || cx.flag()) {
        g.lens = l;
    } else {
        g.blens = l;
    }
    Some(g.vals(cx, ts))
}
