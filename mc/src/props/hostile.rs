//! C03 decoding is total and resource bounded; C04 decoding never misreads.
//!
//! The data is not enumerated up front: the reference decoder runs over a buffer whose words are
//! decided only when they are read, so the executions are exactly the distinct behaviours of a
//! decoder on buffers over the word alphabets.  The completed buffer is then given to the real
//! decoder.

use mc::alloc;
use mc::engine::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;

pub struct Lazy<'c> {
    cx: &'c mut Cx,
    pub buf: Vec<u8>,
    set: Vec<bool>,
    ctr: usize,
    rich: bool,
}

impl<'c> Lazy<'c> {
    pub fn new(cx: &'c mut Cx, len: usize, zero_fill: bool, rich: bool) -> Self {
        let buf = (0..len).map(|i| if zero_fill { 0 } else { 0xC0 | ((i * 7 + 3) % 61) as u8 }).collect();
        Lazy { cx, buf, set: vec![false; len], ctr: 0, rich }
    }
}

fn big(hi_byte: usize, low: usize) -> [u8; 32] {
    let mut w = word(low);
    w[hi_byte] |= 1;
    w
}

/// Numbers no in-memory data can satisfy.
fn absurd(low: usize) -> Vec<[u8; 32]> {
    let mut max = [0xff; 32];
    let mut top = word(low);
    top[0] = 0x80;
    let a = vec![
        word(1 << 31),
        word((1 << 32) - 1),
        word((1 << 32) - 32),
        word((1usize << 32) + low),
        word(usize::MAX),
        word(usize::MAX - 31),
        word((1usize << 63) + low),
        big(23, low), // 2^64 + low
        big(15, low), // 2^128 + low
        top,          // 2^255 + low
        {
            max[31] = 0xe0;
            max
        },
        [0xff; 32],
    ];
    a
}

impl<'c> Mem for Lazy<'c> {
    fn len(&self) -> usize {
        self.buf.len()
    }
    fn bytes(&self) -> &[u8] {
        &self.buf
    }
    fn touch(&mut self, pos: usize, base: usize, role: Role) {
        if self.set[pos..pos + 32].iter().any(|x| *x) {
            return; // overlaps a word already decided: the bytes are what they are
        }
        self.ctr += 1;
        let room = self.buf.len().saturating_sub(base); // bytes from the frame to the end
        let w: [u8; 32] = match role {
            Role::Offset => {
                let aligned = room / 32 + 1;
                let mut odd = vec![1, 31, 33, room.saturating_sub(31), room.saturating_sub(33), room + 1, room + 32];
                if !self.rich {
                    odd.truncate(4);
                    odd.push(room + 1);
                }
                let ab = absurd(32);
                let nab = if self.rich { ab.len() } else { 4 };
                let k = self.cx.choose2(aligned, odd.len() + nab);
                if k < aligned {
                    word(32 * k)
                } else if k < aligned + odd.len() {
                    word(odd[k - aligned])
                } else {
                    ab[(k - aligned - odd.len()) * ab.len() / nab]
                }
            }
            Role::Len => {
                let small = [1, 0, 2, 3];
                let odd = [31, 32, 33, room, room + 1, room.saturating_sub(1), room / 32, room / 32 + 1];
                let ab = absurd(1);
                let nab = if self.rich { ab.len() } else { 4 };
                let k = self.cx.choose2(small.len(), odd.len() + nab);
                if k < small.len() {
                    word(small[k])
                } else if k < small.len() + odd.len() {
                    word(odd[k - small.len()])
                } else {
                    ab[(k - small.len() - odd.len()) * ab.len() / nab]
                }
            }
            Role::Bool => {
                let k = self.cx.choose2(2, 7);
                match k {
                    0 => word(1),
                    1 => word(0),
                    2 => word(2),
                    3 => word(255),
                    4 => word(256),
                    5 => word(257),
                    6 => big(0, 1),
                    7 => word(0x80),
                    _ => [0xff; 32],
                }
            }
            Role::Scalar => match self.cx.deviate(3) {
                0 => {
                    let mut w = [0; 32];
                    for (i, x) in w.iter_mut().enumerate() {
                        *x = ((self.ctr * 41 + i * 13) % 251 + 2) as u8
                    }
                    w
                }
                1 => word(self.ctr),
                _ => {
                    // a left-aligned short value: clean as bytesN
                    let mut w = [0; 32];
                    w[0] = self.ctr as u8 | 0x40;
                    w
                }
            },
        };
        self.buf[pos..pos + 32].copy_from_slice(&w);
        self.set[pos..pos + 32].iter_mut().for_each(|x| *x = true);
    }
}

fn run(cx: &mut Cx, ts: &[Ty], len: usize, zero: bool, rich: bool, mode: Mode) -> Res {
    let buf = {
        let mut m = Lazy::new(cx, len, zero, rich);
        decode_mem(ts, &mut m);
        m.buf
    };
    // judged on the completed buffer: a word decided late may overlap a payload read early
    let mut m: &[u8] = &buf;
    let (exp, work) = decode_mem(ts, &mut m);
    check_data(cx, ts, &buf, exp, work, mode)
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// total and bounded
    Total,
    /// verdict and value
    Exact,
}

fn check_data(cx: &mut Cx, ts: &[Ty], buf: &[u8], exp: Expect, work: usize, mode: Mode) -> Res {
    let pts = reals(ts);
    let what = || format!("decode ({}) from {}", names(ts), clip(&hexs(buf), 1600));
    cx.state(&[names(ts).as_bytes(), buf]);
    cx.sample(what);
    let (r, used) = alloc::measure(|| cx.guard(|| ethabi::decode(&pts, buf)));
    let r = match r {
        Err(m) => return Err(format!("{}: {}", what(), m)),
        Ok(r) => r,
    };
    match mode {
        Mode::Total => {
            cx.outcome(if r.is_ok() { "returned Ok" } else { "returned Err" });
            // generous: a fixed allowance plus a multiple of what following the data really needs
            let cap = (64 << 10) + 64 * buf.len() + 1024 * work;
            if used.peak > cap || used.biggest > cap {
                return Err(format!("{}: {} bytes allocated (largest request {}), allowance {}", what(), used.peak, used.biggest, cap));
            }
            Ok(())
        }
        Mode::Exact => {
            let got = r.map(|v| vals(&v)).map_err(|e| e.to_string());
            match judge(&exp, &got) {
                Ok(o) => {
                    cx.outcome(o);
                    Ok(())
                }
                Err(m) => Err(format!("{}: {}", what(), m)),
            }
        }
    }
}

fn length(cx: &mut Cx, max_words: usize) -> usize {
    let w = cx.choose(max_words + 1);
    let r = [0, 1, 31][cx.choose(3)];
    32 * w + r
}

fn spaces(t: Tier, mode: Mode) -> Vec<Space> {
    let mut v = vec![];
    let kinds = vec![Ty::Uint(256), Ty::Bytes, Ty::Bool, Ty::Str, Ty::Addr, Ty::FBytes(3), Ty::FBytes(32), Ty::Int(16)];
    let k = kinds.clone();
    // short type lists, full alphabets
    let (n, w, d) = t.pick((2, 6, 3), (2, 8, 4));
    v.push(space("small-rich", d, move |cx| {
        let ts = tys_upto(cx, n, true, &k, &[2, 1]);
        let len = length(cx, w);
        let zero = cx.flag();
        run(cx, &ts, len, zero, true, mode)
    }));
    // three nodes
    let (w, d) = t.pick((6, 2), (8, 2));
    let k: Vec<Ty> = t.pick(kinds[..4].to_vec(), kinds.clone());
    v.push(space("three-nodes", d, move |cx| {
        let ts = tys(cx, 3, &k, &[2, 1]);
        let len = length(cx, w);
        let zero = cx.flag();
        run(cx, &ts, len, zero, true, mode)
    }));
    // four nodes, two leaves, whole words only
    let (w, d) = t.pick((6, 1), (8, 2));
    v.push(space("four-nodes", d, move |cx| {
        let ts = tys(cx, 4, &[Ty::Bytes, Ty::Uint(256)], &[2]);
        let len = 32 * cx.choose(w + 1);
        let zero = cx.flag();
        run(cx, &ts, len, zero, false, mode)
    }));
    // valid encodings with one or two words overwritten, cut short or extended
    let (n, d) = t.pick((4, 1), (5, 1));
    v.push(space("mutated-encodings", d, move |cx| {
        let ts = tys_upto(cx, n, false, &[Ty::Uint(256), Ty::Bytes, Ty::Bool], &[2, 1]);
        let mut g = Vg::new();
        g.extremes = false;
        g.blens = &[3, 0, 32];
        let vs = g.vals(cx, &ts);
        let mut b = encode(&ts, &vs);
        let nw = b.len() / 32;
        match cx.choose(4) {
            0 => {
                // overwrite one word
                let i = cx.choose(nw);
                let ab = absurd(32);
                let alphabet = [0, 1, 2, 31, 32, 33, 64, 96, b.len() - 32, b.len() - 31, b.len(), b.len() + 1];
                let k = cx.choose(alphabet.len() + ab.len());
                let w = if k < alphabet.len() { word(alphabet[k]) } else { ab[k - alphabet.len()] };
                b[32 * i..32 * i + 32].copy_from_slice(&w);
            }
            1 => {
                // cut at every word boundary and next to it
                let i = cx.choose(nw + 1);
                let l = match cx.choose(3) {
                    0 => 32 * i,
                    1 => 32 * i + 1,
                    _ => (32 * i).saturating_sub(1),
                };
                b.truncate(l);
            }
            2 => {
                // trailing bytes
                let extra = [1, 31, 32, 64, 1000][cx.choose(5)];
                let fill = [0u8, 0xff, 0xa5][cx.choose(3)];
                b.extend(vec![fill; extra]);
            }
            _ => {
                // flip one bit of every byte position class of a word
                let i = cx.choose(nw);
                let p = [0, 11, 12, 23, 24, 27, 28, 30, 31][cx.choose(9)];
                let bit = [0x01, 0x80][cx.choose(2)];
                b[32 * i + p] ^= bit;
            }
        }
        let mut m: &[u8] = &b;
        let (e, w) = decode_mem(&ts, &mut m);
        check_data(cx, &ts, &b, e, w, mode)
    }));
    const DEEP: [usize; 13] = [50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 198, 199];
    // types nested deep: whole, cut short, or with a word no data can satisfy
    let depth = t.pick(45, 120);
    v.push(space("deep-chains", 0, move |cx| {
        // every depth to `depth`, a few beyond it
        let k = cx.choose(depth + DEEP.len());
        let n = if k < depth { k } else { DEEP[k - depth] };
        let how = cx.choose(6);
        let leaf = cx.pick(&[Ty::Uint(256), Ty::Bytes, Ty::Bool]).clone();
        let ts = vec![super::codec::chain(leaf, n, how), Ty::Bool];
        let mut g = Vg::new();
        g.lens = &[1];
        g.blens = &[3];
        g.extremes = false;
        let vs = g.vals(cx, &ts);
        let mut b = encode(&ts, &vs);
        let nw = b.len() / 32;
        let at = |cx: &mut Cx| {
            let i = cx.choose(if k < depth { nw } else { nw.min(12) });
            if k < depth || i < 6 { i } else { nw - 1 - (i - 6) * (nw - 6) / 6 }
        };
        match cx.choose(3) {
            0 => {}
            1 => {
                let i = at(cx);
                b.truncate(32 * i);
            }
            _ => {
                let i = at(cx);
                let ab = absurd(32);
                let w = cx.pick(&[ab[0], ab[1], ab[11], word(b.len()), word(b.len() - 32)]).clone();
                b[32 * i..32 * i + 32].copy_from_slice(&w);
            }
        }
        if k >= depth || n == 1 {
            let p = reals(&ts);
            cx.guard_small(|| ethabi::decode(&p, &b).is_ok()).map_err(|m| format!("decode ({}) {}: {}", clip(&names(&ts), 300), clip(&hexs(&b), 600), m))?;
        }
        let mut m: &[u8] = &b;
        let (e, w) = decode_mem(&ts, &mut m);
        check_data(cx, &ts, &b, e, w, mode)
    }));
    // data larger than a narrow counter: the tail of the second argument starts beyond `gap` bytes
    v.push(space("far-tails", 0, move |cx| {
        let gap = *cx.pick(&[0usize, 64, 96, 128, 192, 224, 256, 4096, 32736, 32768, 65472, 65504, 65536, 65568, 131072, (1 << 20) - 32, 1 << 20, (1 << 20) + 32, 1 << 24]);
        let k = cx.choose(5);
        let (ty, x) = [
            (Ty::Bytes, Val::Bytes(vec![0xa7; 5])),
            (Ty::Str, Val::Str("text".into())),
            (arr(Ty::Uint(256)), Val::Arr(vec![Val::Uint(word(3)), Val::Uint(word(4))])),
            (farr(Ty::Str, 2), Val::FArr(vec![Val::Str("a".into()), Val::Str("bc".into())])),
            (tup(&[Ty::Bool, Ty::Bytes]), Val::Tup(vec![Val::Bool(true), Val::Bytes(vec![1])])),
        ][k]
            .clone();
        let ts = vec![Ty::Uint(256), ty.clone()];
        let mut b = word(9).to_vec();
        let tail = {
            let e = encode(&[ty], &[x]);
            e[32..].to_vec()
        };
        let off = 64 + gap;
        // the offset word, right or wrong by a little
        let o = match cx.choose(8) {
            0 => word(off),
            1 => word(off + 32),
            2 => word(off + 1),
            3 => word(off + tail.len()),
            4 => word(off - 32),
            5 => word(off % 65536),
            6 => word(off % 256),
            _ => word(off + (1 << 32)),
        };
        b.extend(o);
        b.extend(vec![0u8; gap]);
        let at = b.len();
        b.extend(&tail);
        match cx.choose(5) {
            0 => {}
            1 => {
                b.pop();
            }
            2 => {
                b.truncate(b.len() - 32);
            }
            3 => b.extend([0xee; 33]),
            _ => {
                // the length (or first member) word
                let w = [word(0), word(1), word(31), word(33), word(65536), word(65541), word((1 << 32) + 2), word(b.len())][cx.choose(8)];
                b[at..at + 32].copy_from_slice(&w);
            }
        }
        let mut m: &[u8] = &b;
        let (e, w) = decode_mem(&ts, &mut m);
        check_data(cx, &ts, &b, e, w, mode)
    }));
    // long arrays and byte strings: announced length against present items
    let mut ls: Vec<usize> = (0..t.pick(70, 140)).collect();
    ls.extend([127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 65535, 65536, 65537]);
    v.push(space("announced-lengths", 0, move |cx| {
        let n = *cx.pick(&ls);
        let k = cx.choose(5);
        let (item, size): (Ty, usize) = [(Ty::Uint(256), 32), (Ty::Bool, 32), (tup(&[Ty::Addr, Ty::Uint(8)]), 64), (farr(Ty::FBytes(4), 3), 96), (Ty::Bytes, 0)][k].clone();
        // k == 4: a byte string of n bytes; otherwise n items
        let ts = if k == 4 { vec![Ty::Bytes, Ty::Bool] } else { vec![arr(item), Ty::Bool] };
        let body = if k == 4 { n } else { n * size };
        let mut b = word(64).to_vec();
        b.extend(word(1));
        b.extend(word(match cx.choose(7) {
            0 => n,
            1 => n + 1,
            2 => n.saturating_sub(1),
            3 => n + 256,
            4 => n + 65536,
            5 => n + (1 << 32),
            _ => 2 * n + 2,
        }));
        b.extend(vec![if k == 1 { 0u8 } else { 0x11 }; body]);
        match cx.choose(4) {
            0 => b.resize(b.len() + (32 - body % 32) % 32, 0),
            1 => {}
            2 => {
                b.pop();
            }
            _ => b.resize(b.len() + (32 - body % 32) % 32 + 32, 0),
        }
        let mut m: &[u8] = &b;
        let (e, w) = decode_mem(&ts, &mut m);
        check_data(cx, &ts, &b, e, w, mode)
    }));
    // every position of a long argument list damaged
    let a = t.pick(24, 48);
    v.push(space("late-arguments", 0, move |cx| {
        let n = 1 + cx.choose(a);
        let at = cx.choose(n);
        let kinds = [Ty::Bool, Ty::Bytes, arr(Ty::Bool), tup(&[Ty::Bool, Ty::Str]), farr(Ty::Bool, 2)];
        let r = cx.choose(5);
        let ts: Vec<Ty> = (0..n).map(|i| if i == at { kinds[r].clone() } else { kinds[(i * 2 + r) % 5].clone() }).collect();
        let mut g = Vg::new();
        g.extremes = false;
        let vs = g.vals(cx, &ts);
        let wrap = cx.flag();
        let (ts, mut b) = if wrap {
            let (t, v) = (vec![arr(tup(&ts))], vec![Val::Arr(vec![Val::Tup(vs.clone()), Val::Tup(vs)])]);
            let b = encode(&t, &v);
            (t, b)
        } else {
            let b = encode(&ts, &vs);
            (ts, b)
        };
        // damage a head word of the outermost frame that holds the arguments
        let head = if wrap { 4 } else { 0 };
        let i = 32 * (head + at + cx.choose(2));
        if i + 32 <= b.len() {
            let w = [word(2), word(b.len()), word(b.len() - 31), [0xff; 32], word(0), word(1 << 40)][cx.choose(6)];
            b[i..i + 32].copy_from_slice(&w);
        }
        let mut m: &[u8] = &b;
        let (e, w) = decode_mem(&ts, &mut m);
        check_data(cx, &ts, &b, e, w, mode)
    }));
    // every single bit of a valid encoding flipped
    v.push(space("bit-flips", 0, move |cx| {
        let n = 1 + cx.choose(3);
        let ts = tys(cx, n, &[Ty::Uint(256), Ty::Bytes, Ty::Bool, Ty::Addr, Ty::FBytes(5)], &[2]);
        let mut g = Vg::new();
        g.extremes = false;
        g.blens = &[3];
        let vs = g.vals(cx, &ts);
        let mut b = encode(&ts, &vs);
        let nb = t.pick(b.len().min(224), b.len());
        let i = cx.choose(nb);
        b[i] ^= 1 << cx.choose(8);
        let mut m: &[u8] = &b;
        let (e, w) = decode_mem(&ts, &mut m);
        check_data(cx, &ts, &b, e, w, mode)
    }));
    // strings that something could take for something else, whole or cut, next to another
    v.push(space("odd-strings", 0, move |cx| {
        let i = cx.choose(STRINGS.len());
        let mut s = STRINGS[i].to_string();
        match cx.choose(4) {
            0 => {}
            1 => s.insert_str(0, "ab"),
            2 => s.push_str("ab"),
            _ => s = format!("{}{}", s, STRINGS[cx.choose(STRINGS.len())]),
        }
        let (ts, vs) = match cx.choose(4) {
            0 => (vec![Ty::Str], vec![Val::Str(s)]),
            1 => (vec![Ty::Str, Ty::Str], vec![Val::Str("ab".into()), Val::Str(s)]),
            2 => (vec![arr(Ty::Str)], vec![Val::Arr(vec![Val::Str(s.clone()), Val::Str(s)])]),
            _ => (vec![tup(&[Ty::Bool, Ty::Str])], vec![Val::Tup(vec![Val::Bool(true), Val::Str(s)])]),
        };
        let b = encode(&ts, &vs);
        let mut m: &[u8] = &b;
        let (e, w) = decode_mem(&ts, &mut m);
        check_data(cx, &ts, &b, e, w, mode)
    }));
    // strings whose bytes are not UTF-8
    v.push(space("utf8", 0, move |cx| {
        let n = cx.choose(t.pick(5, 6));
        let al = [b'a', 0x80, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0xff, 0x00, b'\r', b'\n', b' ', 0xef, 0xbb, 0xbf, 0xed, 0xa0, 0x9f, 0xc0];
        let s: Vec<u8> = (0..n).map(|_| *cx.pick(&al)).collect();
        let inner = cx.flag();
        let mut b = vec![];
        let ts = if inner { vec![arr(Ty::Str)] } else { vec![Ty::Str] };
        b.extend(word(32));
        if inner {
            b.extend(word(1));
            b.extend(word(32));
        }
        b.extend(word(s.len()));
        b.extend(&s);
        b.resize(b.len() + cx.choose(2) * (32 - s.len()), 0);
        let mut m: &[u8] = &b;
        let (e, w) = decode_mem(&ts, &mut m);
        check_data(cx, &ts, &b, e, w, mode)
    }));
    v
}

pub fn c03(t: Tier) -> Vec<Space> {
    let mut v = spaces(t, Mode::Total);
    // nesting: self-referential offsets and long lengths on deep array types
    let depth = t.pick(4, 5);
    v.push(space("nested-loops", 1, move |cx| {
        let mut ty = cx.pick(&[Ty::Uint(256), Ty::Bytes]).clone();
        let n = 1 + cx.choose(depth);
        for _ in 0..n {
            ty = if cx.flag() { arr(ty) } else { farr(ty, 2) };
        }
        let len = 32 * (1 + cx.choose(4));
        run(cx, &[ty], len, false, false, Mode::Total)
    }));
    v
}

pub fn c04(t: Tier) -> Vec<Space> {
    spaces(t, Mode::Exact)
}
