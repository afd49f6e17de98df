//! C20 encoding and C21 decoding on the command line.
//!
//! Every execution spawns the real `ethabi` binary (built from /repo's working tree) on a complete
//! argument vector and ABI files in a scratch directory, and compares exit status and standard
//! output with the model.

use super::text::{parse as parse_text, Text};
use mc::abi::{op_json, MEv, MFn, MParam, Op, J, MUT};
use mc::engine::*;
use mc::ev::*;
use mc::gen::*;
use mc::model::*;
use mc::runner::Tier;
use std::collections::HashMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex, OnceLock};

// ---- running ----------------------------------------------------------------------------------

struct Cli {
    bin: PathBuf,
    dir: PathBuf,
    files: Mutex<HashMap<Vec<u8>, String>>,
}

fn cli() -> &'static Cli {
    static C: OnceLock<Cli> = OnceLock::new();
    C.get_or_init(|| {
        let bin = PathBuf::from(std::env::var("MC_CLI").expect("MC_CLI names the ethabi binary"));
        assert!(bin.is_file(), "no such binary: {}", bin.display());
        let dir = match std::env::var("MC_SCRATCH") {
            Ok(d) => PathBuf::from(d),
            Err(_) => std::env::temp_dir().join(format!("mc-cli-{}", std::process::id())),
        };
        let dir = dir.join("cli");
        std::fs::create_dir_all(dir.join("adir")).unwrap();
        Cli { bin, dir, files: Mutex::new(HashMap::new()) }
    })
}

/// A scratch file with this content.
fn file(content: &[u8]) -> String {
    let c = cli();
    let mut m = c.files.lock().unwrap();
    if let Some(p) = m.get(content) {
        return p.clone();
    }
    let p = c.dir.join(format!("{}-{}.abi", std::process::id(), m.len())).to_str().unwrap().to_string();
    std::fs::write(&p, content).unwrap();
    m.insert(content.to_vec(), p.clone());
    p
}

/// What an invocation has to do.
#[derive(Clone, Debug)]
enum Want {
    /// print exactly this and succeed
    Print(String),
    /// print exactly one of these and succeed, or fail
    Maybe(Vec<String>),
    Fail,
    /// unspecified, but no crash
    Any,
}

fn check(cx: &mut Cx, args: &[String], want: Want) -> Res {
    let args: Vec<&OsStr> = args.iter().map(OsStr::new).collect();
    check_os(cx, &args, want)
}

/// Arguments need not be text.
fn check_os(cx: &mut Cx, args: &[&OsStr], want: Want) -> Res {
    let c = cli();
    let line = || clip(&format!("ethabi {}", args.iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>().join(" ")), 900);
    let parts: Vec<&[u8]> = args.iter().map(|a| a.as_bytes()).collect();
    cx.state(&parts);
    cx.sample(|| format!("{} => {}", line(), clip(&format!("{:?}", want), 150)));
    cx.runs += 1;
    let mut tries = 0;
    let o = loop {
        let r = Command::new(&c.bin)
            .args(args)
            .env_clear()
            .env("RUST_BACKTRACE", "0")
            .current_dir(&c.dir)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .output();
        match r {
            Ok(o) => break o,
            // no processes or memory to spare: not the program's doing
            Err(e) => {
                tries += 1;
                assert!(tries < 50, "cannot run {}: {}", c.bin.display(), e);
                std::thread::sleep(std::time::Duration::from_millis(100));
            }
        }
    };
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let ok = match o.status.code() {
        Some(0) => true,
        Some(101) => return Err(format!("{}: crashed: {}", line(), clip(&err, 400))),
        Some(_) => {
            if !out.is_empty() {
                return Err(format!("{}: failed, but printed {:?}", line(), clip(&out, 300)));
            }
            false
        }
        None => return Err(format!("{}: died: {:?} {}", line(), o.status, clip(&err, 300))),
    };
    match want {
        Want::Print(w) => {
            if !ok {
                return Err(format!("{}: failed ({}), should print {:?}", line(), clip(&err, 300), clip(&w, 400)));
            }
            if out != w {
                return Err(format!("{}: printed {:?}, should print {:?}", line(), clip(&out, 700), clip(&w, 700)));
            }
            cx.outcome("printed")
        }
        Want::Maybe(ws) => {
            if ok && !ws.contains(&out) {
                return Err(format!("{}: printed {:?}, may print {:?}", line(), clip(&out, 700), ws));
            }
            cx.outcome("unspecified")
        }
        Want::Fail => {
            if ok {
                return Err(format!("{}: succeeded with {:?}, should fail", line(), clip(&out, 500)));
            }
            cx.outcome("refused")
        }
        Want::Any => cx.outcome("unspecified"),
    }
    Ok(())
}

/// A successful invocation of which nothing can be printed must not claim success.
fn lost_output(cx: &mut Cx, args: &[String]) -> Res {
    let c = cli();
    let line = format!("ethabi {} >/dev/full", args.join(" "));
    cx.state(&[line.as_bytes()]);
    cx.sample(|| line.clone());
    cx.runs += 1;
    let full = match std::fs::OpenOptions::new().write(true).open("/dev/full") {
        Ok(f) => f,
        Err(_) => return cx.prune(),
    };
    let s = Command::new(&c.bin).args(args).env_clear().current_dir(&c.dir).stdin(Stdio::null()).stdout(full).stderr(Stdio::null()).status();
    match s {
        Ok(s) if s.code() == Some(0) => Err(format!("{}: reports success", line)),
        Ok(_) => {
            cx.outcome("refused");
            Ok(())
        }
        Err(_) => cx.prune(),
    }
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// Well-formed invocations with something that is not text in one argument.
fn not_text(cx: &mut Cx, lines: &[&[&str]]) -> Res {
    let abi = file(br#"[{"type":"function","name":"f","inputs":[{"name":"a","type":"string"}],"outputs":[{"name":"","type":"bool"}]},{"type":"event","name":"e","anonymous":true,"inputs":[{"name":"a","type":"bool","indexed":true}]}]"#);
    let line = *cx.pick(lines);
    let mut args: Vec<Vec<u8>> = line.iter().map(|a| if *a == "ABI" { abi.as_bytes().to_vec() } else { a.as_bytes().to_vec() }).collect();
    let i = cx.choose(args.len() + 1);
    let junk: &[u8] = *cx.pick(&[&b"\xff"[..], b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xc0\xaf"]);
    let how = cx.choose(4);
    if i == args.len() {
        // unchanged: the line is a good one
        if how > 0 || junk != b"\xff" {
            return cx.prune();
        }
        let o = Command::new(&cli().bin).args(args.iter().map(|a| OsStr::from_bytes(a))).env_clear().stdin(Stdio::null()).output();
        return match o {
            Ok(o) if o.status.success() => Ok(()),
            o => Err(format!("{:?} fails: {:?}", line, o)),
        };
    }
    let a = &mut args[i];
    let at = match how {
        0 => a.len(),
        1 => 0,
        2 => a.len() / 2,
        _ => {
            a.clear();
            0
        }
    };
    a.splice(at..at, junk.iter().copied());
    let args: Vec<&OsStr> = args.iter().map(|a| OsStr::from_bytes(a)).collect();
    check_os(cx, &args, Want::Fail)
}

/// Type names nested too deeply for a recursive reader without a limit.
fn bottomless(cx: &mut Cx, how: usize) -> Res {
    let k = *cx.pick(&[1000usize, 10_000, 43_000, 100_000]);
    let name = match cx.choose(4) {
        0 => format!("bool{}", "[]".repeat(k)),
        1 => format!("bool{}", "[1]".repeat(k)),
        2 => format!("{}bool{}", "(".repeat(k), ")".repeat(k)),
        _ => format!("x{}", "[]".repeat(k)),
    };
    // a single argument cannot be longer
    let inline = cx.flag();
    if inline && name.len() > 131_000 {
        return cx.prune();
    }
    let abi = || {
        file(format!(r#"[{{"type":"function","name":"f","inputs":[{{"name":"a","type":"{0}"}}],"outputs":[{{"name":"","type":"{0}"}}]}},{{"type":"event","name":"e","anonymous":true,"inputs":[{{"name":"a","type":"{0}","indexed":false}}]}}]"#, name).as_bytes())
    };
    let args = match (how, inline) {
        (20, true) => strs(&["encode", "params", "-v", &name, "x"]),
        (20, false) => strs(&["encode", "function", &abi(), "f", "-p", "x"]),
        (_, true) => strs(&["decode", "params", "-t", &name, "00"]),
        (_, false) if cx.flag() => strs(&["decode", "log", &abi(), "e", "00"]),
        (_, false) => strs(&["decode", "function", &abi(), "f", "00"]),
    };
    check(cx, &args, Want::Fail)
}

// ---- textual values ---------------------------------------------------------------------------

fn w64(n: u64) -> String {
    format!("{:064x}", n)
}

/// Values offered for a type: spellings of values and strings that spell none.
fn offers(t: &Ty) -> Vec<String> {
    let mut v: Vec<String> = match t {
        Ty::Addr => strs(&["1111222233334444555566667777888899990000", "ABCDEFabcdef4444555566667777888899990000", "11112222", "", "zz112222333344445555666677778888999900000", "-1"]),
        Ty::Bool => strs(&["true", "false", "1", "0", "2", "True", "", "-1", "true "]),
        Ty::Uint(_) => {
            let mut v = vec![w64(5), "ff".repeat(32), "0".repeat(63), "0".repeat(65)];
            v.extend(strs(&["7", "0", "-1", "1e3", "0x7", "ff", "", " 7", "115792089237316195423570985008687907853269984665640564039457584007913129639935"]));
            v.extend(strs(&["115792089237316195423570985008687907853269984665640564039457584007913129639936"]));
            v
        }
        Ty::Int(_) => {
            let mut v = vec![w64(5), "ff".repeat(32), "0".repeat(63)];
            v.extend(strs(&["7", "-7", "-0", "--7", "-", "+7", "7-", "ff", "57896044618658097711785492504343953926634992332820282019728792003956564819968", "-57896044618658097711785492504343953926634992332820282019728792003956564819968", "-57896044618658097711785492504343953926634992332820282019728792003956564819969"]));
            v
        }
        Ty::Bytes => strs(&["deadbeef", "", "DEADbeef01", "abc", "xy", "-1", "0xab"]),
        Ty::FBytes(n) => vec!["a7".repeat(*n), "A7".repeat(*n), "a7".repeat(n - 1), "a7".repeat(n + 1), "".into(), "q".repeat(2 * n)],
        Ty::Str => strs(&["gav", "", "-v", "--lenient", "-l", "--", "a b", "\u{e9}\u{20ac}", "[1,2]", "\"q\"", "--help", "-p", "=x", "a\nb"]),
        Ty::Arr(t) | Ty::FArr(t, _) => {
            let o = offers(t);
            let (a, b) = (&o[0], &o[1]);
            vec![
                format!("[{},{}]", a, b),
                format!("[{}]", a),
                "[]".into(),
                format!("[{},{},{}]", b, a, b),
                format!("[{},{}", a, b),
                format!("{},{}]", a, b),
                format!("{},{}", a, b),
                format!("[{},{}]", a, o[o.len() - 1]),
                format!("[{},,{}]", a, b),
                format!("({},{})", a, b),
                "".into(),
                "-1".into(),
            ]
        }
        Ty::Tup(ts) => {
            let pick = |k: usize| ts.iter().map(|t| offers(t)[k].clone()).collect::<Vec<_>>();
            let full = pick(0);
            let mut more = full.clone();
            more.push("1".into());
            vec![
                format!("({})", full.join(",")),
                format!("({})", pick(1).join(",")),
                format!("({})", full[..full.len() - 1].join(",")),
                format!("({})", more.join(",")),
                format!("[{}]", full.join(",")),
                full.join(","),
                format!("({}", full.join(",")),
                "()".into(),
            ]
        }
    };
    v.dedup();
    v
}

fn types() -> Vec<Ty> {
    vec![
        Ty::Uint(256),
        Ty::Int(256),
        Ty::Bool,
        Ty::Str,
        Ty::Bytes,
        Ty::Addr,
        Ty::FBytes(4),
        Ty::FBytes(32),
        Ty::Uint(8),
        Ty::Int(64),
        arr(Ty::Bool),
        arr(Ty::Uint(256)),
        farr(Ty::Int(256), 2),
        arr(Ty::Str),
        farr(Ty::Bytes, 2),
        arr(arr(Ty::Bool)),
        tup(&[Ty::Bool, Ty::Str]),
        tup(&[Ty::Uint(256), arr(Ty::Bool), Ty::Addr]),
        arr(tup(&[Ty::Bool, Ty::Bytes])),
    ]
}

/// Names that are no types, or aliases of types.
const NAMES: [&str; 12] = ["uint", "int", "uint[]", "foo", "", "uint256[", "bool]", "(bool", "string,bool", "Bool", "uint256 ", "-l"];

#[derive(Clone)]
struct Pair {
    ty: String,
    value: String,
}

fn pairs() -> Vec<Pair> {
    let mut v = vec![];
    for t in types() {
        for o in offers(&t) {
            v.push(Pair { ty: t.name(), value: o });
        }
    }
    for n in NAMES {
        for o in ["7", "-7", &w64(7), "[7]", "true"] {
            v.push(Pair { ty: n.into(), value: o.into() });
        }
    }
    v
}

/// A short list with a success, a failure and a leniently-only readable value per shape.
fn few() -> Vec<Pair> {
    let q = |t: &str, v: &str| Pair { ty: t.into(), value: v.into() };
    vec![
        q("bool", "1"),
        q("string", "gavofyork"),
        q("uint256", "7"),
        q("int256", "-7"),
        q("bytes", "deadbeef01"),
        q("uint256[]", &format!("[{},{}]", w64(1), w64(2))),
        q("bool", "2"),
        q("int8", &"ff".repeat(32)),
        q("address", "1111222233334444555566667777888899990000"),
        q("bytes3", "a1b2c3"),
        q("string[2]", "[a,\"b,c\"]"),
        q("(bool,bytes)", "(1,ab)"),
        q("bytes", "abc"),
        q("string", "-l"),
        q("foo", "1"),
        q("uint", &w64(9)),
    ]
}

const FLAGS: [(usize, &str); 5] = [(0, ""), (2, "-l"), (1, "-l"), (2, "--lenient"), (1, "--lenient")];

fn encoded(prefix: &[u8], ts: &[Ty], values: &[String], lenient: bool) -> Want {
    let mut vs = vec![];
    let mut any = false;
    for (t, v) in ts.iter().zip(values) {
        match parse_text(t, v, lenient) {
            Text::Must(v) => vs.push(v),
            Text::May => any = true,
            Text::Reject => return Want::Fail,
        }
    }
    if any {
        return Want::Any;
    }
    Want::Print(format!("{}{}\n", hexs(prefix), hexs(&encode(ts, &vs))))
}

fn encode_params(cx: &mut Cx, ps: &[Pair], nflags: usize) -> Res {
    let (place, flag) = FLAGS[cx.choose(nflags)];
    let mut args = strs(&["encode", "params"]);
    if place == 1 {
        args.push(flag.into());
    }
    for p in ps {
        args.extend([String::from("-v"), p.ty.clone(), p.value.clone()]);
    }
    if place == 2 {
        args.push(flag.into());
    }
    let mut ts = vec![];
    let mut any = false;
    for p in ps {
        match parse_name(&p.ty) {
            Named::Must(t) => ts.push(t),
            Named::May(_) => any = true,
            Named::Reject => return check(cx, &args, Want::Fail),
        }
    }
    let want = if any { Want::Any } else { encoded(&[], &ts, &ps.iter().map(|p| p.value.clone()).collect::<Vec<_>>(), place > 0) };
    check(cx, &args, want)
}

// ---- ABI files --------------------------------------------------------------------------------

fn func(name: &str, ins: &[Ty], outs: &[Ty]) -> MFn {
    let ps = |v: &[Ty], x: &str| {
        v.iter().enumerate().map(|(i, t)| MParam { name: if i == 1 { "".into() } else { format!("{}{}", x, i) }, ty: t.clone(), internal: None }).collect()
    };
    MFn { name: name.into(), ins: ps(ins, "a"), outs: ps(outs, "r"), constant: false, mutability: MUT[2] }
}
fn tys_of(p: &[MParam]) -> Vec<Ty> {
    p.iter().map(|x| x.ty.clone()).collect()
}
fn full_sig(f: &MFn) -> String {
    let s = signature(&f.name, &tys_of(&f.ins));
    if f.outs.is_empty() {
        s
    } else {
        format!("{}:({})", s, names(&tys_of(&f.outs)))
    }
}

fn fns() -> Vec<MFn> {
    vec![
        func("foo", &[Ty::Bool], &[]),
        func("foo", &[Ty::Str], &[Ty::Uint(256)]),
        func("foo", &[Ty::Uint(256), Ty::Int(256)], &[Ty::Bool, Ty::Str]),
        func("foo", &[], &[arr(Ty::Uint(256)), Ty::Bytes]),
        func("foo", &[Ty::Bool], &[Ty::Bool]),
        func("Foo", &[Ty::Bool], &[Ty::Addr]),
        func("fo", &[tup(&[Ty::Bool, Ty::Str])], &[tup(&[Ty::Uint(8), arr(Ty::Str)])]),
        func("bar", &[Ty::Bytes, arr(Ty::Str), Ty::FBytes(4)], &[Ty::FBytes(4), farr(Ty::Int(256), 2)]),
        func("bar", &[Ty::Int(256)], &[]),
        func("foo_bar", &[Ty::Uint(256)], &[Ty::Uint(256)]),
    ]
}

fn document(ops: &[Op]) -> String {
    J::Arr(ops.iter().map(op_json).collect()).text()
}

/// How the user names a function: text, and the functions it may select with whether it has to.
fn selectors(decl: &[MFn]) -> Vec<String> {
    let mut v = strs(&["foo", "bar", "Foo", "nope", "", "nope(bool)", "foo(", "foo()", "foo(bool", "(bool)", "E", "foo(uint)", "foo(bool)"]);
    for f in decl {
        let full = full_sig(f);
        v.push(f.name.clone());
        v.push(format!("{} ", f.name));
        v.push(full.replace(',', ", "));
        v.push(full.replacen('(', " (", 1));
        // letters matter
        v.push(full.to_uppercase());
        if let Some(at) = full.find('(') {
            v.push(format!("{}{}", f.name, full[at..].to_uppercase()));
        }
        v.push(signature(&f.name, &tys_of(&f.ins)));
        v.push(format!("{}:()", signature(&f.name, &tys_of(&f.ins))));
        v.push(full);
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

enum Sel<'a, T> {
    One(&'a T),
    /// refused, or one of these
    Maybe(Vec<&'a T>),
    None,
}

fn select<'a>(decl: &'a [MFn], s: &str) -> Sel<'a, MFn> {
    if !s.contains('(') {
        let v: Vec<_> = decl.iter().filter(|f| f.name == s).collect();
        return match v.len() {
            1 => Sel::One(v[0]),
            0 => {
                let w: Vec<_> = decl.iter().filter(|f| f.name == s.trim()).collect();
                if w.len() == 1 { Sel::Maybe(w) } else { Sel::None }
            }
            _ => Sel::None,
        };
    }
    if let Some(f) = decl.iter().find(|f| full_sig(f) == s) {
        return Sel::One(f);
    }
    let t = s.replace(' ', "");
    let v: Vec<_> = decl
        .iter()
        .filter(|f| {
            let short = signature(&f.name, &tys_of(&f.ins));
            full_sig(f) == t || short == t || (f.outs.is_empty() && format!("{}:()", short) == t)
        })
        .collect();
    if v.is_empty() {
        Sel::None
    } else {
        Sel::Maybe(v)
    }
}

fn sequence<T: Clone>(cx: &mut Cx, al: &[T], min: usize, max: usize) -> Vec<T> {
    let n = min + cx.choose(max - min + 1);
    (0..n).map(|_| cx.pick(al).clone()).collect()
}

/// One textual value per parameter, good enough for the strict or only for the lenient reader.
fn good(t: &Ty, lenient: bool, i: usize) -> String {
    let o = offers(t);
    match t {
        Ty::Uint(_) if lenient => format!("{}", 7 + i),
        Ty::Int(_) if lenient => format!("-{}", 7 + i),
        Ty::Str => format!("s{}", i),
        Ty::Arr(t) if lenient => format!("[{},{}]", good(t, true, i), good(t, true, i + 1)),
        Ty::FArr(t, n) if lenient => format!("[{}]", (0..*n).map(|k| good(t, true, i + k)).collect::<Vec<_>>().join(",")),
        Ty::Tup(ts) if lenient => format!("({})", ts.iter().enumerate().map(|(k, t)| good(t, true, i + k)).collect::<Vec<_>>().join(",")),
        _ => o[0].clone(),
    }
}

fn encode_function(cx: &mut Cx, al: &[MFn], max: usize) -> Res {
    let decl = sequence(cx, al, 1, max);
    for i in 0..decl.len() {
        for j in 0..i {
            if full_sig(&decl[i]) == full_sig(&decl[j]) {
                return cx.prune();
            }
        }
    }
    // the document also holds an event and a constructor that must not matter
    let mut ops: Vec<Op> = decl.iter().cloned().map(Op::Fn).collect();
    ops.insert(0, Op::Ev(MEv { name: "E".into(), ins: vec![], anon: false }));
    ops.push(Op::Ctor(vec![]));
    let sel = cx.pick(&selectors(&decl)).clone();
    let target = select(&decl, &sel);
    let shape = match &target {
        Sel::One(f) => (*f).clone(),
        Sel::Maybe(v) => v[0].clone(),
        Sel::None => decl[0].clone(),
    };
    let ins = tys_of(&shape.ins);
    let lenient = cx.choose(4); // flag given? / values that need it?
    let (flag, short) = (lenient & 1 == 1, lenient & 2 == 2);
    let mut vals: Vec<String> = ins.iter().enumerate().map(|(i, t)| good(t, short, i)).collect();
    match cx.choose(if matches!(target, Sel::One(_)) { 4 + 2 * ins.len() } else { 1 }) {
        0 => {}
        1 => {
            if vals.pop().is_none() {
                return cx.prune();
            }
        }
        2 => vals.push("1".into()),
        3 => {
            if vals.len() < 2 {
                return cx.prune();
            }
            vals.rotate_left(1)
        }
        k => {
            let i = (k - 4) / 2;
            let o = offers(&ins[i]);
            vals[i] = o[o.len() - 1 - (k % 2)].clone();
        }
    }
    let mut args = strs(&["encode", "function"]);
    args.push(file(document(&ops).as_bytes()));
    args.push(sel);
    for v in &vals {
        args.extend([String::from("-p"), v.clone()]);
    }
    if flag {
        args.push("-l".into());
    }
    let one = |f: &MFn| {
        let ts = tys_of(&f.ins);
        if ts.len() != vals.len() {
            return Want::Fail;
        }
        encoded(&mc::model::selector(&f.name, &ts), &ts, &vals, flag)
    };
    let want = match target {
        Sel::None => Want::Fail,
        Sel::One(f) => one(f),
        Sel::Maybe(v) => {
            let mut all = vec![];
            for f in v {
                match one(f) {
                    Want::Print(s) => all.push(s),
                    Want::Fail => {}
                    _ => return check(cx, &args, Want::Any),
                }
            }
            Want::Maybe(all)
        }
    };
    check(cx, &args, want)
}

/// The same command on a file that is missing, no file, or cut anywhere.
fn bad_files(cx: &mut Cx, what: usize) -> Res {
    let ops = [Op::Fn(func("foo", &[Ty::Bool], &[Ty::Bool])), Op::Ev(MEv { name: "E".into(), ins: vec![("x".into(), Ty::Bool, true)], anon: true })];
    let doc = document(&ops);
    let k = cx.choose(5 + doc.len());
    let path = match k {
        0 => cli().dir.join("missing.abi").to_str().unwrap().to_string(),
        1 => cli().dir.join("adir").to_str().unwrap().to_string(),
        2 => file(b"\xff\xfe[]"),
        3 => file(b"[]"),
        4 => "".to_string(),
        k => file(&doc.as_bytes()[..k - 5]),
    };
    let one = w64(1);
    let tails: Vec<Vec<&str>> = if what == 20 {
        vec![vec!["encode", "function", "@", "foo", "-p", "1"], vec!["encode", "function", "@", "foo(bool):(bool)", "-p", "1", "-l"]]
    } else {
        vec![vec!["decode", "function", "@", "foo", &one], vec!["decode", "log", "@", "E", "-l", &one, ""], vec!["decode", "log", "@", "E(bool)", "-l", &one, ""]]
    };
    let i = cx.choose(tails.len());
    let args: Vec<String> = tails[i].iter().map(|a| if *a == "@" { path.clone() } else { a.to_string() }).collect();
    check(cx, &args, Want::Fail)
}

/// Argument vectors that are no complete command.
fn bad_usage(cx: &mut Cx, words: &[&str], n: usize, allowed: &[&[&str]]) -> Res {
    let k = cx.choose(n + 1);
    let args: Vec<String> = (0..k).map(|_| cx.pick(words).to_string()).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    if allowed.contains(&&a[..]) {
        return cx.prune();
    }
    check(cx, &args, Want::Fail)
}

/// Every parameter list of `n` parameters over a few types.
fn lists(n: usize) -> Vec<Vec<Ty>> {
    let al = [Ty::Bool, Ty::Uint(256), Ty::Str];
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|l| al.iter().map(move |t| [&l[..], &[t.clone()]].concat()).collect::<Vec<_>>()).collect();
    }
    v
}

/// Overloads of one name with parameter lists of up to three parameters.
fn overloads(cx: &mut Cx, n: usize) -> Option<Vec<Vec<Ty>>> {
    let all: Vec<Vec<Ty>> = (0..=3).flat_map(lists).collect();
    let first = cx.pick(&all).clone();
    let mut v = vec![first];
    for _ in 1..n {
        // few enough choices for the later ones: neighbours of the first
        let near: Vec<Vec<Ty>> = all
            .iter()
            .filter(|l| {
                let (a, b) = (&v[0], *l);
                a.len() == b.len() && a.iter().zip(b).filter(|(x, y)| x != y).count() <= 2 || a.len() + 1 == b.len() && a[..] == b[..a.len()] || b.len() + 1 == a.len() && b[..] == a[..b.len()]
            })
            .cloned()
            .collect();
        let x = cx.pick(&near).clone();
        if v.contains(&x) {
            return None;
        }
        v.push(x);
    }
    Some(v)
}

/// Characters that are no hexadecimal digits, though some look like one or like nothing at all.
const ODD: [&str; 24] = [
    "\u{feff}", "\u{a0}", "\u{200b}", "\u{2003}", "\u{ff11}", "\u{ff41}", "\u{663}", "\u{e9}", "\u{1d7ce}", "\t", "\n", "\r", "\r\n", " ", "+", "_", "'", "\"", "`", ",", ":", "g",
    "O", "\u{1}",
];

/// A text with one odd character in it.
fn odd(cx: &mut Cx, s: &str) -> (String, bool) {
    let c = *cx.pick(&ODD);
    let at = *cx.pick(&[0, s.len(), s.len() / 2, 1.min(s.len()), s.len().saturating_sub(1)]);
    // blanks around the whole are the reader's affair
    let doubt = c.chars().all(|c| c.is_ascii_whitespace()) && (at == 0 || at == s.len());
    (format!("{}{}{}", &s[..at], c, &s[at..]), doubt)
}

/// Parameter lists whose signatures collide: as functions `over` in the selector (the first three
/// pairs) or in the last four bytes of the hash, as events `Over` in the first (two pairs) or last
/// four bytes of topic 0.
pub(super) fn colliding_fns() -> Vec<[Vec<Ty>; 2]> {
    use Ty::{Int as I, Uint as U};
    vec![
        [vec![U(168), U(136), I(192)], vec![U(216), I(16), I(200)]],
        [vec![U(200), U(104), U(24)], vec![U(256), I(168), U(216)]],
        [vec![I(8), I(152), U(248)], vec![I(64), U(216), U(16)]],
        [vec![U(152), I(200), I(152)], vec![U(248), U(8), U(88)]],
    ]
}
pub(super) fn colliding_evs() -> Vec<[Vec<Ty>; 2]> {
    use Ty::{Int as I, Uint as U};
    vec![
        [vec![U(16), I(136), U(96)], vec![U(40), I(96), U(64)]],
        [vec![U(112), I(40), U(48)], vec![U(128), U(24), U(24)]],
        [vec![U(64), U(192), U(256)], vec![U(72), I(112), U(16)]],
        [vec![U(80), I(224), I(8)], vec![U(128), U(144), U(256)]],
    ]
}

fn more_encoding(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = t.pick(2, 3);
    v.push(space("function: every choice among overloads", 0, move |cx| {
        let l = match overloads(cx, n) {
            Some(l) => l,
            None => return cx.prune(),
        };
        let outs = cx.choose(3);
        let decl: Vec<MFn> = l.iter().enumerate().map(|(i, ins)| func("over", ins, if i % 2 < outs { &[Ty::Bool] } else { &[] })).collect();
        let f = cx.pick(&decl).clone();
        let ts = tys_of(&f.ins);
        let vals: Vec<String> = ts.iter().enumerate().map(|(i, t)| good(t, false, i)).collect();
        let mut args = strs(&["encode", "function"]);
        args.push(file(document(&decl.iter().cloned().map(Op::Fn).collect::<Vec<_>>()).as_bytes()));
        args.push(full_sig(&f));
        for v in &vals {
            args.extend([String::from("-p"), v.clone()]);
        }
        let want = encoded(&mc::model::selector(&f.name, &ts), &ts, &vals, false);
        check(cx, &args, want)
    }));
    let m = t.pick(36, 70);
    v.push(space("long lists of parameters", 0, move |cx| {
        let n = count(cx, m, 256);
        let kinds = [Ty::Bool, Ty::Str, Ty::Uint(256), arr(Ty::Bool), tup(&[Ty::Uint(8), Ty::Bool]), Ty::Int(64), farr(arr(Ty::Int(8)), 2)];
        let r = cx.choose(kinds.len());
        let ts: Vec<Ty> = (0..n).map(|i| kinds[(i * 3 + r) % kinds.len()].clone()).collect();
        let lenient = cx.flag();
        let vals: Vec<String> = ts.iter().enumerate().map(|(i, t)| good(t, lenient, i)).collect();
        let mut args;
        let prefix;
        if cx.flag() {
            args = strs(&["encode", "params"]);
            for (t, v) in ts.iter().zip(&vals) {
                args.extend([String::from("-v"), t.name(), v.clone()]);
            }
            prefix = vec![];
        } else {
            // nothing returned, as many values as are taken, one
            let outs = match cx.choose(3) {
                0 => vec![],
                1 => ts.clone(),
                _ => vec![Ty::Bool],
            };
            let f = func("long", &ts, &outs);
            args = strs(&["encode", "function"]);
            let full = full_sig(&f);
            args.push(file(document(&[Op::Fn(f)]).as_bytes()));
            args.push(if cx.flag() { "long".into() } else { full });
            for v in &vals {
                args.extend([String::from("-p"), v.clone()]);
            }
            prefix = mc::model::selector("long", &ts).to_vec();
        }
        if lenient {
            args.push("-l".into());
        }
        let want = encoded(&prefix, &ts, &vals, lenient);
        check(cx, &args, want)
    }));
    v.push(space("every elementary type", t.pick(1, 2), move |cx| {
        let ty = cx.pick(&elementary()).clone();
        let lenient = cx.flag();
        let g = if t == Tier::Thorough || ty == Ty::Str || ty == Ty::Uint(256) || ty == Ty::FBytes(4) { Vg::rich() } else { Vg::new() };
        let (v, s) = match super::text::spelled(cx, &ty, lenient, g) {
            Some(x) => x,
            None => return cx.prune(),
        };
        if s.contains('\0') {
            return cx.prune();
        }
        let ts = [ty];
        let mut args = strs(&["encode", "params", "-v", &ts[0].name(), &s]);
        if lenient {
            args.push("--lenient".into());
        }
        check(cx, &args, Want::Print(hexs(&encode(&ts, &[v])) + "\n"))
    }));
    v.push(space("unusual strings", 0, move |cx| {
        let s = *cx.pick(STRINGS);
        if s.contains('\0') {
            return cx.prune();
        }
        let ts = [Ty::Str, Ty::Bool];
        let vs = [Val::Str(s.into()), Val::Bool(true)];
        if cx.flag() {
            let mut args = strs(&["encode", "params", "-v", "string", s, "-v", "bool", "1"]);
            if cx.flag() {
                args.push("-l".into());
            }
            check(cx, &args, Want::Print(hexs(&encode(&ts, &vs)) + "\n"))
        } else {
            let args = strs(&["encode", "function", &file(document(&[Op::Fn(func("str", &ts, &[]))]).as_bytes()), "str", "-p", s, "-p", "1"]);
            check(cx, &args, Want::Print(hexs(&mc::model::selector("str", &ts)) + &hexs(&encode(&ts, &vs)) + "\n"))
        }
    }));
    v.push(space("odd characters in values", 0, move |cx| {
        let ty = cx.pick(&[Ty::Bool, Ty::Uint(256), Ty::Int(256), Ty::Bytes, Ty::Addr, Ty::FBytes(4), arr(Ty::Bool), Ty::Str, arr(Ty::Uint(256))]).clone();
        let lenient = cx.flag();
        let (s, _) = odd(cx, &good(&ty, lenient, 0));
        let ts = [ty];
        let vals = [s];
        let (mut args, prefix) = if cx.flag() {
            (strs(&["encode", "params", "-v", &ts[0].name(), &vals[0]]), vec![])
        } else {
            let doc = document(&[Op::Fn(func("odd", &ts, &[]))]);
            (strs(&["encode", "function", &file(doc.as_bytes()), "odd", "-p", &vals[0]]), mc::model::selector("odd", &ts).to_vec())
        };
        if lenient {
            args.push("-l".into());
        }
        check(cx, &args, encoded(&prefix, &ts, &vals, lenient))
    }));
    v.push(space("function: overloads with colliding hashes", 0, move |cx| {
        let pair = cx.pick(&colliding_fns()).clone();
        let k = cx.choose(2);
        let mut decl: Vec<MFn> = pair.iter().map(|l| func("over", l, &[])).collect();
        if cx.flag() {
            decl.reverse();
        }
        if cx.flag() {
            decl.insert(1, func("over", &[Ty::Bool], &[]));
        }
        let ts = pair[k].clone();
        let vals: Vec<String> = (0..3).map(|i| w64(i + 3)).collect();
        let mut args = strs(&["encode", "function", &file(document(&decl.iter().cloned().map(Op::Fn).collect::<Vec<_>>()).as_bytes()), &signature("over", &ts)]);
        for v in &vals {
            args.extend([String::from("-p"), v.clone()]);
        }
        check(cx, &args, encoded(&mc::model::selector("over", &ts), &ts, &vals, false))
    }));
    let mut ls: Vec<usize> = (0..t.pick(70, 200)).collect();
    ls.extend([255, 256, 257, 1024, 4096, 20000]);
    v.push(space("lengths of values", 0, move |cx| {
        let n = *cx.pick(&ls);
        let mut g = Vg::new();
        let (ty, s) = match cx.choose(3) {
            0 => (Ty::Bytes, hexs(&g.pat(n))),
            1 => (Ty::Str, g.text(n)),
            _ => (arr(Ty::Bool), format!("[{}]", (0..n).map(|i| if i % 3 == 0 { "true" } else { "0" }).collect::<Vec<_>>().join(","))),
        };
        let ts = [Ty::Bool, ty];
        let vals = [String::from("1"), s];
        let lenient = cx.flag();
        let mut args = strs(&["encode", "params", "-v", "bool", "1", "-v", &ts[1].name(), &vals[1]]);
        if lenient {
            args.push("-l".into());
        }
        check(cx, &args, encoded(&[], &ts, &vals, lenient))
    }));
    let n = t.pick(3, 4);
    v.push(space("every shape of type", t.pick(0, 1), move |cx| {
        let ty = shape(cx, n);
        let lenient = cx.flag();
        let (v, s) = match super::text::spelled(cx, &ty, lenient, Vg { extremes: false, ..Vg::new() }) {
            Some(x) => x,
            None => return cx.prune(),
        };
        let ts = [ty];
        let vs = [v];
        let (mut args, prefix) = if cx.flag() {
            (strs(&["encode", "params", "-v", &ts[0].name(), &s]), vec![])
        } else {
            let sel = if cx.flag() { "shape".into() } else { signature("shape", &ts) };
            (strs(&["encode", "function", &file(document(&[Op::Fn(func("shape", &ts, &[]))]).as_bytes()), &sel, "-p", &s]), mc::model::selector("shape", &ts).to_vec())
        };
        if lenient {
            args.push("-l".into());
        }
        check(cx, &args, Want::Print(hexs(&prefix) + &hexs(&encode(&ts, &vs)) + "\n"))
    }));
    let m = t.pick(10, 16);
    v.push(space("function: names shared by several", 0, move |cx| shared_encoding(cx, m)));
    v.push(space("function: declared several times", 0, move |cx| declared_twice(cx, false)));
    v.push(space("function: unknown signatures", 0, move |cx| unknown_signature(cx, false)));
    v.push(space("function: internal types", 0, move |cx| internal_types(cx, false)));
    v.push(space("names of files", 0, move |cx| odd_files(cx, false)));
    v.push(space("output that goes nowhere", 0, move |cx| {
        let doc = file(document(&[Op::Fn(func("foo", &[Ty::Bool], &[]))]).as_bytes());
        let args = match cx.choose(2) {
            0 => strs(&["encode", "params", "-v", "bool", "1"]),
            _ => strs(&["encode", "function", &doc, "foo", "-p", "1"]),
        };
        lost_output(cx, &args)
    }));
    let m = t.pick(40, 120);
    v.push(space("documents with many functions", 0, move |cx| {
        let n = 1 + cx.choose(m);
        let k = cx.choose(n);
        let same = cx.flag();
        let decl: Vec<MFn> = (0..n).map(|i| func(&if same { "fn".to_string() } else { format!("fn{}", i) }, &[farr(Ty::Bool, i + 1)], &[])).collect();
        let f = &decl[k];
        let ts = tys_of(&f.ins);
        let vals = [format!("[{}]", vec!["true"; k + 1].join(","))];
        let sel = if same || cx.flag() { full_sig(f) } else { f.name.clone() };
        let args = strs(&["encode", "function", &file(document(&decl.iter().cloned().map(Op::Fn).collect::<Vec<_>>()).as_bytes()), &sel, "-p", &vals[0]]);
        check(cx, &args, encoded(&mc::model::selector(&f.name, &ts), &ts, &vals, false))
    }));
    v
}

fn more_decoding(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let n = t.pick(2, 3);
    v.push(space("function: every choice among overloads", 0, move |cx| {
        let l = match overloads(cx, n) {
            Some(l) => l,
            None => return cx.prune(),
        };
        // the inputs tell the overloads apart, the outputs are another list
        let decl: Vec<MFn> = l.iter().enumerate().map(|(i, ins)| func("over", ins, &l[(i + 1) % l.len()])).collect();
        let f = cx.pick(&decl).clone();
        let ts = tys_of(&f.outs);
        let vs = Vg { extremes: false, lens: &[2], blens: &[5], ..Vg::new() }.vals(cx, &ts);
        let mut args = strs(&["decode", "function"]);
        args.push(file(document(&decl.iter().cloned().map(Op::Fn).collect::<Vec<_>>()).as_bytes()));
        args.push(full_sig(&f));
        args.push(hexs(&encode(&ts, &vs)));
        let want = decoded(&ts, Some((encode(&ts, &vs), false)));
        check(cx, &args, want)
    }));
    v.push(space("log: every choice among overloads", 0, move |cx| {
        let l = match overloads(cx, n) {
            Some(l) => l,
            None => return cx.prune(),
        };
        let anon = cx.flag();
        let ix = cx.choose(2);
        let decl: Vec<Ev> = l
            .iter()
            .enumerate()
            .map(|(k, ins)| Ev { name: "Over".into(), ins: ins.iter().enumerate().map(|(i, t)| (format!("e{}p{}", k, i), t.clone(), (i + k) % 2 == ix)).collect(), anon })
            .collect();
        let e = cx.pick(&decl).clone();
        let vs = Vg { extremes: false, lens: &[2], blens: &[5], ..Vg::new() }.vals(cx, &e.tys());
        let (topics, data) = e.emit(&vs);
        let mut args = strs(&["decode", "log"]);
        args.push(file(document(&decl.iter().map(|e| Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })).collect::<Vec<_>>()).as_bytes()));
        args.push(ev_sig(&e));
        for t in &topics {
            args.extend([String::from("-l"), hexs(t)]);
        }
        args.push(hexs(&data));
        check(cx, &args, Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect())))
    }));
    let m = t.pick(36, 70);
    v.push(space("long lists of values", 0, move |cx| {
        let n = count(cx, m, 256);
        let r = cx.choose(4);
        let kinds = [Ty::Bool, Ty::Str, Ty::Uint(256), arr(Ty::Bool)];
        let ts: Vec<Ty> = (0..n).map(|i| kinds[(i * 3 + r) % 4].clone()).collect();
        let vs = Vg::new().vals(cx, &ts);
        let data = hexs(&encode(&ts, &vs));
        match cx.choose(3) {
            0 => {
                let mut args = strs(&["decode", "params"]);
                for t in &ts {
                    args.extend([String::from("-t"), t.name()]);
                }
                args.push(data);
                check(cx, &args, Want::Print(lines(&ts, &vs)))
            }
            1 => {
                let f = func("long", if cx.flag() { &ts } else { &[] }, &ts);
                let sel = if cx.flag() { "long".to_string() } else { full_sig(&f) };
                let args = strs(&["decode", "function", &file(document(&[Op::Fn(f)]).as_bytes()), &sel, &data]);
                check(cx, &args, Want::Print(lines(&ts, &vs)))
            }
            _ => {
                let ixs: Vec<usize> = if n == 0 { vec![] } else { vec![0, n / 2, n - 1] };
                let e = Ev { name: "Long".into(), ins: ts.iter().enumerate().map(|(i, t)| (format!("v{}", i % 7), t.clone(), ixs.contains(&i))).collect(), anon: false };
                let (topics, data) = e.emit(&vs);
                let mut args = strs(&["decode", "log"]);
                args.push(file(document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })]).as_bytes()));
                args.push("Long".into());
                for t in &topics {
                    args.extend([String::from("-l"), hexs(t)]);
                }
                args.push(hexs(&data));
                check(cx, &args, Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect())))
            }
        }
    }));
    v.push(space("every elementary type", t.pick(1, 2), move |cx| {
        let ty = cx.pick(&elementary()).clone();
        let mut g = if t == Tier::Thorough || [Ty::Str, Ty::Uint(256), Ty::FBytes(4), Ty::Int(256), Ty::Addr].contains(&ty) { Vg::rich() } else { Vg::new() };
        let ts = [ty];
        let vs = g.vals(cx, &ts);
        if cx.flag() {
            let args = strs(&["decode", "params", "-t", &ts[0].name(), &hexs(&encode(&ts, &vs))]);
            check(cx, &args, Want::Print(lines(&ts, &vs)))
        } else {
            let args = strs(&["decode", "function", &file(document(&[Op::Fn(func("get", &[], &ts))]).as_bytes()), "get", &hexs(&encode(&ts, &vs))]);
            check(cx, &args, Want::Print(lines(&ts, &vs)))
        }
    }));
    let els = Arc::new(elementary());
    v.push(space("log: every elementary type", t.pick(0, 1), move |cx| {
        let ty = cx.pick(&els).clone();
        let (ix, anon) = (cx.flag(), cx.flag());
        let e = Ev { name: "Elem".into(), ins: vec![("a".into(), ty, ix), ("b".into(), Ty::Bool, !ix)], anon };
        let vs = Vg::new().vals(cx, &e.tys());
        let (topics, data) = e.emit(&vs);
        let mut args = strs(&["decode", "log"]);
        args.push(file(document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })]).as_bytes()));
        args.push(if cx.flag() { "Elem".into() } else { ev_sig(&e) });
        for t in &topics {
            args.extend([String::from("-l"), hexs(t)]);
        }
        args.push(hexs(&data));
        check(cx, &args, Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect())))
    }));
    let mut ls: Vec<usize> = (0..t.pick(70, 200)).collect();
    ls.extend([255, 256, 257, 1024, 4096, 20000]);
    v.push(space("lengths of values", 0, move |cx| {
        let n = *cx.pick(&ls);
        let mut g = Vg::new();
        let (ty, x) = match cx.choose(3) {
            0 => (Ty::Bytes, Val::Bytes(g.pat(n))),
            1 => (Ty::Str, Val::Str(g.text(n))),
            _ => (arr(Ty::Bool), Val::Arr((0..n.min(1500)).map(|i| Val::Bool(i % 3 == 0)).collect())),
        };
        let ts = [Ty::Bool, ty];
        let vs = [Val::Bool(true), x];
        let args = strs(&["decode", "params", "-t", "bool", "-t", &ts[1].name(), &hexs(&encode(&ts, &vs))]);
        check(cx, &args, Want::Print(lines(&ts, &vs)))
    }));
    let n = t.pick(3, 4);
    v.push(space("every shape of type", 0, move |cx| {
        let ty = shape(cx, n);
        let ts = [ty];
        let vs = Vg { extremes: false, ..Vg::new() }.vals(cx, &ts);
        let d = encode(&ts, &vs);
        match cx.choose(4) {
            0 => check(cx, &strs(&["decode", "params", "-t", &ts[0].name(), &hexs(&d)]), Want::Print(lines(&ts, &vs))),
            1 => {
                let two = [ts[0].clone(), Ty::Bool, ts[0].clone()];
                let vs = [vs[0].clone(), Val::Bool(true), vs[0].clone()];
                let args = strs(&["decode", "params", "-t", &two[0].name(), "-t", "bool", "-t", &two[0].name(), &hexs(&encode(&two, &vs))]);
                check(cx, &args, Want::Print(lines(&two, &vs)))
            }
            2 => {
                let f = func("shape", &[Ty::Bool], &ts);
                let sel = if cx.flag() { "shape".into() } else { full_sig(&f) };
                check(cx, &strs(&["decode", "function", &file(document(&[Op::Fn(f)]).as_bytes()), &sel, &hexs(&d)]), Want::Print(lines(&ts, &vs)))
            }
            _ => {
                let e = ev("Shape", &[(ts[0].clone(), cx.flag())], cx.flag());
                let (topics, data) = e.emit(&vs);
                let sel = if cx.flag() { "Shape".into() } else { ev_sig(&e) };
                let doc = document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })]);
                let mut args = strs(&["decode", "log", &file(doc.as_bytes()), &sel]);
                for t in &topics {
                    args.extend([String::from("-l"), hexs(t)]);
                }
                args.push(hexs(&data));
                let want = Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect()));
                check(cx, &args, want)
            }
        }
    }));
    v.push(space("unusual strings", 0, move |cx| {
        let s = *cx.pick(STRINGS);
        let ts = [Ty::Str, Ty::Bool];
        let vs = [Val::Str(s.into()), Val::Bool(true)];
        let d = hexs(&encode(&ts, &vs));
        match cx.choose(4) {
            0 => check(cx, &strs(&["decode", "params", "-t", "string", "-t", "bool", &d]), Want::Print(lines(&ts, &vs))),
            1 => {
                let (ts, vs) = ([tup(&ts), arr(Ty::Str)], [Val::Tup(vs.to_vec()), Val::Arr(vec![Val::Str(s.into()), Val::Str(s.into())])]);
                check(cx, &strs(&["decode", "params", "-t", &ts[0].name(), "-t", &ts[1].name(), &hexs(&encode(&ts, &vs))]), Want::Print(lines(&ts, &vs)))
            }
            2 => check(cx, &strs(&["decode", "function", &file(document(&[Op::Fn(func("str", &[], &ts))]).as_bytes()), "str", &d]), Want::Print(lines(&ts, &vs))),
            _ => {
                let e = Ev { name: "Str".into(), ins: vec![("a".into(), Ty::Str, false), ("b".into(), Ty::Bool, cx.flag())], anon: cx.flag() };
                let (topics, data) = e.emit(&vs);
                let mut args = strs(&["decode", "log", &file(document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })]).as_bytes()), "Str"]);
                for t in &topics {
                    args.extend([String::from("-l"), hexs(t)]);
                }
                args.push(hexs(&data));
                let want = Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect()));
                check(cx, &args, want)
            }
        }
    }));
    // what a parameter is called is printed as it is
    v.push(space("unusual names", 0, move |cx| {
        let s = *cx.pick(STRINGS);
        let twice = cx.flag();
        let e = Ev { name: "Nam".into(), ins: vec![(s.into(), Ty::Uint(8), cx.flag()), (if twice { s } else { "x" }.into(), Ty::Bool, false)], anon: cx.flag() };
        let vs = [Val::Uint(word(7)), Val::Bool(true)];
        let (topics, data) = e.emit(&vs);
        let mut args = strs(&["decode", "log", &file(document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })]).as_bytes()), "Nam"]);
        for t in &topics {
            args.extend([String::from("-l"), hexs(t)]);
        }
        args.push(hexs(&data));
        let want = Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect()));
        check(cx, &args, want)
    }));
    v.push(space("odd characters in data and topics", 0, move |cx| {
        let vs = [Val::Bool(true), Val::Uint([0xab; 32])];
        let e = Ev { name: "Odd".into(), ins: vec![("a".into(), Ty::Bool, true), ("b".into(), Ty::Uint(256), false)], anon: cx.flag() };
        let doc = document(&[
            Op::Fn(func("odd", &[], &[Ty::Bool, Ty::Uint(256)])),
            Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon }),
        ]);
        let ts = e.tys();
        let d = hexs(&encode(&ts, &vs));
        let (topics, data) = e.emit(&vs);
        let mut texts: Vec<String> = topics.iter().map(|t| hexs(t)).collect();
        texts.push(hexs(&data));
        let logged = |texts: &[String]| {
            let mut args = strs(&["decode", "log", &file(doc.as_bytes()), "Odd"]);
            for t in &texts[..texts.len() - 1] {
                args.extend([String::from("-l"), t.clone()]);
            }
            args.push(texts[texts.len() - 1].clone());
            args
        };
        match cx.choose(3) {
            0 => {
                let (s, doubt) = odd(cx, &d);
                let want = if doubt { Want::Maybe(vec![lines(&ts, &vs)]) } else { Want::Fail };
                check(cx, &strs(&["decode", "params", "-t", "bool", "-t", "uint256", &s]), want)
            }
            1 => {
                let (s, doubt) = odd(cx, &d);
                let want = if doubt { Want::Maybe(vec![lines(&ts, &vs)]) } else { Want::Fail };
                check(cx, &strs(&["decode", "function", &file(doc.as_bytes()), "odd", &s]), want)
            }
            _ => {
                let i = cx.choose(texts.len());
                let (s, mut doubt) = odd(cx, &texts[i]);
                // and so are blanks inside a topic
                doubt |= i + 1 < texts.len() && s.chars().filter(|c| !c.is_ascii_hexdigit()).all(|c| " \t\r\n".contains(c));
                texts[i] = s;
                let want = if doubt { Want::Maybe(vec![log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect())]) } else { Want::Fail };
                check(cx, &logged(&texts), want)
            }
        }
    }));
    v.push(space("overloads with colliding hashes", 0, move |cx| {
        let logs = cx.flag();
        let pair = cx.pick(&if logs { colliding_evs() } else { colliding_fns() }).clone();
        let k = cx.choose(2);
        let (turned, more) = (cx.flag(), cx.flag());
        let vs: Vec<Val> = (0..3).map(|i| Val::Uint(word(i + 3))).collect();
        if logs {
            let vs: Vec<Val> = pair[k].iter().zip(&vs).map(|(t, v)| if let (Ty::Int(_), Val::Uint(w)) = (t, v) { Val::Int(*w) } else { v.clone() }).collect();
            let ix = cx.choose(4);
            let anon = cx.flag();
            let mut decl: Vec<Ev> = pair
                .iter()
                .enumerate()
                .map(|(k, l)| Ev { name: "Over".into(), ins: l.iter().enumerate().map(|(i, t)| (format!("e{}p{}", k, i), t.clone(), i == ix)).collect(), anon })
                .collect();
            let e = decl[k].clone();
            if turned {
                decl.reverse();
            }
            if more {
                decl.insert(1, ev("Over", &[(Ty::Bool, false)], anon));
            }
            let (topics, data) = e.emit(&vs);
            let doc = document(&decl.iter().map(|e| Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })).collect::<Vec<_>>());
            let mut args = strs(&["decode", "log", &file(doc.as_bytes()), &ev_sig(&e)]);
            for t in &topics {
                args.extend([String::from("-l"), hexs(t)]);
            }
            args.push(hexs(&data));
            let want = Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect()));
            return check(cx, &args, want);
        }
        let outs = [vec![Ty::Uint(256), Ty::Bool], vec![Ty::Str]];
        let mut decl: Vec<MFn> = pair.iter().enumerate().map(|(i, l)| func("over", l, &outs[i])).collect();
        let f = decl[k].clone();
        if turned {
            decl.reverse();
        }
        if more {
            decl.insert(1, func("over", &[Ty::Bool], &[]));
        }
        let vs = Vg { extremes: false, ..Vg::new() }.vals(cx, &outs[k]);
        let doc = document(&decl.iter().cloned().map(Op::Fn).collect::<Vec<_>>());
        let args = strs(&["decode", "function", &file(doc.as_bytes()), &full_sig(&f), &hexs(&encode(&outs[k], &vs))]);
        check(cx, &args, Want::Print(lines(&outs[k], &vs)))
    }));
    // equal values, equal names: the same line more than once
    v.push(space("repeated values", 0, move |cx| {
        let ty = cx.pick(&[Ty::Bool, Ty::Uint(256), Ty::Str, Ty::Addr, Ty::FBytes(4), arr(Ty::Bool), tup(&[Ty::Bool, Ty::Str])]).clone();
        let n = 2 + cx.choose(3);
        let ts: Vec<Ty> = (0..n).map(|i| if i == 0 || cx.flag() { ty.clone() } else { Ty::Int(8) }).collect();
        let vs: Vec<Val> = ts.iter().map(|t| Vg { extremes: false, lens: &[2], blens: &[5], ..Vg::new() }.val(cx, t)).collect();
        let d = hexs(&encode(&ts, &vs));
        match cx.choose(3) {
            0 => {
                let mut args = strs(&["decode", "params"]);
                for t in &ts {
                    args.extend([String::from("-t"), t.name()]);
                }
                args.push(d);
                check(cx, &args, Want::Print(lines(&ts, &vs)))
            }
            1 => check(cx, &strs(&["decode", "function", &file(document(&[Op::Fn(func("again", &[], &ts))]).as_bytes()), "again", &d]), Want::Print(lines(&ts, &vs))),
            _ => {
                // all of one name, or of pairwise different ones
                let same = cx.flag();
                let ix = cx.choose(n + 1);
                let ins = ts.iter().enumerate().map(|(i, t)| (if same { "v".into() } else { format!("v{}", i) }, t.clone(), i == ix || i + 1 == ix)).collect();
                let e = Ev { name: "Again".into(), ins, anon: cx.flag() };
                let (topics, data) = e.emit(&vs);
                let doc = document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })]);
                let mut args = strs(&["decode", "log", &file(doc.as_bytes()), "Again"]);
                for t in &topics {
                    args.extend([String::from("-l"), hexs(t)]);
                }
                args.push(hexs(&data));
                let want = Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect()));
                check(cx, &args, want)
            }
        }
    }));
    // more topics, or more indexed parameters, than a log has
    v.push(space("many topics", 0, move |cx| {
        let ty = cx.pick(&[Ty::Uint(8), Ty::Str]).clone();
        let (ni, nd) = (cx.choose(7), cx.choose(2));
        let first = cx.flag();
        let anon = cx.flag();
        let mut ins: Vec<(Ty, bool)> = (0..ni).map(|_| (ty.clone(), true)).collect();
        for _ in 0..nd {
            ins.insert(if first { 0 } else { ins.len() }, (Ty::Bytes, false));
        }
        let e = ev("Many", &ins, anon);
        let vs = Vg { extremes: false, blens: &[5], ..Vg::new() }.vals(cx, &e.tys());
        let (topics, data) = e.emit(&vs);
        let n = cx.choose(8);
        let mut given: Vec<[u8; 32]> = topics.iter().take(n).cloned().collect();
        // the surplus: of its own, a repetition
        let again = cx.flag() && !topics.is_empty();
        while given.len() < n {
            given.push(if again { topics[given.len() % topics.len()] } else { word(given.len()) });
        }
        let doc = document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })]);
        let mut args = strs(&["decode", "log", &file(doc.as_bytes()), "Many"]);
        for t in &given {
            args.extend([String::from("-l"), hexs(t)]);
        }
        args.push(hexs(&data));
        let want = match e.parse(&given, &data) {
            Expect::Reject => Want::Fail,
            Expect::Must(v) => Want::Print(log_lines(&e, v)),
            Expect::May(v) => Want::Maybe(vec![log_lines(&e, v)]),
        };
        check(cx, &args, want)
    }));
    // values of which there is nothing to see, named and unnamed
    v.push(space("empty values", 0, move |cx| {
        let none = [
            (Ty::Bytes, Val::Bytes(vec![])),
            (Ty::Str, Val::Str(String::new())),
            (arr(Ty::Bool), Val::Arr(vec![])),
            (arr(Ty::Str), Val::Arr(vec![])),
            (arr(Ty::Str), Val::Arr(vec![Val::Str(String::new())])),
            (Ty::Uint(256), Val::Uint(word(0))),
            (Ty::Bool, Val::Bool(false)),
            (Ty::Addr, Val::Addr([0; 20])),
            (Ty::FBytes(4), Val::FBytes(vec![0; 4])),
            (tup(&[Ty::Bytes]), Val::Tup(vec![Val::Bytes(vec![])])),
        ];
        let n = 1 + cx.choose(3);
        let (ts, vs): (Vec<Ty>, Vec<Val>) = (0..n).map(|_| cx.pick(&none).clone()).unzip();
        let d = hexs(&encode(&ts, &vs));
        match cx.choose(3) {
            0 => {
                let mut args = strs(&["decode", "params"]);
                for t in &ts {
                    args.extend([String::from("-t"), t.name()]);
                }
                args.push(d);
                check(cx, &args, Want::Print(lines(&ts, &vs)))
            }
            1 => {
                let mut f = func("nil", &[], &ts);
                let named = cx.flag();
                f.outs.iter_mut().for_each(|p| p.name = if named { "o".into() } else { String::new() });
                check(cx, &strs(&["decode", "function", &file(document(&[Op::Fn(f)]).as_bytes()), "nil", &d]), Want::Print(lines(&ts, &vs)))
            }
            _ => {
                let named = cx.flag();
                let ix = cx.choose(n + 1);
                let ins = ts.iter().enumerate().map(|(i, t)| (if named { format!("v{}", i) } else { String::new() }, t.clone(), i == ix)).collect();
                let e = Ev { name: "Nil".into(), ins, anon: cx.flag() };
                let (topics, data) = e.emit(&vs);
                let doc = document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })]);
                let mut args = strs(&["decode", "log", &file(doc.as_bytes()), "Nil"]);
                for t in &topics {
                    args.extend([String::from("-l"), hexs(t)]);
                }
                args.push(hexs(&data));
                let want = Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect()));
                check(cx, &args, want)
            }
        }
    }));
    v.push(space("output that goes nowhere", 0, move |cx| {
        let w = hexs(&word(1));
        let doc = file(document(&[Op::Fn(func("foo", &[], &[Ty::Bool])), Op::Ev(MEv { name: "Evt".into(), ins: vec![("a".into(), Ty::Bool, false)], anon: true })]).as_bytes());
        let args = match cx.choose(3) {
            0 => strs(&["decode", "params", "-t", "bool", &w]),
            1 => strs(&["decode", "function", &doc, "foo", &w]),
            _ => strs(&["decode", "log", &doc, "Evt", &w]),
        };
        lost_output(cx, &args)
    }));
    let m = t.pick(10, 16);
    v.push(space("names shared by several", 0, move |cx| shared_decoding(cx, m)));
    v.push(space("declared several times", 0, move |cx| declared_twice(cx, true)));
    v.push(space("unknown signatures", 0, move |cx| unknown_signature(cx, true)));
    v.push(space("function: internal types", 0, move |cx| internal_types(cx, true)));
    v.push(space("names of files", 0, move |cx| odd_files(cx, true)));
    v.push(space("bytes to spare", 0, move |cx| to_spare(cx)));
    v
}

/// `n` declarations of one name among others, as types of their single parameter: the k-th, and
/// how it is asked for.
struct Shared {
    /// name and parameter of every declaration
    decl: Vec<(String, Ty)>,
    k: usize,
    sel: String,
    /// exactly one declaration answers to `sel`
    one: bool,
}

fn shared_name(cx: &mut Cx, m: usize) -> Shared {
    let n = 1 + cx.choose(m);
    let k = cx.choose(n);
    let kinds = [Ty::Bool, Ty::Uint(256), Ty::Addr, Ty::FBytes(32), Ty::Int(256), Ty::Uint(8), arr(Ty::Bool), Ty::Str, Ty::Bytes, farr(Ty::Bool, 2), tup(&[Ty::Bool]), arr(Ty::Str)];
    let mut decl: Vec<(String, Ty)> = (0..n).map(|i| ("same".to_string(), kinds[i % kinds.len()].clone())).collect();
    let mut k2 = k;
    match cx.choose(4) {
        0 => {}
        1 => {
            decl.insert(0, ("other".into(), Ty::Bool));
            k2 += 1;
        }
        2 => decl.push(("other".into(), Ty::Bool)),
        _ => {
            // others in between, of names the shared one is a part of
            decl = decl.into_iter().flat_map(|d| [d, ("sames".into(), Ty::Uint(16)), ("sam".into(), Ty::Uint(16))]).collect();
            decl.dedup();
            k2 *= 3;
            let mut seen = std::collections::HashSet::new();
            let keep: Vec<bool> = decl.iter().map(|d| d.0 == "same" || seen.insert(d.0.clone())).collect();
            k2 -= keep[..k2].iter().filter(|x| !**x).count();
            let mut it = keep.into_iter();
            decl.retain(|_| it.next().unwrap());
        }
    }
    let bare = cx.flag();
    let sel = if bare { "same".into() } else { signature("same", &[decl[k2].1.clone()]) };
    Shared { decl, k: k2, sel, one: !bare || n == 1 }
}

fn shared_encoding(cx: &mut Cx, m: usize) -> Res {
    let s = shared_name(cx, m);
    let ops: Vec<Op> = s.decl.iter().map(|(n, t)| Op::Fn(func(n, &[t.clone()], &[]))).collect();
    let ts = [s.decl[s.k].1.clone()];
    let vals = [good(&ts[0], false, 0)];
    let args = strs(&["encode", "function", &file(document(&ops).as_bytes()), &s.sel, "-p", &vals[0]]);
    let want = if s.one { encoded(&mc::model::selector("same", &ts), &ts, &vals, false) } else { Want::Fail };
    check(cx, &args, want)
}

fn shared_decoding(cx: &mut Cx, m: usize) -> Res {
    let s = shared_name(cx, m);
    let ty = s.decl[s.k].1.clone();
    let vs = Vg { extremes: false, lens: &[2], blens: &[5], ..Vg::new() }.vals(cx, &[ty.clone()]);
    match cx.choose(4) {
        0 => {
            // the outputs are what is decoded: those of the k-th
            // ... or the same of all
            let same = cx.flag();
            let ops: Vec<Op> = s.decl.iter().map(|(n, t)| Op::Fn(func(n, &[t.clone()], &[if same { ty.clone() } else { t.clone() }]))).collect();
            let sel = if s.sel.contains('(') { format!("{}:({})", s.sel, ty.name()) } else { s.sel };
            let args = strs(&["decode", "function", &file(document(&ops).as_bytes()), &sel, &hexs(&encode(&[ty.clone()], &vs))]);
            check(cx, &args, if s.one { Want::Print(lines(&[ty], &vs)) } else { Want::Fail })
        }
        how => {
            let evs: Vec<Ev> = s.decl.iter().map(|(n, t)| ev(n, &[(t.clone(), how == 1)], how == 3)).collect();
            let ops: Vec<Op> = evs.iter().map(|e| Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })).collect();
            let e = &evs[s.k];
            let (topics, data) = e.emit(&vs);
            let mut args = strs(&["decode", "log", &file(document(&ops).as_bytes()), &s.sel]);
            for t in &topics {
                args.extend([String::from("-l"), hexs(t)]);
            }
            args.push(hexs(&data));
            let want = Want::Print(log_lines(e, e.seen(&vs).into_iter().map(|x| x.1).collect()));
            check(cx, &args, if s.one { want } else { Want::Fail })
        }
    }
}

/// One signature declared several times: its name alone does not say which is meant.
fn declared_twice(cx: &mut Cx, decode: bool) -> Res {
    let n = 2 + cx.choose(2);
    let by_name = cx.flag();
    let t = cx.pick(&[Ty::Bool, Ty::Str, Ty::Uint(8)]).clone();
    let vs = Vg { extremes: false, lens: &[2], blens: &[5], ..Vg::new() }.vals(cx, &[t.clone()]);
    let ts = [t.clone()];
    let other = cx.flag();
    let bystander = || if other { vec![Op::Fn(func("x", &[Ty::Bool], &[Ty::Bool])), Op::Ev(MEv { name: "x".into(), ins: vec![], anon: false })] } else { vec![] };
    if !decode {
        let outs = cx.flag();
        let mut ops = bystander();
        ops.extend((0..n).map(|i| {
            let mut f = func("same", &ts, &if outs { vec![Ty::Bool; 1] } else { vec![] });
            f.mutability = MUT[(i + 1) % 4];
            f.constant = i == 1;
            Op::Fn(f)
        }));
        let vals = [good(&t, false, 0)];
        let sel = if by_name { "same".to_string() } else { format!("same({}){}", t.name(), if outs { ":(bool)" } else { "" }) };
        let args = strs(&["encode", "function", &file(document(&ops).as_bytes()), &sel, "-p", &vals[0]]);
        return check(cx, &args, if by_name { Want::Fail } else { encoded(&mc::model::selector("same", &ts), &ts, &vals, false) });
    }
    if cx.flag() {
        let mut ops = bystander();
        ops.extend((0..n).map(|i| {
            let mut f = func("same", &[], &ts);
            f.mutability = MUT[(i + 1) % 4];
            Op::Fn(f)
        }));
        let sel = if by_name { "same".to_string() } else { format!("same():({})", t.name()) };
        let args = strs(&["decode", "function", &file(document(&ops).as_bytes()), &sel, &hexs(&encode(&ts, &vs))]);
        return check(cx, &args, if by_name { Want::Fail } else { Want::Print(lines(&ts, &vs)) });
    }
    // the declarations differ in what the signature does not tell, or not at all
    let differ = if by_name { cx.choose(4) } else { 0 };
    let first = cx.choose(n);
    let e = ev("same", &[(t.clone(), false)], false);
    let mut ops = bystander();
    ops.extend((0..n).map(|i| {
        let mut x = e.clone();
        if i != first {
            match differ {
                0 => {}
                1 => x.anon = true,
                2 => x.ins[0].2 = true,
                _ => x.ins[0].0 = "other".into(),
            }
        }
        Op::Ev(MEv { name: x.name, ins: x.ins, anon: x.anon })
    }));
    let (topics, data) = e.emit(&vs);
    let sel = if by_name { "same".to_string() } else { format!("same({})", t.name()) };
    let mut args = strs(&["decode", "log", &file(document(&ops).as_bytes()), &sel]);
    for t in &topics {
        args.extend([String::from("-l"), hexs(t)]);
    }
    args.push(hexs(&data));
    let want = Want::Print(log_lines(&e, e.seen(&vs).into_iter().map(|x| x.1).collect()));
    check(cx, &args, if by_name { Want::Fail } else { want })
}

/// Documents that say where a type comes from: it is the type that counts.
fn internal_types(cx: &mut Cx, decode: bool) -> Res {
    let t = cx.pick(&[Ty::Uint(8), Ty::Addr, Ty::Bytes, arr(Ty::Str), tup(&[Ty::Bool, Ty::Bytes])]).clone();
    let int = cx.pick(&["enum X", "contract C", "struct S", "struct S[]", "address payable", "uint256", "bool", "bytes32", "tuple", "", "X.Y", "function", "(bool)", "a b c", "string"]).to_string();
    let q = MParam { name: cx.pick(&["", "a"]).to_string(), ty: t.clone(), internal: Some(int) };
    let ts = [t.clone()];
    let f = MFn { name: "inner".into(), ins: if decode { vec![] } else { vec![q.clone()] }, outs: if decode { vec![q] } else { vec![] }, constant: false, mutability: MUT[2] };
    let by_name = cx.flag();
    let sel = if by_name { "inner".to_string() } else { full_sig(&f) };
    let doc = file(document(&[Op::Fn(f)]).as_bytes());
    if decode {
        let vs = plain(cx, &ts);
        return check(cx, &strs(&["decode", "function", &doc, &sel, &hexs(&encode(&ts, &vs))]), Want::Print(lines(&ts, &vs)));
    }
    let vals = [good(&t, false, 0)];
    check(cx, &strs(&["encode", "function", &doc, &sel, "-p", &vals[0]]), encoded(&mc::model::selector("inner", &ts), &ts, &vals, false))
}

/// The file is the one of exactly the given name.
fn odd_files(cx: &mut Cx, decode: bool) -> Res {
    const NAMES: [&str; 20] = ["x", "x ", " x", "x.abi", "x.json", "X", "a b", "a'b", "a\"b", "\u{e9}", "e\u{301}", "%41", "A", "~", "$HOME", "*", "x,y", "@x", "#", "a\nb"];
    let i = cx.choose(NAMES.len());
    let here = cx.flag();
    let dir = cli().dir.join(format!("named-{}-{}", i, here));
    std::fs::create_dir_all(&dir).unwrap();
    for (k, n) in NAMES.iter().enumerate() {
        if here || k != i {
            let t = farr(Ty::Bool, k + 1);
            std::fs::write(dir.join(n), document(&[Op::Fn(func("named", &[t.clone()], &[t]))])).unwrap();
        }
    }
    let path = format!("{}/{}", dir.to_str().unwrap(), NAMES[i]);
    let ts = [farr(Ty::Bool, i + 1)];
    if decode {
        let vs = plain(cx, &ts);
        let want = if here { Want::Print(lines(&ts, &vs)) } else { Want::Fail };
        return check(cx, &strs(&["decode", "function", &path, "named", &hexs(&encode(&ts, &vs))]), want);
    }
    let vals = [format!("[{}]", vec!["1"; i + 1].join(","))];
    let want = if here { encoded(&mc::model::selector("named", &ts), &ts, &vals, false) } else { Want::Fail };
    check(cx, &strs(&["encode", "function", &path, "named", "-p", &vals[0]]), want)
}

/// Texts that are nearly the signature of the declared operation but not quite, for both kinds:
/// none of them is known.
fn near_signatures(cx: &mut Cx) -> (Vec<Ty>, Vec<String>) {
    // one parameter whose name has another spelling
    let short: [(Ty, &[&str]); 5] = [
        (Ty::Uint(256), &["(uint)", "(uint256[])", "(Uint256)", "(u256)", "(uint0)"]),
        (Ty::Int(256), &["(int)", "(integer)", "(i256)"]),
        (arr(Ty::Uint(256)), &["(uint[])", "(uint256[]) ;", "(uint256[][])", "(uint256[1])", "(uint256...)"]),
        (tup(&[Ty::Uint(256)]), &["(uint256)", "((uint))", "(tuple)", "(((uint256)))", "([uint256])"]),
        (Ty::FBytes(1), &["(byte)", "(bytes)", "(bytes01)", "(bytes1[])"]),
    ];
    let k = cx.choose(short.len() + 1);
    if k < short.len() {
        return (vec![short[k].0.clone()], short[k].1.iter().map(|s| s.to_string()).collect());
    }
    let ts = vec![Ty::Uint(256), Ty::Int(256), arr(Ty::Addr), tup(&[Ty::Uint(256), Ty::Bool]), Ty::Bytes];
    let v = [
        "(uint,int,address[],(uint,bool),bytes)",
        "(uint,int256,address[],(uint256,bool),bytes)",
        "(uint256,int,address[],(uint256,bool),bytes)",
        "(uint256,int256,address[],(uint,bool),bytes)",
        "(uint256,int256,address[],tuple(uint256,bool),bytes)",
        "(uint256,int256,address[],tuple,bytes)",
        "(uint256,int256,address[],uint256,bool,bytes)",
        "(uint256,int256,addresspayable[],(uint256,bool),bytes)",
        "(uint256,int256,address[0],(uint256,bool),bytes)",
        "(uint256,int256,address[],(uint256,bool),bytes))",
        "((uint256,int256,address[],(uint256,bool),bytes)",
        "((uint256,int256,address[],(uint256,bool),bytes))",
        "(uint256,int256,address[],(uint256,bool),bytes,)",
        "(,uint256,int256,address[],(uint256,bool),bytes)",
        "(uint256,,int256,address[],(uint256,bool),bytes)",
        "(uint256;int256;address[];(uint256,bool);bytes)",
        "(uint256,int256,address[],(uint256,bool),bytes);",
        "(uint256,int256,address[],(uint256,bool),bytes)()",
        "(uint256,int256,address[],(uint256,bool),bytes",
        "(uint256,int256,address[],(uint256,bool))",
        "(int256,address[],(uint256,bool),bytes)",
        "(int256,uint256,address[],(uint256,bool),bytes)",
        "(uint256a0,int256a1,address[]a2,(uint256,bool)a3,bytesa4)",
        "(uint256indexeda0,int256a1,address[]a2,(uint256,bool)a3,bytesa4)",
        "(uint8,int8,address[],(uint8,bool),bytes)",
        "(uint0256,int256,address[],(uint256,bool),bytes)",
        "(uint256,int256,address[],(uint256,bool),string)",
        "(uint256,int256,address[],(uint256,bool),bytes32)",
        "(uint256,int256,address[],(uint256,bool),bytes)external",
        "(uint256,int256,address[],(uint256,bool),bytes)returns()",
        "()",
        "(",
        ")",
        "(*)",
        "(...)",
    ];
    (ts, v.iter().map(|s| s.to_string()).collect())
}

fn plain(cx: &mut Cx, ts: &[Ty]) -> Vec<Val> {
    Vg { extremes: false, lens: &[2], blens: &[5], ..Vg::new() }.vals(cx, ts)
}

fn unknown_signature(cx: &mut Cx, decode: bool) -> Res {
    let (ts, near) = near_signatures(cx);
    let sig = cx.pick(&near).clone();
    let pre = *cx.pick(&["", "function", "event", "_", "0x"]);
    let outs = [Ty::Bool];
    let e = Ev { name: "near".into(), ins: ts.iter().enumerate().map(|(i, t)| (format!("a{}", i), t.clone(), false)).collect(), anon: cx.flag() };
    let what = if decode { 1 + cx.choose(2) } else { 0 };
    let ops = [Op::Fn(func("near", &ts, if what == 1 { &outs } else { &[] })), Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })];
    let sel = format!("{}near{}", pre, sig);
    let doc = file(document(&ops).as_bytes());
    let args = match what {
        0 => {
            let mut a = strs(&["encode", "function", &doc, &sel]);
            for (i, t) in ts.iter().enumerate() {
                a.extend([String::from("-p"), good(t, false, i)]);
            }
            a
        }
        1 => strs(&["decode", "function", &doc, &sel, &hexs(&word(1))]),
        _ => {
            let vs = plain(cx, &e.tys());
            let (topics, data) = e.emit(&vs);
            let mut a = strs(&["decode", "log", &doc, &sel]);
            for t in &topics {
                a.extend([String::from("-l"), hexs(t)]);
            }
            a.push(hexs(&data));
            a
        }
    };
    check(cx, &args, Want::Fail)
}

/// Data preceded, followed or divided by further bytes.
fn to_spare(cx: &mut Cx) -> Res {
    let lists = [vec![Ty::Bool], vec![Ty::Uint(256)], vec![Ty::Str], vec![arr(Ty::Uint(8)), Ty::FBytes(4)], vec![Ty::Addr, Ty::Bytes]];
    let ts = cx.pick(&lists).clone();
    let vs = plain(cx, &ts);
    let mut d = encode(&ts, &vs);
    let n = 1 + cx.choose(40);
    let at = *cx.pick(&[d.len(), 0, 32]);
    let fill = *cx.pick(&[0u8, 0xee]);
    d.splice(at..at, vec![fill; n]);
    let want = decoded(&ts, Some((d.clone(), false)));
    match cx.choose(3) {
        0 => {
            let mut a = strs(&["decode", "params"]);
            for t in &ts {
                a.extend([String::from("-t"), t.name()]);
            }
            a.push(hexs(&d));
            check(cx, &a, want)
        }
        1 => {
            let doc = document(&[Op::Fn(func("spare", &[], &ts))]);
            check(cx, &strs(&["decode", "function", &file(doc.as_bytes()), "spare", &hexs(&d)]), want)
        }
        _ => {
            let e = Ev { name: "Spare".into(), ins: ts.iter().enumerate().map(|(i, t)| (format!("a{}", i), t.clone(), false)).collect(), anon: true };
            let doc = document(&[Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: true })]);
            let want = match decode(&ts, &d) {
                Expect::Reject => Want::Fail,
                Expect::Must(v) => Want::Print(log_lines(&e, v)),
                Expect::May(v) => Want::Maybe(vec![log_lines(&e, v)]),
            };
            check(cx, &strs(&["decode", "log", &file(doc.as_bytes()), "Spare", &hexs(&d)]), want)
        }
    }
}

/// Every shape of a type of a few nodes.
fn shape(cx: &mut Cx, n: usize) -> Ty {
    let k = 1 + cx.choose(n);
    let mut l = leaf_kinds();
    l.extend([Ty::Uint(8), Ty::Int(8)]);
    ty(cx, k, &l, &[2, 1, 12])
}

fn log_lines(e: &Ev, v: Vec<Val>) -> String {
    e.ins.iter().zip(v).map(|(p, v)| format!("{} {}", p.0, v.display())).collect::<Vec<_>>().join("\n") + "\n"
}

pub fn c20(t: Tier) -> Vec<Space> {
    let all = Arc::new(pairs());
    let small = Arc::new(few());
    let funs = Arc::new(fns());
    let mut v = vec![];
    {
        let all = all.clone();
        v.push(space("params: none", 0, move |cx| encode_params(cx, &[], 5)));
        v.push(space("params: every offered value of every type", 0, move |cx| {
            let p = cx.pick(&all).clone();
            encode_params(cx, &[p], 5)
        }));
    }
    {
        let small = small.clone();
        let n = t.pick(3, 4);
        v.push(space("params: sequences", 0, move |cx| {
            let ps = sequence(cx, &small, 2, n);
            encode_params(cx, &ps, 2)
        }));
    }
    if t == Tier::Thorough {
        let all = all.clone();
        v.push(space("params: every pair of offered values", 0, move |cx| {
            let a = cx.pick(&all).clone();
            let b = cx.pick(&all).clone();
            encode_params(cx, &[a, b], 2)
        }));
    }
    {
        let funs = funs.clone();
        let n = t.pick(2, 3);
        v.push(space("function: declarations x selectors x arguments", 0, move |cx| encode_function(cx, &funs, n)));
    }
    v.push(space("function: unreadable ABI files", 0, |cx| bad_files(cx, 20)));
    let n = t.pick(4, 5);
    v.push(space("incomplete command lines", 0, move |cx| {
        bad_usage(
            cx,
            &["encode", "params", "function", "-v", "-p", "-l", "bool", "1"],
            n,
            &[&["encode", "params"], &["encode", "params", "-l"]],
        )
    }));
    v.push(space("arguments that are not text", 0, move |cx| {
        not_text(
            cx,
            &[
                &["encode", "params", "-v", "string", "a"],
                &["encode", "params", "-l", "-v", "uint8", "1", "-v", "bool", "true"],
                &["encode", "function", "ABI", "f", "-p", "a"],
                &["encode", "function", "ABI", "f(string):(bool)", "-p", "a", "-l"],
            ],
        )
    }));
    v.push(space("bottomless type names", 0, |cx| bottomless(cx, 20)));
    v.extend(more_encoding(t));
    v
}

// ---- decoding ---------------------------------------------------------------------------------

/// Hexadecimal text for data, and what it stands for (`None`: not hexadecimal; the flag: it may
/// also be refused).
fn spell(cx: &mut Cx, data: &[u8]) -> (String, Option<(Vec<u8>, bool)>) {
    let h = hexs(data);
    match cx.choose(14) {
        8 if h.len() > 2 => (format!("{} {}", &h[..2], &h[2..]), None),
        9 if h.len() > 2 => (format!("{}_{}", &h[..2], &h[2..]), None),
        10 if h.len() > 64 => (format!("{}\n{}", &h[..64], &h[64..]), None),
        11 if h.len() > 2 => (format!("{}0x{}", &h[..2], &h[2..]), None),
        12 if !h.is_empty() => (format!("\"{}\"", h), None),
        13 if h.len() > 3 => (format!("{},{}", &h[..2], &h[2..]), None),
        8..=13 => (format!("{}.", h), None),
        0 => (h, Some((data.to_vec(), false))),
        1 => (h.to_uppercase(), Some((data.to_vec(), false))),
        2 => (format!("0x{}", h), Some((data.to_vec(), true))),
        3 => (format!("{}0", h), None),
        4 => (format!("{}g0", h), None),
        5 => (format!("{} ", h), if h.is_empty() { None } else { Some((data.to_vec(), true)) }),
        6 => (h[..h.len().saturating_sub(1)].to_string(), if h.is_empty() { Some((vec![], false)) } else { None }),
        _ => (format!("\u{e9}{}", h), None),
    }
}

fn mutated(cx: &mut Cx, ts: &[Ty], data: &[u8], words: bool) -> Vec<u8> {
    let n = data.len() / 32;
    let mut d = data.to_vec();
    let k = cx.choose(if words { 5 + 5 * n } else { 5 });
    let _ = ts;
    match k {
        0 => {}
        1 => {
            d.pop();
        }
        2 => d.truncate(d.len().saturating_sub(32)),
        3 => d.extend([0xee; 32]),
        4 => d.clear(),
        k => {
            let (w, how) = ((k - 5) / 5, (k - 5) % 5);
            let w = &mut d[32 * w..32 * w + 32];
            match how {
                0 => w.copy_from_slice(&[0xff; 32]),
                1 => w.copy_from_slice(&word(0)),
                2 => w.copy_from_slice(&word(2)),
                3 => w.copy_from_slice(&word(data.len())),
                _ => w[0] ^= 0x80,
            }
        }
    }
    d
}

fn lines(ts: &[Ty], vs: &[Val]) -> String {
    ts.iter().zip(vs).map(|(t, v)| format!("{} {}", t.name(), v.display())).collect::<Vec<_>>().join("\n") + "\n"
}

fn decoded(ts: &[Ty], data: Option<(Vec<u8>, bool)>) -> Want {
    match data {
        None => Want::Fail,
        Some((d, doubt)) => match (decode(ts, &d), doubt) {
            (Expect::Reject, _) => Want::Fail,
            (Expect::Must(v), false) => Want::Print(lines(ts, &v)),
            (Expect::Must(v), true) | (Expect::May(v), _) => Want::Maybe(vec![lines(ts, &v)]),
        },
    }
}

fn values(cx: &mut Cx, ts: &[Ty]) -> Vec<Val> {
    let mut g = Vg::new();
    g.blens = &[5, 0, 33];
    g.lens = &[2, 0];
    g.vals(cx, ts)
}

fn decode_params(cx: &mut Cx, ts: &[Ty], alias: bool, words: bool) -> Res {
    let vs = values(cx, ts);
    let d = mutated(cx, ts, &encode(ts, &vs), words);
    let (text, data) = if words { (hexs(&d), Some((d, false))) } else { spell(cx, &d) };
    let mut args = strs(&["decode", "params"]);
    for t in ts {
        let mut n = t.name();
        if alias {
            n = n.replace("uint256", "uint").replace("int256", "int");
        }
        args.extend([String::from("-t"), n]);
    }
    args.push(text);
    let want = decoded(ts, data);
    check(cx, &args, want)
}

fn decode_function(cx: &mut Cx, al: &[MFn], max: usize) -> Res {
    let decl = sequence(cx, al, 1, max);
    for i in 0..decl.len() {
        for j in 0..i {
            if full_sig(&decl[i]) == full_sig(&decl[j]) {
                return cx.prune();
            }
        }
    }
    let ops: Vec<Op> = decl.iter().cloned().map(Op::Fn).collect();
    let sel = cx.pick(&selectors(&decl)).clone();
    let target = select(&decl, &sel);
    let shape = match &target {
        Sel::One(f) => (*f).clone(),
        Sel::Maybe(v) => v[0].clone(),
        Sel::None => decl[0].clone(),
    };
    let ts = tys_of(&shape.outs);
    let mut args = strs(&["decode", "function"]);
    args.push(file(document(&ops).as_bytes()));
    args.push(sel);
    let vs = Vg::new().vals(cx, &ts);
    if let Sel::None = target {
        args.push(hexs(&encode(&ts, &vs)));
        return check(cx, &args, Want::Fail);
    }
    let (text, data) = if let Sel::One(_) = target {
        let d = mutated(cx, &ts, &encode(&ts, &vs), false);
        spell(cx, &d)
    } else {
        let d = encode(&ts, &vs);
        (hexs(&d), Some((d, false)))
    };
    args.push(text);
    let want = match target {
        Sel::None => Want::Fail,
        Sel::One(f) => decoded(&tys_of(&f.outs), data),
        Sel::Maybe(v) => {
            let mut all = vec![];
            for f in v {
                match decoded(&tys_of(&f.outs), data.clone()) {
                    Want::Print(s) => all.push(s),
                    Want::Maybe(s) => all.extend(s),
                    _ => {}
                }
            }
            Want::Maybe(all)
        }
    };
    check(cx, &args, want)
}

fn ev(name: &str, ins: &[(Ty, bool)], anon: bool) -> Ev {
    Ev {
        name: name.into(),
        ins: ins.iter().enumerate().map(|(i, (t, x))| (if i == 2 { "".into() } else { format!("p{}", i) }, t.clone(), *x)).collect(),
        anon,
    }
}

fn evs() -> Vec<Ev> {
    vec![
        ev("Evt", &[(Ty::Bool, true), (Ty::Addr, false)], true),
        ev("Evt", &[(Ty::Uint(256), false), (Ty::Bool, true)], false),
        ev("Evt", &[(Ty::Str, true), (Ty::Str, false), (Ty::Int(8), true)], false),
        ev("Evt", &[], false),
        ev("evt", &[(Ty::Bool, true)], false),
        ev("Ev", &[(tup(&[Ty::Bool, Ty::Bytes]), false), (arr(Ty::Uint(256)), true), (Ty::FBytes(4), true)], false),
        ev("Other", &[(Ty::Bytes, false), (arr(Ty::Str), false)], true),
    ]
}

fn ev_sig(e: &Ev) -> String {
    signature(&e.name, &e.tys())
}

fn decode_log(cx: &mut Cx, al: &[Ev], max: usize) -> Res {
    let decl = sequence(cx, al, 1, max);
    for i in 0..decl.len() {
        for j in 0..i {
            if ev_sig(&decl[i]) == ev_sig(&decl[j]) {
                return cx.prune();
            }
        }
    }
    let mut ops: Vec<Op> = decl.iter().map(|e| Op::Ev(MEv { name: e.name.clone(), ins: e.ins.clone(), anon: e.anon })).collect();
    ops.push(Op::Fn(func("fun", &[], &[])));
    let mut sels = strs(&["Evt", "Ev", "nope", "", "Evt()", "Evt(bool)", "Evt(", "fun", "fun()", "Evt(uint,bool)"]);
    for e in &decl {
        sels.push(e.name.clone());
        sels.push(ev_sig(e));
        sels.push(ev_sig(e).replace(',', ", "));
        sels.push(ev_sig(e).replacen('(', " (", 1));
        sels.push(ev_sig(e).to_uppercase());
        sels.push(format!("{}{}", e.name, ev_sig(e)[e.name.len()..].to_uppercase()));
    }
    let mut seen = std::collections::HashSet::new();
    sels.retain(|x| seen.insert(x.clone()));
    let sel = cx.pick(&sels).clone();
    let (e, must): (Option<&Ev>, bool) = if sel.contains('(') {
        match decl.iter().find(|e| ev_sig(e) == sel) {
            Some(e) => (Some(e), true),
            // written the usual way, with a space after each comma
            None if decl.iter().any(|e| ev_sig(e).replace(',', ", ") == sel) => (decl.iter().find(|e| ev_sig(e).replace(',', ", ") == sel), true),
            None => (decl.iter().find(|e| ev_sig(e) == sel.replace(' ', "")), false),
        }
    } else {
        let v: Vec<_> = decl.iter().filter(|e| e.name == sel).collect();
        (if v.len() == 1 { Some(v[0]) } else { None }, true)
    };
    let shape = e.unwrap_or(&decl[0]);
    let vs = Vg::new().vals(cx, &shape.tys());
    let (mut topics, data) = shape.emit(&vs);
    let mut args = strs(&["decode", "log"]);
    args.push(file(document(&ops).as_bytes()));
    args.push(sel);
    if e.is_none() {
        for t in &topics {
            args.extend([String::from("-l"), hexs(t)]);
        }
        args.push(hexs(&data));
        return check(cx, &args, Want::Fail);
    }
    // change the topics, one topic's text, or the data
    let n = topics.len();
    let mut texts: Vec<String> = vec![];
    let mut bad = false;
    let mut doubt = !must;
    let k = cx.choose(3 + 7 * n);
    let mut special = None;
    match k {
        0 => {}
        1 => topics.push(word(1)),
        2 => topics.insert(0, word(1)),
        k => {
            let (i, how) = ((k - 3) / 7, (k - 3) % 7);
            match how {
                0 => {
                    topics.remove(i);
                }
                1 => topics[i] = [0xff; 32],
                2 => topics[i][31] ^= 1,
                _ => special = Some((i, how)),
            }
        }
    }
    for (i, t) in topics.iter().enumerate() {
        let h = hexs(t);
        texts.push(match special {
            Some((j, 3)) if i == j => h.to_uppercase(),
            Some((j, 4)) if i == j => {
                doubt = true;
                format!("0x{}", h)
            }
            Some((j, 5)) if i == j => {
                bad = true;
                h[..62].to_string()
            }
            Some((j, 6)) if i == j => {
                bad = true;
                format!("{}zz", &h[..62])
            }
            _ => h,
        });
    }
    let d = mutated(cx, &[], &data, false);
    let (text, data) = if k == 0 { spell(cx, &d) } else { (hexs(&d), Some((d, false))) };
    for t in texts {
        args.extend([String::from("-l"), t]);
    }
    args.push(text);
    let e = e.unwrap();
    let show = |v: Vec<Val>| e.ins.iter().zip(v).map(|(p, v)| format!("{} {}", p.0, v.display())).collect::<Vec<_>>().join("\n") + "\n";
    let want = match (bad, data) {
        (true, _) | (_, None) => Want::Fail,
        (_, Some((d, x))) => match (e.parse(&topics, &d), doubt || x) {
            (Expect::Reject, _) => Want::Fail,
            (Expect::Must(v), false) => Want::Print(show(v)),
            (Expect::Must(v), true) | (Expect::May(v), _) => Want::Maybe(vec![show(v)]),
        },
    };
    check(cx, &args, want)
}

pub fn c21(t: Tier) -> Vec<Space> {
    let funs = Arc::new(fns());
    let events = Arc::new(evs());
    let ts = Arc::new(types());
    let mut v = vec![];
    {
        let ts = ts.clone();
        v.push(space("params: one type, changed data and spellings", t.pick(0, 1), move |cx| {
            let ty = cx.pick(&ts).clone();
            let alias = cx.flag();
            decode_params(cx, &[ty], alias, false)
        }));
    }
    {
        let ts = ts.clone();
        v.push(space("params: one type, every word replaced", t.pick(1, 2), move |cx| {
            let ty = cx.pick(&ts).clone();
            decode_params(cx, &[ty], false, true)
        }));
    }
    {
        let ts = ts.clone();
        v.push(space("params: two types, every word replaced", t.pick(0, 1), move |cx| {
            let a = cx.pick(&ts).clone();
            let b = cx.pick(&ts).clone();
            decode_params(cx, &[a, b], false, true)
        }));
    }
    {
        let ts = ts.clone();
        let n = t.pick(3, 4);
        v.push(space("params: lists of types", 0, move |cx| {
            let k = cx.choose(n + 1);
            let m = t.pick(ts.len(), ts.len());
            let l: Vec<Ty> = (0..k).map(|_| ts[cx.choose(m)].clone()).collect();
            let vs = Vg::new().vals(cx, &l);
            let mut args = strs(&["decode", "params"]);
            for t in &l {
                args.extend([String::from("-t"), t.name()]);
            }
            args.push(hexs(&encode(&l, &vs)));
            check(cx, &args, Want::Print(lines(&l, &vs)))
        }));
    }
    v.push(space("params: names that are no types", 0, |cx| {
        let n = *cx.pick(&NAMES);
        let pos = cx.choose(3);
        let d = hexs(&[word(64), word(1), word(0)].concat());
        let mut args = strs(&["decode", "params"]);
        for i in 0..2 {
            if i == pos {
                args.extend(strs(&["-t", n]));
            }
            args.extend(strs(&["-t", "uint256"]));
        }
        if pos == 2 {
            args.extend(strs(&["-t", n]));
        }
        args.push(d.clone());
        let want = match parse_name(n) {
            Named::Reject => Want::Fail,
            Named::May(_) => Want::Any,
            Named::Must(t) => {
                let mut l = vec![Ty::Uint(256), Ty::Uint(256)];
                l.insert(pos, t);
                decoded(&l, Some((unhex(&d).unwrap(), false)))
            }
        };
        check(cx, &args, want)
    }));
    {
        let funs = funs.clone();
        let n = t.pick(2, 3);
        v.push(space("function: declarations x selectors x data", 0, move |cx| decode_function(cx, &funs, n)));
    }
    {
        let events = events.clone();
        let n = t.pick(2, 3);
        v.push(space("log: declarations x selectors x topics x data", 0, move |cx| decode_log(cx, &events, n)));
    }
    v.push(space("unreadable ABI files", 0, |cx| bad_files(cx, 21)));
    let n = t.pick(4, 5);
    v.push(space("incomplete command lines", 0, move |cx| {
        bad_usage(cx, &["decode", "params", "function", "log", "-t", "-l", "bool", "00"], n, &[&["decode", "params", "00"]])
    }));
    v.push(space("arguments that are not text", 0, move |cx| {
        let t = "0000000000000000000000000000000000000000000000000000000000000001";
        not_text(
            cx,
            &[
                &["decode", "params", "-t", "bool", t],
                &["decode", "function", "ABI", "f", t],
                &["decode", "function", "ABI", "f(string):(bool)", t],
                &["decode", "log", "ABI", "e", "-l", t, ""],
                &["decode", "log", "ABI", "e(bool)", "-l", t, ""],
            ],
        )
    }));
    v.push(space("bottomless type names", 0, |cx| bottomless(cx, 21)));
    v.extend(more_decoding(t));
    v
}
