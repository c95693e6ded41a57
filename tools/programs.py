"""C19: generates Rust programs that use frozen_map!, compiles them against /repo, runs them, and
compares what each map holds with what was written down. Programs with a literal that doesn't fit
the key type must not compile."""
import concurrent.futures
import json
import os
import random
import re
import signal
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("VH_TARGET", os.path.join(VERIF, "target"))
NPROC = max(1, min(16, os.cpu_count() or 8))

INTS = {"u8": (0, 2**8 - 1), "i8": (-2**7, 2**7 - 1), "u16": (0, 2**16 - 1), "i16": (-2**15, 2**15 - 1),
        "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1),
        "u128": (0, 2**128 - 1), "i128": (-2**127, 2**127 - 1), "usize": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1)}

PRELUDE = r'''
#![allow(unused, clippy::all, text_direction_codepoint_in_literal)]
use frozen_collections::frozen_map;
use frozen_collections::traits::len::Len;
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! { static LOG: RefCell<Vec<u64>> = RefCell::new(Vec::new()); }
/// A value; its evaluation is recorded.
fn v(id: u64) -> u64 { LOG.with(|l| l.borrow_mut().push(id)); id.wrapping_mul(0x9E37_79B9_7F4A_7C15) }
fn w(id: u64) -> u64 { id.wrapping_mul(0x9E37_79B9_7F4A_7C15) }
#[derive(Clone, Debug, PartialEq)] struct Pair { a: u64, b: &'static str }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] enum Color { Red, Green, Blue, Other(u8) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)] struct Id(u32);
macro_rules! twice { ($e:expr) => { [$e, 2] } }
const FORTY: usize = 40;

macro_rules! chk {
    ($m:expr, $k:ty, $v:ty, $want:expr, $absent:expr, $ids:expr) => {{
        LOG.with(|l| l.borrow_mut().clear());
        let mut m = $m;
        let mut log = LOG.with(|l| l.borrow().clone());
        log.sort();
        let ids: Vec<u64> = $ids;
        let want: Vec<($k, $v)> = $want;
        let absent: Vec<$k> = $absent;
        if log != ids { panic!("value expressions {log:?} were evaluated, expected each of {ids:?} once"); }
        if m.len() != want.len() || m.is_empty() != want.is_empty() { panic!("len is {}, {} entries were listed", m.len(), want.len()); }
        for (k, x) in &want {
            let got: Option<&$v> = m.get(k);
            if got != Some(x) { panic!("get({k:?}) = {got:?}, expected {x:?}"); }
            if !m.contains_key(k) { panic!("contains_key({k:?}) is false"); }
            if m.get_key_value(k) != Some((k, x)) { panic!("get_key_value({k:?}) = {:?}", m.get_key_value(k)); }
        }
        for k in &absent {
            let got: Option<&$v> = m.get(k);
            if got.is_some() { panic!("get({k:?}) = {got:?}, the key isn't listed"); }
            if m.contains_key(k) { panic!("contains_key({k:?}) is true, the key isn't listed"); }
        }
        let mut n = 0;
        for (k, x) in m.iter() {
            let (k, x): (&$k, &$v) = (k, x);
            if !want.iter().any(|e| e.0 == *k && e.1 == *x) { panic!("iteration shows {k:?}: {x:?}, which isn't listed"); }
            n += 1;
        }
        if n != want.len() { panic!("iteration shows {n} entries, {} were listed", want.len()); }
        for (k, x) in &want {
            if m.get_mut(k).map(|y| y.clone()) != Some(x.clone()) { panic!("get_mut({k:?}) finds something else"); }
        }
        let t = std::any::type_name_of_val(&m);
        t.split('<').next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string()
    }};
}
'''

MAIN = r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for (i, f) in CASES.iter().enumerate() {
        match std::panic::catch_unwind(f) {
            Ok(t) => println!("{i} ok {t}"),
            Err(p) => {
                let s = p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or("?");
                println!("{i} BAD {}", s.replace('\n', "\\n"));
            }
        }
    }
    println!("END");
}
'''


# ---------------------------------------------------------------------------------------------
# keys

def int_literal(r, x, ty, plain=False):
    neg, a = x < 0, abs(x)
    style = 0 if plain else r.choice([0, 0, 0, 0, 1, 2, 3, 4])
    s = {0: str, 1: hex, 2: oct, 3: bin, 4: lambda y: f"{y:,}".replace(",", "_")}[style](a)
    if style == 1 and r.random() < .5:
        s = "0x" + s[2:].upper()
    if not plain and r.random() < .15:
        s += r.choice(["", "_"]) + ty
    return ("-" + ("" if r.random() < .9 else " ") if neg else "") + s


def clip(x, ty):
    lo, hi = INTS[ty]
    return (x - lo) % (hi - lo + 1) + lo


def int_keys(r, ty, n):
    lo, hi = INTS[ty]
    n = min(n, hi - lo + 1)
    shape = r.choice(["run", "run at the bottom", "run at the top", "run across zero", "gap", "sparse", "step", "clusters", "extremes"])
    if shape == "run":
        s = r.randint(lo, hi - n + 1)
        k = list(range(s, s + n))
    elif shape == "run at the bottom":
        k = list(range(lo, lo + n))
    elif shape == "run at the top":
        k = list(range(hi - n + 1, hi + 1))
    elif shape == "run across zero":
        s = max(lo, -r.randint(0, n))
        k = list(range(s, min(hi + 1, s + n)))
    elif shape == "gap":
        s = r.randint(lo, max(lo, hi - n))
        k = list(range(s, min(hi + 1, s + n + 1)))
        if len(k) > n > 0:
            del k[r.randint(0, n)]
    elif shape == "sparse":
        k = set()
        while len(k) < n:
            k.add(r.randint(lo, hi))
        k = list(k)
    elif shape == "step":
        st = r.randint(1, max(1, (hi - lo) // max(1, n)))
        st = min(st, r.choice([2, 3, 10, 256, 1 << 20, 1 << 40, 1 << 100]))
        s = r.randint(lo, hi - st * max(0, n - 1)) if hi - st * max(0, n - 1) >= lo else lo
        k = [x for x in (s + i * st for i in range(n)) if x <= hi]
    elif shape == "clusters":
        k = set()
        while len(k) < n:
            c = r.randint(lo, hi)
            for i in range(r.randint(1, 6)):
                if len(k) < n:
                    k.add(clip(c + i, ty))
        k = list(k)
    else:
        k = list(dict.fromkeys([lo, hi, clip(0, ty), clip(1, ty), lo + 1, hi - 1, clip(-1, ty), hi // 2, hi // 2 + 1]))
        while len(k) < n:
            x = r.randint(lo, hi)
            if x not in k:
                k.append(x)
        k = k[:n]
    order(r, k)
    return k, shape


def order(r, k):
    o = r.randint(0, 3)
    if o <= 1:
        r.shuffle(k)
    elif o == 2:
        k.sort(reverse=True)


def int_absent(r, ty, keys):
    lo, hi = INTS[ty]
    have = set(keys)
    c = set()
    for x in r.sample(keys, min(len(keys), 10)):
        for d in (1, -1, 2, 256, 1 << 32, 1 << 64, 1 << 31):
            c.add(clip(x + d, ty))
            c.add(clip(x - d, ty))
        c.add(clip(-x, ty))
        c.add(clip(~x, ty))
    if keys:
        c |= {clip(min(keys) - 1, ty), clip(max(keys) + 1, ty)}
    c |= {lo, hi, 0, 1, hi // 2}
    for _ in range(6):
        c.add(r.randint(lo, hi))
    c = [x for x in c if x not in have]
    r.shuffle(c)
    return c[:50]


ALPHABETS = ["ab", "abcdefghijklmnopqrstuvwxyz", "0123456789", "aé語🦀", "xyzXYZ_-. ", "\"\\\n\t\r\0'{}#ü"]


def word(r, n, al):
    return "".join(r.choice(al) for _ in range(n))


def str_keys(r, n):
    shape = r.choice(["numbered", "prefixed", "suffixed", "same length", "every length", "random", "tail after fillers", "head before fillers",
                      "middle", "columns", "short and long", "odd characters", "words"])
    al = r.choice(ALPHABETS[:2] + ALPHABETS[2:4])
    pre, post = word(r, r.randint(0, 12), al), word(r, r.randint(0, 6), al)
    k = {}
    width = r.choice([0, 0, 2, 4, 7])
    tries = 0
    while len(k) < n:
        i = len(k)
        tries += 1
        u = f"{i:0{width}}" if width else str(i)
        if tries > 20 * n + 50:
            s = f"{pre}~{tries}{post}"
        elif shape == "numbered":
            s = u
        elif shape == "prefixed":
            s = pre + u
        elif shape == "suffixed":
            s = u + post
        elif shape == "same length":
            s = pre + f"{r.randint(0, 10**7):08}" + post
        elif shape == "every length":
            s = word(r, i, al[:1]) if n < 300 else u
        elif shape == "random":
            s = word(r, r.randint(0, 9), al)
        elif shape == "tail after fillers":
            s = "-" * r.randint(0, 9) + f"{i:04}"
        elif shape == "head before fillers":
            s = f"{i:04}" + "-" * r.randint(0, 9)
        elif shape == "middle":
            s = pre + f"{i:04}" + post
        elif shape == "columns":
            b = list("!" * 8)
            b[r.randint(0, 7)] = chr(35 + r.randint(0, 57))
            b[r.randint(0, 7)] = chr(35 + r.randint(0, 57))
            s = "".join(b)
        elif shape == "short and long":
            s = word(r, r.choice([0, 1, 2, 30, 31, 60]), al) + (u if r.random() < .7 else "")
        elif shape == "odd characters":
            s = word(r, r.randint(0, 8), ALPHABETS[5] + "ab")
        else:
            s = r.choice(["get", "set", "put", "post", "head", "delete", "options", "true", "false", "null", "self", "super", "crate", "as", "in", "if"]) + (u if i > 8 else "")
        k.setdefault(s, None)
    k = list(k)
    order(r, k)
    return k, shape


def str_absent(r, keys):
    have = set(keys)
    c = {"", " ", "a", "~~~~", "\0"}
    for s in r.sample(keys, min(len(keys), 12)):
        c |= {s + "x", "x" + s, s[:-1], s[1:], s.upper(), s * 2, s[::-1]}
        if s:
            i = r.randrange(len(s))
            c.add(s[:i] + "~" + s[i + 1:])
            j = r.randrange(len(s))
            if i != j:
                t = list(s)
                t[i], t[j] = t[j], t[i]
                c.add("".join(t))
    c = [x for x in sorted(c) if x not in have]
    r.shuffle(c)
    return c[:50]


def str_literal(r, s, plain=False):
    style = 0 if plain else r.choice([0, 0, 0, 1, 2])
    if style == 1 and "\r" not in s and "\0" not in s:
        h = "#"
        while '"' + h in s:
            h += "#"
        return f'r{h}"{s}"{h}'
    out = []
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\0":
            out.append("\\0")
        elif style == 2 and r.random() < .3:
            out.append(f"\\x{o:02x}" if o < 128 and r.random() < .5 else f"\\u{{{o:x}}}")
        else:
            out.append(ch)
    t = "".join(out)
    if style == 2 and out and r.random() < .3:
        # the literal goes on in the next line, where leading blanks don't count
        i = next((i for i, x in enumerate(out) if i > 0 and not x.isspace()), None)
        if i:
            t = "".join(out[:i]) + "\\\n        " + "".join(out[i:])
    return f'"{t}"'


OTHER = ["String", "char", "bool", "(u8, i8)", "[u8; 2]", "Color", "Id", "Option<u32>", "&'static str", "()", "usize", "isize", "Vec<u16>",
         "std::primitive::u32", "Box<str>"]


def other_keys(r, ty, n):
    """(expression, key as a hashable) pairs, and keys that are absent."""
    if ty in ("usize", "isize"):
        k, shape = int_keys(r, ty, n)
        e = [int_literal(r, x, ty) for x in k]
        if ty == "usize" and k and r.random() < .3 and 40 not in k:
            k[0] = 40
            e[0] = "FORTY"
        return e, [int_literal(r, x, ty, True) for x in int_absent(r, ty, k)], shape
    if ty == "std::primitive::u32":
        k, shape = int_keys(r, "u32", n)
        return [int_literal(r, x, "u32", True) for x in k], [str(x) for x in int_absent(r, "u32", k)], shape
    if ty in ("String", "&'static str", "Box<str>"):
        k, shape = str_keys(r, n)
        f = {"String": lambda s: r.choice(["String::from({})", "{}.to_string()", "{}.to_owned()"]), "&'static str": lambda s: "{}",
             "Box<str>": lambda s: "Box::<str>::from({})"}[ty]
        g = {"String": "String::from({})", "&'static str": "{}", "Box<str>": "Box::<str>::from({})"}[ty]
        return [f(0).format(str_literal(r, s)) for s in k], [g.format(str_literal(r, s, True)) for s in str_absent(r, k)], shape
    pool = {
        "char": ["'\\u{%x}'" % c for c in list(range(0x20, 0x7f)) + list(range(0xa0, 0x180)) + list(range(0x1f600, 0x1f650))],
        "bool": ["true", "false"],
        "(u8, i8)": [f"({a}, {b})" for a in range(0, 256, 17) for b in range(-128, 128, 15)],
        "[u8; 2]": [f"[{a}, {b}]" for a in range(0, 256, 15) for b in range(0, 256, 17)],
        "Color": ["Color::Red", "Color::Green", "Color::Blue"] + [f"Color::Other({i})" for i in range(256)],
        "Id": [f"Id({i * 77})" for i in range(600)],
        "Option<u32>": ["None"] + [f"Some({i * i})" for i in range(500)],
        "()": ["()"],
        "Vec<u16>": ["vec![]"] + [f"vec![{i}, 1, {i * i % 65536}]" for i in range(400)] + [f"vec![{i}]" for i in range(100)],
    }[ty]
    p = pool[:]
    r.shuffle(p)
    n = min(n, len(p))
    return p[:n], p[n:n + 30], "of a pool"


# ---------------------------------------------------------------------------------------------
# programs

VALUES = [
    ("u64", "v({i})", "w({i})"),
    ("u64", "v({i})", "w({i})"),
    ("u64", "{{ let x = v({i}); x ^ 1 }}", "w({i}) ^ 1"),
    ("u64", "if m > 0 {{ v({i}) }} else {{ 0 }}", "w({i})"),
    ("u64", "v({i}).wrapping_add(m as u64 - m as u64)", "w({i})"),
    ("(u64, &'static str)", '(v({i}), "a: b, c")', '(w({i}), "a: b, c")'),
    ("String", 'format!("{{}}, {{}}", v({i}), 1)', 'format!("{{}}, {{}}", w({i}), 1)'),
    ("[u64; 2]", "twice!(v({i}))", "[w({i}), 2]"),
    ("Pair", 'Pair {{ a: v({i}), b: "x" }}', 'Pair {{ a: w({i}), b: "x" }}'),
    ("Option<Vec<u64>>", "Some(std::iter::repeat::<u64>(v({i})).take(2).collect::<Vec<u64>>())", "Some(vec![w({i}); 2])"),
    ("u64", "(|a: u64, b: u64| a | b)(v({i}), 0)", "w({i})"),
    ("u64", "match v({i}) {{ x => x }}", "w({i})"),
    ("u64", "*frozen_map!(u8, 1: 1, 2: v({i}), 3: 3).get(&2).unwrap()", "w({i})"),
]


def sizes(r):
    return r.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 25, 30, 33, 40])


def case(r, idx, forced=None):
    """The source of one function, and a description."""
    n, ty = sizes(r), None
    if forced:
        n, ty = forced
    if ty is None:
        ty = r.choice(list(INTS)[:10] * 2 + ["&str"] * 20 + OTHER)
    vt, ve, vw = r.choice(VALUES if n < 100 else VALUES[:1])
    if ty in INTS and ty not in ("usize", "isize"):
        k, shape = int_keys(r, ty, n)
        lits = [int_literal(r, x, ty) for x in k]
        want = [int_literal(r, x, ty, True) for x in k]
        absent = [int_literal(r, x, ty, True) for x in int_absent(r, ty, k)]
        kt = ty
    elif ty == "&str":
        k, shape = str_keys(r, n)
        lits = [str_literal(r, s) for s in k]
        if len(k) < 3:
            kt = "&'static str"
            want = [str_literal(r, s, True) for s in k]
            absent = [str_literal(r, s, True) for s in str_absent(r, k)]
        else:
            kt = "String"
            want = [f"String::from({str_literal(r, s, True)})" for s in k]
            absent = [f"String::from({str_literal(r, s, True)})" for s in str_absent(r, k)]
    else:
        lits, absent, shape = other_keys(r, ty, n)
        want, kt = lits, ty
    base = idx * 100000
    ids = [base + i for i in range(len(lits))]
    entries = [f"{a}: {ve.format(i=i)}" for a, i in zip(lits, ids)]
    sep = r.choice([", ", ",\n        ", " ,"])
    body = f"{ty}, " + sep.join(entries) + ("," if entries and r.random() < .5 else "")
    a, b = r.choice(["()", "()", "[]", "{}"])
    call = f"frozen_map!{a}{body}{b}"
    how = r.choice(["plain"] * 6 + ["through a macro", "path", "closure"])
    pre = ""
    if how == "through a macro" and entries:
        pre = f"    macro_rules! through {{ ($t:ty, $($k:expr => $v:expr),*) => {{ frozen_map!($t, $($k: $v),*) }} }}\n"
        # types and keys reach frozen_map! as they were parsed
        call = f"through!({ty}, " + ", ".join(e for e in [f"{x} => {ve.format(i=i)}" for x, i in zip(lits, ids)]) + ")"
        if ty == "&str":
            pre = "    macro_rules! through { ($($k:literal => $v:expr),*) => { frozen_map!(&str, $($k: $v),*) } }\n"
            call = "through!(" + ", ".join(f"{x} => {ve.format(i=i)}" for x, i in zip(lits, ids)) + ")"
    elif how == "path":
        call = "frozen_collections::" + call
    elif how == "closure":
        call = f"(move || {call})()"
    src = f"fn case_{idx}() -> String {{\n    let m = 1u8;\n{pre}    chk!({call}, {kt}, {vt}, vec![" + ", ".join(
        f"({x}, {vw.format(i=i)})" for x, i in zip(want, ids)) + "], vec![" + ", ".join(absent) + "], vec![" + ", ".join(map(str, ids)) + "])\n}\n"
    return src, dict(type=ty, n=len(lits), shape=shape, how=how, sig=(ty, tuple(lits), ve, how))


def program(r, count, forced=()):
    parts, meta = [], []
    for i in range(count):
        s, m = case(r, i, forced[i] if i < len(forced) else None)
        parts.append(s)
        meta.append(m)
    src = PRELUDE + "\n".join(parts) + "static CASES: &[fn() -> String] = &[" + ", ".join(f"case_{i}" for i in range(count)) + "];\n" + MAIN
    return src, meta


def unfit(r):
    """A program with one literal that doesn't fit, and the same with one that does."""
    ty = r.choice(list(INTS))
    lo, hi = INTS[ty]
    n = r.choice([1, 2, 3, 3, 4, 5, 8, 20])
    k, shape = int_keys(r, ty, n)
    n = len(k)
    at = r.randrange(n)
    bad = r.choice([hi + 1, hi + 1, hi + 2, hi * 2 + 1, hi * 2 + 2, hi + r.randint(1, hi), lo - 1, lo - 1, lo - r.randint(1, hi)])
    # rustc has no literals beyond 128 bits, and Rust has no negative ones of unsigned types
    lits = [int_literal(r, x, ty, True) for x in k]
    style = r.choice([str, str, hex, bin])
    b = ("-" if bad < 0 else "") + style(abs(bad))
    text = "use frozen_collections::frozen_map;\nfn main() {{ let m = frozen_map!({}, {}); let _ = m.get(&0); }}\n"
    mk = lambda l: text.format(ty, ", ".join(f"{x}: {i}u64" for i, x in enumerate(l)))
    return mk(lits[:at] + [b] + lits[at + 1:]), mk(lits), dict(type=ty, n=n, literal=b, shape=shape)


# ---------------------------------------------------------------------------------------------
# running

class Lib:
    """The library and its macros, built one way."""

    def __init__(self, profile, clean_env, run_build):
        self.profile = profile
        target = os.path.join(TARGET, "probe")
        env = clean_env({"CARGO_TARGET_DIR": target})
        cmd = ["cargo", "build", "--offline", "--message-format=json-render-diagnostics", "--manifest-path", os.path.join(VERIF, "harness", "probe", "Cargo.toml")]
        if profile == "release":
            cmd.append("--release")
        self.error = None
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        if r.returncode != 0:
            self.error = "building frozen-collections failed: " + r.stderr[-1500:]
            return
        self.rlib = None
        for line in r.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("frozen-collections", "frozen_collections"):
                self.rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
        self.deps = os.path.join(target, "debug" if profile == "dev" else "release", "deps")
        self.env = env

    def rustc(self, src, out, extra=(), timeout=400):
        cmd = ["rustc", "--edition", "2021", "--crate-name", "program", src, "-o", out, "--extern", f"frozen_collections={self.rlib}", "-L", f"dependency={self.deps}"] + list(extra)
        if self.profile == "release":
            cmd += ["-Copt-level=1"]
        try:
            r = subprocess.run(cmd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, start_new_session=True)
        except subprocess.TimeoutExpired:
            return None, "rustc took too long"
        return r.returncode, r.stdout


def run_program(lib, src, path, meta):
    """(problems, implementation names): each problem is (case or None, message), or a string if there is no answer."""
    with open(path + ".rs", "w") as f:
        f.write(src)
    rc, text = lib.rustc(path + ".rs", path)
    if rc is None or rc not in (0, 1):
        return [f"rustc ended with {rc}: {text[:500]}"], []
    if rc == 1:
        starts = [(i, src[:m.start()].count("\n") + 1) for i, m in ((int(m.group(1)), m) for m in re.finditer(r"^fn case_(\d+)\(", src, re.M))]
        out = []
        for err in re.split(r"\n(?=error)", text):
            if not err.startswith("error") or "aborting due to" in err:
                continue
            at = [int(x) for x in re.findall(r"--> \S+?\.rs:(\d+):", err) if x] + [int(x) for x in re.findall(r"^(\d+)\s*\|", err, re.M)]
            hit = None
            for line in at:
                c = [i for i, s in starts if s <= line]
                if c and line <= src[:src.index("static CASES")].count("\n") + 1:
                    hit = c[-1]
                    break
            out.append((hit, "a frozen_map! invocation doesn't compile: " + err[:700]))
        seen, uniq = set(), []
        for c, m in out:
            if c not in seen:
                seen.add(c)
                uniq.append((c, m))
        return uniq[:5] or [f"rustc failed without saying why: {text[:500]}"], []
    try:
        r = subprocess.run([path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120, start_new_session=True)
    except subprocess.TimeoutExpired:
        return [(None, "a program that only builds maps and looks keys up ran for 120 s")], []
    finally:
        os.unlink(path)
    problems, impls = [], []
    for line in r.stdout.splitlines():
        m = re.match(r"(\d+) (ok|BAD) (.*)", line)
        if m and m.group(2) == "BAD":
            problems.append((int(m.group(1)), m.group(3)[:800]))
        elif m:
            impls.append(m.group(3))
    if not r.stdout.rstrip().endswith("END"):
        if r.returncode == -signal.SIGKILL:
            return ["a program was killed"], []
        problems.append((None, f"the program ended with {r.returncode} after {len(impls)} maps: {r.stdout[-300:]}"))
    return problems, impls


def cut(src, i):
    """The program with only one of its cases."""
    if i is None:
        return src
    m = re.search(rf"^fn case_{i}\(.*?^}}\n", src, re.M | re.S)
    return PRELUDE + m.group(0) + f"static CASES: &[fn() -> String] = &[case_{i}];\n" + MAIN if m else src


TIERS = {
    "quick": dict(dev=40, release=20, count=36, unfit=120, budget=None),
    "thorough": dict(dev=800, release=400, count=40, unfit=3000, budget=None),
}


def libs_for(names):
    import check
    return {n: Lib(n, check.clean_env, check.run_build) for n in names}


def run(tier, seed, tmp, cov, distinct, violations, inconclusive):
    t = TIERS[tier]
    libs = libs_for(["dev", "release"])
    for l in libs.values():
        if l.error:
            inconclusive.append(l.error)
            return
    jobs = []
    # sizes at which the capacity type changes, for each kind of map
    edges = [(n, ty) for n in (255, 256, 257, 300) for ty in ("u16", "&str", "Id", "i64", "&str", "usize", "String")]
    master = random.Random(f"{seed}-{tier}")
    for kind in ("dev", "release"):
        for p in range(t[kind]):
            forced = []
            if p < 7:
                forced = [edges[(p * 4 + j) % len(edges)] for j in range(4)]
            elif p == 7:
                forced = [(n, ty) for n in (0, 1, 2, 3) for ty in ("&str", "u8", "i128", "Color", "char")]
            elif p == 8 and tier == "thorough":
                forced = [(65535, "u32"), (65536, "i64"), (65537, "&str"), (65536, "usize")]
            jobs.append((kind, p, master.getrandbits(64), forced))

    def one(job):
        kind, p, s, forced = job
        r = random.Random(s)
        small = any(n > 1000 for n, _ in forced)
        src, meta = program(r, 4 if small else (12 if forced and forced[0][0] > 200 else t["count"]), forced)
        problems, impls = run_program(libs[kind], src, os.path.join(tmp, f"p_{kind}_{p}"), meta)
        return job, src, meta, problems, impls

    def fail(job):
        j, s = job
        r = random.Random(s)
        bad, good, meta = unfit(r)
        lib = libs["dev" if j % 3 else "release"]
        out = []
        for name, text in (("bad", bad), ("good", good)):
            f = os.path.join(tmp, f"f_{name}_{j}.rs")
            with open(f, "w") as h:
                h.write(text)
            rc, msg = lib.rustc(f, f + ".rmeta", ["--emit=metadata"])
            for x in (f, f + ".rmeta"):
                if os.path.exists(x):
                    os.unlink(x)
            out.append((rc, msg))
        return bad, good, meta, out

    def ev(k, n=1):
        cov["events"][k] = cov["events"].get(k, 0) + n

    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        fails = [ex.submit(fail, (j, master.getrandbits(64))) for j in range(t["unfit"])]
        runs = [ex.submit(one, j) for j in jobs]
        for f in runs:
            (kind, p, s, forced), src, meta, problems, impls = f.result()
            e = cov["engines"].setdefault(f"programs ({kind})", {"runs": 0, "evaluations": 0})
            e["runs"] += 1
            for x in problems:
                if isinstance(x, str):
                    inconclusive.append(x)
                else:
                    c, msg = x
                    d = f"{meta[c]['type']}, {meta[c]['n']} entries, {meta[c]['shape']}, {meta[c]['how']}" if c is not None else ""
                    violations.append({"kind": "special", "engine": f"programs ({kind})", "case": c, "message": msg, "description": d, "profile": kind,
                                       "mode": "run", "source": cut(src, c)})
            e["evaluations"] += len(impls)
            cov["evaluations"] += len(impls)
            ev("maps compared with what was written", len(impls))
            for i in impls:
                ev("invocations that made a " + i)
            for m in meta:
                ev("key type " + m["type"])
                if m["how"] != "plain":
                    ev("invocations: " + m["how"])
                if m["n"] >= 2:
                    distinct.add(repr(m["sig"]))
                if len(cov["samples"]) < 5 and m["n"] in (3, 4):
                    cov["samples"].append(f"{m['type']}: {', '.join(m['sig'][1])} ({m['shape']}, {m['how']})"[:300])
        for f in fails:
            bad, good, meta, ((rb, tb), (rg, tg)) = f.result()
            if rg not in (0, 1) or rb not in (0, 1, 101):
                inconclusive.append(f"rustc ended with {rb}, {rg}: {(tb + tg)[:300]}")
                continue
            cov["evaluations"] += 1
            d = f"{meta['type']}, {meta['n']} entries, literal {meta['literal']}"
            if rg != 0:
                violations.append({"kind": "special", "engine": "programs", "case": None, "message": "a frozen_map! invocation doesn't compile: " + tg[:700],
                                   "description": d, "profile": "dev", "mode": "accept", "source": good})
            if rb == 0:
                violations.append({"kind": "special", "engine": "programs", "case": None, "description": d, "profile": "dev", "mode": "reject", "source": bad,
                                   "message": f"a map of {meta['type']} keys compiles although it lists key {meta['literal']}, which doesn't fit"})
            else:
                ev("literals that don't fit, refused")
                distinct.add(bad)


def replay(v):
    import tempfile
    import shutil
    libs = libs_for([v["profile"]])
    lib = libs[v["profile"]]
    if lib.error:
        print(lib.error)
        return 2
    tmp = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        path = os.path.join(tmp, "p")
        if v["mode"] == "run":
            problems, impls = run_program(lib, v["source"], path, None)
            print(problems or f"no problem: {impls}")
            return 1 if problems else 0
        with open(path + ".rs", "w") as f:
            f.write(v["source"])
        rc, text = lib.rustc(path + ".rs", path + ".rmeta", ["--emit=metadata"])
        print(text)
        return int((rc == 0) == (v["mode"] == "reject"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
