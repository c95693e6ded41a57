"""Part of C13: what a collection hands out can't be used longer, or by more users at once, than the
collection allows. Each function of a generated program uses a collection as safe Rust mustn't be able to
(a reference that outlives its map, two exclusive references to one value, a value written while it is
read), for every type and call; next to it is the same use done properly. The library is built from /repo;
the misuse must be refused for each function by itself, the proper use must be accepted, and runs.
A misuse that is accepted is undefined behaviour that needs no unsafe code."""
import json
import os
import re
import subprocess
import sys

from programs import libs_for

BORROW = re.compile(r"E0(499|502|505|506|515|597|713|716|503|521|621|700|373)|lifetime may not live long enough")

HEAD = r'''
#![allow(unused, dead_code, clippy::all)]
use frozen_collections::{FrozenMap, FrozenSet};
use frozen_collections::specialized_maps::*;
use frozen_collections::specialized_sets::*;
fn uses<T>(t: T) { let x = std::hint::black_box(&t); let _ = x; }
fn txt(i: usize) -> String { ["alpha", "be", "gam", "delta2"][i % 4].to_string() }
fn strs() -> Vec<(String, String)> { (0..4).map(|i| (txt(i), i.to_string())).collect() }
fn nums() -> Vec<(u32, String)> { (0..4).map(|i| (i, i.to_string())).collect() }
fn wide() -> Vec<(u64, String)> { (0..4).map(|i| (i * 977, i.to_string())).collect() }
fn many() -> Vec<(String, String)> { (0..40).map(|i| (if i < 4 { txt(i) } else { format!("{i}-{}", "x".repeat(i % 3)) }, i.to_string())).collect() }
fn ks<T, V>(v: Vec<(T, V)>) -> Vec<T> { v.into_iter().map(|e| e.0).collect() }
'''

# name, type, constructor, keys
S = ("&txt(0)", "&txt(1)", "String")
MAPS = [
    ("fm_u32", "FrozenMap<u32, String>", "FrozenMap::from_vec(nums())", ("&1", "&2", "u32")),
    ("fm_u64", "FrozenMap<u64, String>", "FrozenMap::from_vec(wide())", ("&977", "&0", "u64")),
    ("fm_string", "FrozenMap<String, String>", "FrozenMap::from_vec(strs())", S),
    ("fm_many", "FrozenMap<String, String>", "FrozenMap::from_vec(many())", S),
    ("common", "CommonMap<String, String>", "CommonMap::from_vec(strs())", S),
    ("integer", "IntegerMap<u64, String>", "IntegerMap::from_vec(wide())", ("&977", "&0", "u64")),
    ("range", "IntegerRangeMap<u32, String>", "IntegerRangeMap::from_vec(nums())", ("&1", "&2", "u32")),
    ("length", "LengthMap<String, String>", "LengthMap::from_vec(strs())", S),
    ("left", "LeftSliceMap<String, String>", "LeftSliceMap::from_vec(strs(), 0..2)", S),
    ("right", "RightSliceMap<String, String>", "RightSliceMap::from_vec(strs(), 0..2)", S),
    ("scanning", "ScanningMap<String, String>", "ScanningMap::from_vec(strs())", S),
]
SETS = [
    ("fs_u32", "FrozenSet<u32>", "FrozenSet::from_vec(ks(nums()))", ("&1", "u32")),
    ("fs_string", "FrozenSet<String>", "FrozenSet::from_vec(ks(strs()))", ("&txt(0)", "String")),
    ("common_set", "CommonSet<String>", "CommonSet::from_vec(ks(strs()))", ("&txt(0)", "String")),
    ("integer_set", "IntegerSet<u64>", "IntegerSet::from_vec(ks(wide()))", ("&977", "u64")),
    ("range_set", "IntegerRangeSet<u32>", "IntegerRangeSet::from_vec(ks(nums()))", ("&1", "u32")),
    ("length_set", "LengthSet<String>", "LengthSet::from_vec(ks(strs()))", ("&txt(0)", "String")),
    ("left_set", "LeftSliceSet<String>", "LeftSliceSet::from_vec(ks(strs()), 0..2)", ("&txt(0)", "String")),
    ("right_set", "RightSliceSet<String>", "RightSliceSet::from_vec(ks(strs()), 0..2)", ("&txt(0)", "String")),
    ("scanning_set", "ScanningSet<String>", "ScanningSet::from_vec(ks(strs()))", ("&txt(0)", "String")),
]

READS = [("get", "m.get({k}).unwrap()"), ("get_key_value", "m.get_key_value({k}).unwrap()"), ("index", "&m[{kv}]"), ("iter", "m.iter()"),
         ("iter next", "m.iter().next().unwrap()"), ("keys", "m.keys()"), ("keys next", "m.keys().next().unwrap()"),
         ("values", "m.values()"), ("values next", "m.values().next().unwrap()"), ("iter clone", "m.iter().clone()"),
         ("into_iter of a reference", "(&m).into_iter()"), ("collected", "m.iter().collect::<Vec<_>>()")]
WRITES = [("get_mut", "m.get_mut({k}).unwrap()"), ("get_many_mut", "m.get_many_mut([{k}, {k2}]).unwrap()"), ("index_mut", "&mut m[{kv}]"),
          ("one of get_many_mut", "{{ let [a, _] = m.get_many_mut([{k}, {k2}]).unwrap(); a }}")]
SREADS = [("get", "m.get({k}).unwrap()"), ("iter", "m.iter()"), ("iter next", "m.iter().next().unwrap()"), ("into_iter of a reference", "(&m).into_iter()"),
          ("union", "m.union(&o)"), ("union next", "m.union(&o).next().unwrap()"), ("intersection", "m.intersection(&o)"),
          ("intersection next", "m.intersection(&o).next().unwrap()"), ("difference", "m.difference(&o)"), ("difference next", "m.difference(&o).next()"),
          ("symmetric_difference", "m.symmetric_difference(&o)"), ("symmetric_difference next", "m.symmetric_difference(&o).next()")]


def uses(index_mut):
    """(name, misuse, proper use) for every type and call."""
    out = []

    def add(name, bad, good):
        out.append((name, bad, good))

    writes = [w for w in WRITES if index_mut or w[0] != "index_mut"]
    for n, ty, mk, (k, k2, kty) in MAPS:
        for what, e in READS + writes:
            e = e.format(k=k, k2=k2, kv=k[1:])
            mut = "mut " if (what, ) in [(w[0], ) for w in writes] else ""
            add(f"{n}: {what} outlives the map", f"let r; {{ let {mut}m: {ty} = {mk}; r = {e}; }} uses(r);", f"let {mut}m: {ty} = {mk}; {{ let r = {e}; uses(r); }}")
            add(f"{n}: {what} used after the map is dropped", f"let {mut}m: {ty} = {mk}; let r = {e}; drop(m); uses(r);", f"let {mut}m: {ty} = {mk}; let r = {e}; uses(r); drop(m);")
            add(f"{n}: {what} used after the map is moved", f"let {mut}m: {ty} = {mk}; let r = {e}; let b = Box::new(m); uses(r); uses(b);",
                f"let {mut}m: {ty} = {mk}; let r = {e}; uses(r); let b = Box::new(m); uses(b);")
            add(f"{n}: {what} used after the map is replaced", f"let mut m: {ty} = {mk}; let r = {e}; m = {mk}; uses(r); uses(m);", f"let mut m: {ty} = {mk}; let r = {e}; uses(r); m = {mk}; uses(m);")
        for what, e in READS:
            e = e.format(k=k, k2=k2, kv=k[1:])
            for wh, w in writes:
                w = w.format(k=k, k2=k2, kv=k[1:])
                add(f"{n}: {wh} while {what} is in use", f"let mut m: {ty} = {mk}; let r = {e}; let w = {w}; uses(r); uses(w);", f"let mut m: {ty} = {mk}; let r = {e}; uses(r); let w = {w}; uses(w);")
                add(f"{n}: {what} while {wh} is in use", f"let mut m: {ty} = {mk}; let w = {w}; let r = {e}; uses(w); uses(r);", f"let mut m: {ty} = {mk}; let w = {w}; uses(w); let r = {e}; uses(r);")
        for wa, a in writes:
            for wb, b in writes:
                a_, b_ = a.format(k=k, k2=k2, kv=k[1:]), b.format(k=k, k2=k2, kv=k[1:])
                add(f"{n}: {wb} while {wa} is in use", f"let mut m: {ty} = {mk}; let x = {a_}; let y = {b_}; uses(x); uses(y);", f"let mut m: {ty} = {mk}; let x = {a_}; uses(x); let y = {b_}; uses(y);")
        for what, e in writes:
            e = e.format(k=k, k2=k2, kv=k[1:])
            add(f"{n}: {what} through a shared reference", f"fn f(m: &{ty}) {{ uses({e}); }} f(&{mk});", f"fn f(mut m: {ty}) {{ uses({e}); }} f({mk});")
    # lifetimes of what is held, and of keys asked with
    for n, ty, mk in (
        ("fm_str", "FrozenMap<&'a str, &'a str>", "FrozenMap::from_vec(vec![(a, a)])"),
        ("common_str", "CommonMap<&'a str, &'a str>", "CommonMap::from_vec(vec![(a, a)])"),
        ("length_str", "LengthMap<String, &'a str>", "LengthMap::from_vec(vec![(a.to_string(), a)])"),
        ("left_str", "LeftSliceMap<String, &'a str>", "LeftSliceMap::from_vec(vec![(a.to_string(), a)], 0..1)"),
        ("right_str", "RightSliceMap<String, &'a str>", "RightSliceMap::from_vec(vec![(a.to_string(), a)], 0..1)"),
        ("scanning_str", "ScanningMap<&'a str, &'a str>", "ScanningMap::from_vec(vec![(a, a)])"),
    ):
        mkf = f"fn mk<'a>(a: &'a str) -> {ty} {{ {mk} }} "
        owned = "<String" in ty
        key, kv = ("&k.to_string()", "k.to_string()") if owned else ("&k", "k")
        for what, e in (("iter", "*m.iter().next().unwrap().0"), ("keys", "*m.keys().next().unwrap()"), ("values", "*m.values().next().unwrap()"), ("index", f"m[{kv}]"),
                        ("get", f"*m.get({key}).unwrap()"), ("get_key_value", f"*m.get_key_value({key}).unwrap().0"), ("get_mut", f"&**m.get_mut({key}).unwrap()")):
            if owned and what in ("iter", "keys", "get_key_value"):
                e = e.replace("*m", "m", 1).replace(".0", ".1", 1) if what != "keys" else "*m.values().last().unwrap()"
                e = "*" + e if e.startswith("m.") else e
            add(f"{n}: what {what} copies out outlives what the map borrows", mkf + f"let k = \"xyz\"; let r; {{ let s = String::from(\"xyz\"); let mut m = mk(&s); r = {e}; }} uses(r);",
                mkf + f"let k = \"xyz\"; let s = String::from(\"xyz\"); let r; {{ let mut m = mk(&s); r = {e}; uses(r); }}")
        add(f"{n}: the map outlives what it borrows", mkf + "let m; { let s = String::from(\"xyz\"); m = mk(&s); } uses(m);", mkf + "let m; let s = String::from(\"xyz\"); { m = mk(&s); } uses(m);")
        add(f"{n}: a short-lived value is written into the map", mkf + "let l = String::from(\"xyz\"); let mut m: " + ty.replace("'a", "'static") + " = mk(\"xyz\"); *m.get_mut(" + key.replace("k", '"xyz"', 1) + ").unwrap() = &l; uses(m);",
            mkf + "let l: &'static str = \"abc\"; let mut m: " + ty.replace("'a", "'static") + " = mk(\"xyz\"); *m.get_mut(" + key.replace("k", '"xyz"', 1) + ").unwrap() = l; uses(m);")
        add(f"{n}: a clone outlives what the map borrows", mkf + "let c; { let s = String::from(\"xyz\"); let m = mk(&s); c = m.clone(); } uses(c);",
            mkf + "let c; let s = String::from(\"xyz\"); { let m = mk(&s); c = m.clone(); } uses(c);")
    for n, ty, mk, (k, kty) in SETS:
        for what, e in SREADS:
            e = e.format(k=k)
            o = f"let o: {ty} = {mk}; "
            two = "&o" in e
            add(f"{n}: {what} outlives the set", o + f"let r; {{ let m: {ty} = {mk}; r = {e}; }} uses(r);", o + f"let m: {ty} = {mk}; {{ let r = {e}; uses(r); }}")
            add(f"{n}: {what} used after the set is dropped", o + f"let m: {ty} = {mk}; let r = {e}; drop(m); uses(r);", o + f"let m: {ty} = {mk}; let r = {e}; uses(r); drop(m);")
            add(f"{n}: {what} used after the set is consumed", o + f"let m: {ty} = {mk}; let r = {e}; let v: Vec<_> = IntoIterator::into_iter(m).collect(); uses(r); uses(v);",
                o + f"let m: {ty} = {mk}; let r = {e}; uses(r); let v: Vec<_> = IntoIterator::into_iter(m).collect(); uses(v);")
            if two:
                add(f"{n}: {what} outlives the other set", f"let m: {ty} = {mk}; let r; {{ let o: {ty} = {mk}; r = {e}; }} uses(r);", f"let m: {ty} = {mk}; {{ let o: {ty} = {mk}; let r = {e}; uses(r); }}")
                add(f"{n}: {what} used after the other set is dropped", o + f"let m: {ty} = {mk}; let r = {e}; drop(o); uses(r);", o + f"let m: {ty} = {mk}; let r = {e}; uses(r); drop(o);")
    return out


def source(bodies):
    lines = HEAD.strip("\n").split("\n")
    at = []
    for i, b in enumerate(bodies):
        at.append(len(lines) + 1)
        lines.append(f"fn case_{i}() {{ {b} }}")
    end = len(lines)
    lines.append("static CASES: &[fn()] = &[" + ", ".join(f"case_{i}" for i in range(len(bodies))) + "];")
    lines.append("fn main() { for f in CASES { f(); } println!(\"END\"); }")
    return "\n".join(lines) + "\n", at, end


def errors(text, at, end):
    """case -> codes of the errors reported in it; None for errors elsewhere."""
    out = {}
    for l in text.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error" or not m.get("spans"):
            continue
        line = [s["line_start"] for s in m["spans"] if s["is_primary"]] or [0]
        case = line[0] - at[0] if at[0] <= line[0] <= end else None
        code = (m.get("code") or {}).get("code") or m["message"]
        out.setdefault(case, []).append((code, m["message"]))
    return out


def compile_(lib, bodies, tmp, name, link=False):
    text, at, end = source(bodies)
    f = os.path.join(tmp, name + ".rs")
    with open(f, "w") as h:
        h.write(text)
    rc, msg = lib.rustc(f, os.path.join(tmp, name), ["--error-format=json"] + ([] if link else ["--emit=metadata"]))
    return rc, errors(msg, at, end), msg


def examine(lib, cases, tmp):
    """(violations, notes, number judged)"""
    rc, errs, text = compile_(lib, [c[2] for c in cases], tmp, "proper", link=True)
    if rc not in (0, 1):
        return None, f"rustc ended with {rc}: {text[:400]}", 0
    # proper uses that don't compile say nothing about the misuse next to them
    drop = {c for c in errs if c is not None}
    if None in errs:
        return None, f"the program of proper uses doesn't compile: {errs[None][0][1]}", 0
    kept = [c for i, c in enumerate(cases) if i not in drop]
    if drop:
        rc, errs, text = compile_(lib, [c[2] for c in kept], tmp, "proper", link=True)
        # errors of later passes of the compiler show only now
        again = {c for c in errs if c is not None}
        kept = [c for i, c in enumerate(kept) if i not in again]
        if rc not in (0, 1) or None in errs:
            return None, f"the program of proper uses doesn't compile: {text[:400]}", 0
    rc, errs, text = compile_(lib, [c[1] for c in kept], tmp, "misuse")
    if rc not in (0, 1) or None in errs:
        return None, f"rustc ended with {rc} on the program of misuses: {text[:400]}", 0
    other = [i for i, e in errs.items() if not all(BORROW.search(c + m) or "E0596" in c for c, m in e)]
    if other:
        return None, f"a misuse is refused for another reason: {kept[other[0]][0]}: {errs[other[0]]}", 0
    bad = [c for i, c in enumerate(kept) if i not in errs]
    dropped = len(cases) - len(kept)
    if dropped > len(cases) // 10:
        return None, f"{dropped} proper uses don't compile", 0
    out = os.path.join(tmp, "proper")
    ran = os.path.exists(out) and subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    return bad, (None if not ran or ran.returncode == 0 else f"the proper uses ended with {ran.returncode}: {ran.stderr[-400:]}"), len(kept)


def run(tier, seed, tmp, cov, distinct, violations, inconclusive):
    lib = libs_for(["dev"])["dev"]
    if lib.error:
        inconclusive.append(lib.error)
        return
    cases = uses(True)
    bad, note, judged = examine(lib, cases, tmp)
    if bad is None:
        inconclusive.append(note)
        return
    for name, body, _ in bad:
        violations.append({"kind": "special", "engine": "misuse", "case": None, "description": body, "name": name,
                           "message": f"safe code that must not compile does ({name})"})
    if note:
        violations.append({"kind": "special", "engine": "misuse", "case": None, "description": "", "name": "", "message": note})
    cov["evaluations"] += judged
    cov["engines"]["misuse"] = {"runs": 1, "evaluations": judged}
    cov["events"]["misuses refused"] = judged - len(bad)
    for c in cases:
        distinct.add(c[0])


def replay(v):
    import shutil
    import tempfile
    lib = libs_for(["dev"])["dev"]
    if lib.error:
        print(lib.error)
        return 2
    tmp = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        bad, note, judged = examine(lib, [c for c in uses(True) if c[0] == v["name"] or not v["name"]], tmp)
        print([b[0] for b in bad or []], note, judged)
        return 1 if bad or note else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
