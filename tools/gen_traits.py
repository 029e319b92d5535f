#!/usr/bin/env python3
"""Generates harness/src/delegation_gen.rs: delegatable protocol traits of many shapes with recording implementations."""
import itertools, os

GENERICS = [  # declaration, instantiation, worker phantom, where clause
    ("T, S, P", "u8, u16, {}", "P: Log + Send,\n    T: Send,\n    S: Send,"),
    ("T, S, P,", "u8, u16, {}", "P: Log + Send,\n    T: Send,\n    S: Send"),
    ("P", "{}", "P: Log"),
    ("P,", "{}", "P: Log,"),
    ("P, T", "{}, u8", "P: Log + Send + Sync,\n    T: Clone + 'static,"),
    ("T, P, S", "u8, {}, Vec<u8>", "P: Log,\n    S: IntoIterator<Item = T>,\n    T: Into<u64>"),
    ("'b, T, P", "'static, u8, {}", "P: Log,\n    T: Send"),
    ("A, B, C, D, E, F, G, P", "u8, u16, u32, u64, i8, i16, i32, {}", "P: Log"),
    ("Marked, Other, P", "u8, u16, {}", "P: Log,\n    Marked: Copy,\n    Other: Copy,"),
]

# (type, needs lifetime, generic parameter, encoding, argument for the value v)
KINDS = {
    "u8": dict(ty="u8", enc="{n} as u64", arg="{v}"),
    "u64": dict(ty="u64", enc="{n}", arg="{v} as u64"),
    "ref": dict(ty="&u8", enc="*{n} as u64", arg="&{v}"),
    "reflt": dict(ty="&'a u8", lt=True, enc="*{n} as u64", arg="&{v}"),
    "pair": dict(ty="(u8, u8)", enc="{n}.0 as u64 * 256 + {n}.1 as u64", arg="({v}, {v} ^ 5)", val="{v} as u64 * 256 + ({v} ^ 5) as u64"),
    "slice": dict(ty="&[u8]", enc="{n}.iter().fold({n}.len() as u64, |a, x| a * 256 + *x as u64)", arg="&[{v}, {v} + 1][..]",
                  val="(2 * 256 + {v} as u64) * 256 + {v} as u64 + 1"),
    "opt": dict(ty="Option<u8>", enc="{n}.map_or(77, |x| x as u64)", arg="if {v} == 0 {{ None }} else {{ Some({v}) }}",
                val="if {v} == 0 {{ 77 }} else {{ {v} as u64 }}"),
    "string": dict(ty="String", enc="{n}.len() as u64", arg="\"x\".repeat({v} as usize)"),
    "gen": dict(ty="{Q}", gen="Into<u64>", enc="{n}.into()", arg="{v} as u16"),
    "mut": dict(ty="&mut u8", enc="{{ *{n} += 10; *{n} as u64 - 10 }}", arg="&mut {v}", after=True),
    "fn": dict(ty="fn(u8) -> u8", enc="{n}(3) as u64", arg="[|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][{v} as usize]", val="3 + {v} as u64"),
    "prot": dict(ty="&mut P", prot=True),
    "protlt": dict(ty="&'a mut P", prot=True, lt=True),
}

SHAPES = [
    [], ["u8"], ["u8", "u8"], ["u8", "u8", "u8"], ["u8"] * 4, ["u8"] * 5,
    ["u64", "u64", "u64"], ["ref", "ref"], ["ref", "ref", "ref", "ref"], ["reflt", "ref", "reflt"],
    ["prot", "ref", "ref"], ["protlt", "ref", "ref", "ref"], ["gen", "prot", "ref"], ["gen", "gen"], ["gen", "gen", "gen"],
    ["gen", "protlt", "slice"], ["slice", "slice"], ["slice", "u8", "slice"], ["pair", "pair"], ["pair", "u8", "pair"],
    ["opt", "opt"], ["string", "string", "u8"], ["mut", "mut"], ["mut", "ref", "mut"], ["fn", "fn"], ["u8", "protlt", "u8"],
    ["ref", "u8", "prot"], ["opt", "fn", "pair", "slice", "gen"],
    ["u8"] * 7, ["u64"] * 9, ["ref"] * 12, ["u8", "ref", "protlt", "slice", "pair", "opt", "gen", "u8", "reflt"],
    ["mut", "gen", "fn", "u8", "prot", "opt", "pair", "ref"], ["gen"] * 6, ["slice"] * 8, ["u8", "prot"], ["prot"],
]
# per shape: generics, trailing comma after the parameters, visibility, return kind, number of methods, default method
RETURNS = ["vec", "future", "result", "unit"]

out = []
w = out.append
w("// Generated by tools/gen_traits.py - do not edit.")
w("#![allow(warnings)]")
w("use super::{Dele, Log, Own, OwnMarker, Outcome, Spy};")
w("use futures::executor::block_on;")
w("use futures::Future;")
w("use jester_sharing::Delegate;")
w("use jester_sharing_proc::delegatable_protocol;")
w("use std::marker::PhantomData;")
w("use std::pin::Pin;")
w("")
calls = []


def method(k, j, shape, ret, comma, tag):
    """signature and body of method j"""
    lt = any(KINDS[s].get("lt") for s in shape) or ret == "future"
    gens = [f"Q{i}" for i, s in enumerate(shape) if KINDS[s].get("gen")]
    gl = (["'a"] if lt else []) + gens
    params = []
    for i, s in enumerate(shape):
        t = KINDS[s]["ty"].replace("{Q}", f"Q{i}")
        params.append(f"{param(k, i, j)}: {t}")
    rt = {"vec": " -> Vec<u64>", "future": " -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>", "result": " -> Result<Vec<u64>, String>", "unit": ""}[ret]
    where = ""
    bounded = gens
    if bounded:
        where = "\n    where\n        " + ", ".join(f"{q}: Into<u64>" for q in bounded) + ("," if comma else "")
    sig = f"fn {METHODS[j]}{k}{'<' + ', '.join(gl) + '>' if gl else ''}({', '.join(params)}{',' if comma and params else ''}){rt}{where}"
    enc = []
    body = []
    prot = None
    for i, s in enumerate(shape):
        n = param(k, i, j)
        if KINDS[s].get("prot"):
            prot = n
            continue
        e = KINDS[s]["enc"].format(n=n)
        body.append(f"let e{i}: u64 = {e};")
        enc.append(f"e{i}")
    body.append(f"let r: Vec<u64> = vec![{', '.join([str(tag), str(k), str(j)] + enc)}];")
    if prot:
        body.append(f"{prot}.log(r.clone());")
    if ret == "unit":
        body.append("super::note(r);")
    elif ret == "future":
        body.append("Box::pin(async move { r })")
    elif ret == "result":
        body.append("if r.last() == Some(&1) { Err(format!(\"{:?}\", r)) } else { Ok(r) }")
    else:
        body.append("r")
    return sig, " ".join(body)


PLAIN = ["left", "right", "a", "b", "operand_a", "operand_b", "first", "second", "condition", "lhs", "rhs", "elements", "bits", "secret", "count",
         "rng", "protocol", "shares", "threshold", "index", "values", "other", "z", "P", "marker", "delegate", "args", "x1", "x10", "x2", "super_", "output"]


def param(k, i, j):
    """names with a number in every second trait, usual ones in the others"""
    return PLAIN[(i * 5 + j * 3 + k) % len(PLAIN)] if k % 2 else f"{NAMES[(i + j) % len(NAMES)]}{i}"


NAMES = ["rng", "protocol", "lhs", "rhs", "x", "value_", "item", "_unused", "self_", "r#type"]
METHODS = ["work", "apply", "begin", "zeta", "reveal", "a", "Upper", "snake_case_name_of_a_method", "new", "delegate", "p", "multiply"]

k = 0
for idx, shape in enumerate(SHAPES):
    for variant in range(2):
        g = GENERICS[(idx * 2 + variant * 3) % len(GENERICS)]
        ret = RETURNS[(idx + variant) % 4]
        comma = (idx // 2 + variant) % 2 == 0
        vis = ["pub ", "", "pub(crate) "][(idx + variant) % 3]
        nm = 1 + (idx + variant) % 3 if (idx + 3 * variant) % 9 else 12
        default = (idx + variant) % 4 == 0
        if ret == "future" and any(KINDS[s]["ty"].startswith("&") and not KINDS[s].get("lt") for s in shape) and "protlt" not in shape and "reflt" not in shape:
            pass  # the future holds no reference, so 'a is free
        decl, inst, where = g
        name = f"Shape{k}"
        shapes = [shape, list(reversed(shape))] * 6 if nm > 3 else [shape, list(reversed(shape)), shape][:nm]
        sigs = [method(k, j, s, ret, comma, 0)[0] for j, s in enumerate(shapes)]
        w(f"/// {', '.join(shape) or 'nothing'}")
        w("#[delegatable_protocol]")
        w(f"{vis}trait {name}<{decl}>\nwhere\n    {where}\n{{")
        for j, s in enumerate(sigs):
            if j % 2:
                w("    /// documented")
            w(f"    {s};" if "where" not in s else f"    {s};")
        if default:
            w("    fn offset() -> u64 {\n        1000\n    }")
            w(f"    fn twice{k}() -> u64 {{\n        Self::offset() * 2\n    }}")
        w("}")
        args = [a.strip() for a in decl.split(",") if a.strip()]
        # the workers: one to delegate to, a decoy for the own implementation
        plain = ", ".join(args)
        for wname, tag in (("Worker", 1), ("Decoy", 3)):
            w(f"pub struct {wname}{k}<{plain}>({', '.join(f'PhantomData<&{a} ()>' if a[0] == "'" else f'PhantomData<{a}>' for a in args)});")
            w(f"impl<{plain}> {name}<{plain}> for {wname}{k}<{plain}>\nwhere\n    {where}\n{{")
            for j, s in enumerate(shapes):
                sig, body = method(k, j, s, ret, comma, tag)
                w(f"    {sig}\n    {{\n        {body}\n    }}")
            w("}")
        d = inst.format("Dele")
        o = inst.format("Own")
        w(f"impl {name}Marker for Dele {{\n    type Marker = Delegate;\n}}")
        w(f"impl {name}Delegate<{d}> for Dele {{\n    type Delegate = Worker{k}<{d}>;\n}}")
        w(f"impl {name}Marker for Own {{\n    type Marker = OwnMarker;\n}}")
        w(f"impl {name}Delegate<{o}> for Own {{\n    type Delegate = Decoy{k}<{o}>;\n}}")
        w(f"impl {name}Impl<{o}, OwnMarker> for Own {{")
        for j, s in enumerate(shapes):
            sig, body = method(k, j, s, ret, comma, 2)
            sig = sig.replace("mut P", "mut Own")
            w(f"    {sig}\n    {{\n        {body}\n    }}")
        w("}")
        # calls
        for j, s in enumerate(shapes):
            free = [i for i, x in enumerate(s) if not KINDS[x].get("prot")]
            pre = []
            a = []
            vals = []
            after = []
            for i, x in enumerate(s):
                kd = KINDS[x]
                if kd.get("prot"):
                    a.append("&mut protocol")
                    continue
                v = f"v{i}"
                pre.append(f"let mut {v} = v[{free.index(i)}];")
                a.append(kd["arg"].format(v=v))
                vals.append(kd.get("val", "{v} as u64").format(v=v))
                if kd.get("after"):
                    after.append(f"{v}")
            haslog = any(KINDS[x].get("prot") for x in s)
            call = f"<X as {name}<{inst.format('X')}>>::{METHODS[j]}{k}({', '.join(a)})"
            if ret == "vec":
                got = f"let got = {call};"
            elif ret == "future":
                got = f"let got = block_on({call});"
            elif ret == "result":
                got = f"let got = {call};"
            else:
                got = f"let got: () = {call}; let got = super::noted();"
            w(f"fn call{k}_{j}<X: {name}<{inst.format('X')}> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome\n{{")
            w("    " + " ".join(pre))
            w(f"    let want: Vec<u64> = vec![{', '.join(['tag', str(k), str(j)] + vals)}];")
            if haslog:
                w("    let mut protocol = X::fresh();")
            for x in after:
                w(f"    let {x}_before = {x};")
            w(f"    {got}")
            if ret == "result":
                w("    let expect = if want.last() == Some(&1) { Err(format!(\"{:?}\", want)) } else { Ok(want.clone()) };")
                w("    super::same(\"the result\", &got, &expect)?;")
            else:
                w("    super::same(\"the result\", &got, &want)?;")
            if haslog:
                w("    super::same(\"what the protocol was told\", &protocol.seen(), &vec![want.clone()])?;")
            for x in after:
                w(f"    super::same(\"a changed argument\", &{x}, &({x}_before + 10))?;")
            w("    Ok(())\n}")
            calls.append((k, j, len(free), name, METHODS[j]))
        if default:
            w(f"fn default{k}<X: {name}<{inst.format('X')}>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome\n{{")
            w(f"    super::same(\"a default method\", &<X as {name}<{inst.format('X')}>>::twice{k}(), &2000)\n}}")
            calls.append((k, "d", 0, name, "twice"))
        k += 1

w("/// trait and method, number of values, call through a delegating type and through one with its own implementation")
w(f"pub const CALLS: [(&str, usize, fn(&[u8], u64) -> Outcome, fn(&[u8], u64) -> Outcome); {len(calls)}] = [")
for kk, j, n, name, m in calls:
    f = f"default{kk}" if j == "d" else f"call{kk}_{j}"
    w(f"    (\"{name}::{m}{kk}\", {n}, {f}::<Dele>, {f}::<Own>),")
w("];")
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "delegation_gen.rs")
open(path, "w").write("\n".join(out) + "\n")
print(len(calls), "calls,", k, "traits")
