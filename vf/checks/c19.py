"""C19: layout of quantities, and memory errors: own workload plus the workloads of the other checks under AddressSanitizer and valgrind."""
import importlib
import os
import re
import shutil
import time

import common
import texts
from common import Check, Inconclusive, deps, pmap, rustc, sh
from gen import DIMENSIONAL, SI, STORAGES, VECS, Draw, program

HELP = r"""
use std::mem::{align_of, align_of_val, size_of, size_of_val};
use std::slice::{from_raw_parts, from_raw_parts_mut};
/// The bytes of a value that has no padding.
fn bytes<T>(x: &T) -> Vec<u8> { unsafe { from_raw_parts(x as *const T as *const u8, size_of::<T>()) }.to_vec() }
extern "C" {
    fn qsort(base: *mut std::ffi::c_void, n: usize, size: usize, cmp: unsafe extern "C" fn(*const std::ffi::c_void, *const std::ffi::c_void) -> i32);
    fn memcpy(to: *mut std::ffi::c_void, from: *const std::ffi::c_void, n: usize) -> *mut std::ffi::c_void;
}

fn layout<S: Raw + Copy + Gen + 'static, Q: Copy + 'static>(m: &mut Mon, r: &mut Rng, n: usize, name: &str, wrap: impl Fn(S) -> Q + Copy, unwrap: impl Fn(Q) -> S + Copy, through: extern "C" fn(S) -> S, through_q: extern "C" fn(Q) -> Q) {
    m.form("size and alignment");
    m.event(size_of::<Q>() == size_of::<S>(), 1, || format!("{name}: size {} for {}", size_of::<Q>(), size_of::<S>()));
    m.event(align_of::<Q>() == align_of::<S>(), 2, || format!("{name}: alignment {} for {}", align_of::<Q>(), align_of::<S>()));
    m.event(size_of::<[Q; 7]>() == size_of::<[S; 7]>() && size_of::<(u8, Q)>() == size_of::<(u8, S)>(), 3, || format!("{name}: arrays or tuples"));
    m.event(size_of::<Option<Q>>() == size_of::<Option<S>>() && align_of::<Option<Q>>() == align_of::<Option<S>>(), 4, || format!("{name}: options"));
    m.event(!std::mem::needs_drop::<Q>(), 5, || format!("{name}: dropping"));
    if size_of::<Q>() != size_of::<S>() || align_of::<Q>() != align_of::<S>() { return; }
    let pool = S::pool(r, n);
    m.form("bytes");
    for &v in &pool {
        let q = wrap(v);
        m.event(size_of_val(&q) == size_of_val(&v) && align_of_val(&q) == align_of_val(&v) && bytes(&q) == bytes(&v), v.key(), || format!("{name}: {}", v.show()));
        let back: S = unsafe { std::mem::transmute_copy(&q) };
        m.same(&v, v, back);
        let there: Q = unsafe { std::mem::transmute_copy(&v) };
        m.same(&v, v, unwrap(there));
    }
    m.form("calling convention");
    for &v in &pool {
        m.same(&v, v, unwrap(through_q(wrap(v))));
        // a C caller that knows nothing of quantities, and the other way round
        let as_c: extern "C" fn(S) -> S = unsafe { std::mem::transmute(through_q as *const ()) };
        let as_q: extern "C" fn(Q) -> Q = unsafe { std::mem::transmute(through as *const ()) };
        m.same(&v, v, as_c(v));
        m.same(&v, v, unwrap(as_q(wrap(v))));
    }
    m.form("buffers");
    for len in [0usize, 1, 2, 3, 4, 5, 7, 8, 15, 16, 33, 100 + r.below(300) as usize] {
        let raw: Vec<S> = (0..len).map(|i| pool[(i * 7 + len) % pool.len()]).collect();
        let qs: Vec<Q> = raw.iter().map(|&v| wrap(v)).collect();
        // reading either as the other
        let as_raw: &[S] = unsafe { from_raw_parts(qs.as_ptr() as *const S, len) };
        let as_qs: &[Q] = unsafe { from_raw_parts(raw.as_ptr() as *const Q, len) };
        for i in 0..len {
            m.same(&(i, raw[i]), raw[i], as_raw[i]);
            m.same(&(i, raw[i]), raw[i], unwrap(as_qs[i]));
        }
        // writing through one, reading the other
        let mut buf: Vec<S> = raw.iter().rev().copied().collect();
        { let w: &mut [Q] = unsafe { from_raw_parts_mut(buf.as_mut_ptr() as *mut Q, len) }; for i in 0..len { w[i] = wrap(raw[i]); } }
        for i in 0..len { m.same(&(i, raw[i]), raw[i], buf[i]); }
        // an allocation changes its owner
        let mut v = std::mem::ManuallyDrop::new(qs.clone());
        let owned: Vec<S> = unsafe { Vec::from_raw_parts(v.as_mut_ptr() as *mut S, v.len(), v.capacity()) };
        for i in 0..len { m.same(&(i, raw[i]), raw[i], owned[i]); }
        let b: Box<[S]> = raw.clone().into_boxed_slice();
        let b: Box<[Q]> = unsafe { Box::from_raw(Box::into_raw(b) as *mut [Q]) };
        for i in 0..len { m.same(&(i, raw[i]), raw[i], unwrap(b[i])); }
        // C copies the bytes
        let mut dst: Vec<Q> = vec![wrap(pool[0]); len];
        unsafe { memcpy(dst.as_mut_ptr() as *mut _, raw.as_ptr() as *const _, len * size_of::<S>()); }
        for i in 0..len { m.same(&(i, raw[i]), raw[i], unwrap(dst[i])); }
    }
    if pool.len() >= 4 {
        let a = [wrap(pool[0]), wrap(pool[1]), wrap(pool[2]), wrap(pool[3])];
        let b: [S; 4] = unsafe { std::mem::transmute_copy(&a) };
        for i in 0..4 { m.same(&(i, pool[i]), pool[i], b[i]); }
    }
}
"""

FLOAT = """
{{
    unsafe extern "C" fn cmp(a: *const std::ffi::c_void, b: *const std::ffi::c_void) -> i32 {{ let (a, b) = unsafe {{ (&*(a as *const {D}), &*(b as *const {D})) }}; a.partial_cmp(b).map_or(0, |o| o as i32) }}
    m.form("C sorts a buffer of quantities");
    for len in [0usize, 1, 2, 17, 200] {{
        let raw: Vec<{S}> = (0..len).map(|_| (r.unit() * 2e3 - 1e3) as {S}).collect();
        let mut qs: Vec<{D}> = raw.iter().map(|&v| {T}::new_unchecked(v)).collect();
        unsafe {{ qsort(qs.as_mut_ptr() as *mut _, len, size_of::<{D}>(), cmp); }}
        let mut want = raw.clone(); want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for i in 0..len {{ m.same(&(i, want[i]), want[i], qs[i].value_unchecked()); }}
    }}
    mod ffi {{ use super::*; extern "C" {{ #[link_name = "{fabs}"] pub fn abs_q(x: {D}) -> {D}; #[link_name = "{fmax}"] pub fn max_q(x: {D}, y: {D}) -> {D}; #[link_name = "{ldexp}"] pub fn scale_q(x: {D}, e: i32) -> {D}; }} }}
    m.form("C functions called with quantities");
    for v in {S}::pool(r, n) {{
        let q = {T}::new_unchecked(v);
        m.same(&v, v.abs(), unsafe {{ ffi::abs_q(q) }}.value_unchecked());
        if v.is_finite() && v.abs() > 1e-30 && v.abs() < 1e30 {{
            m.same(&v, v * 8.0, unsafe {{ ffi::scale_q(q, 3) }}.value_unchecked());
            m.same(&v, v.max(1.5), unsafe {{ ffi::max_q(q, {T}::new_unchecked(1.5)) }}.value_unchecked());
        }}
    }}
}}
"""


def layout(draw, world):
    parts = []
    for S in STORAGES:
        b = ""
        own = ["sys::dimensions::" + x for x in draw.r.sample(world.bases, min(2, len(world.bases)))]
        for D in ["Dimensionless"] + draw.r.sample(DIMENSIONAL, 4) + own:
            full = f"{D}<{S}>"
            b += f"""{{ extern "C" fn through(v: {S}) -> {S} {{ v }}
extern "C" fn through_q(q: {full}) -> {full} {{ q }}
layout::<{S}, {full}>(m, r, n, "{full}", |v| {D}::<{S}>::new_unchecked(v), |q| q.value_unchecked(), through, through_q); }}\n"""
            if S not in VECS:
                f = "f" if S == "f32" else ""
                b += FLOAT.format(S=S, D=full, T=f"{D}::<{S}>", fabs="fabs" + f, fmax="fmax" + f, ldexp="ldexp" + f)
            else:
                # unit vectors and components through C as structs
                b += f"""{{ #[repr(C)] #[derive(Clone, Copy)] struct Body {{ id: u8, at: {full}, tail: f32 }} #[repr(C)] #[derive(Clone, Copy)] struct Plain {{ id: u8, at: {S}, tail: f32 }}
extern "C" fn pass(b: Body) -> Body {{ Body {{ id: b.id + 1, ..b }} }}
m.form("structs with quantities"); m.event(size_of::<Body>() == size_of::<Plain>() && std::mem::offset_of!(Body, at) == std::mem::offset_of!(Plain, at) && std::mem::offset_of!(Body, tail) == std::mem::offset_of!(Plain, tail), 0, || "{full}".to_string());
let as_plain: extern "C" fn(Plain) -> Plain = unsafe {{ std::mem::transmute(pass as *const ()) }};
for v in {S}::pool(r, n) {{ let p = as_plain(Plain {{ id: 3, at: v, tail: 2.5 }}); m.same(&v, ((v, 4u64), 2.5f32), ((p.at, p.id as u64), p.tail)); }} }}\n"""
        parts.append(b)
    parts.append(others(draw, world))
    return program(parts, "#![deny(improper_ctypes, improper_ctypes_definitions)]\n" + SI + world.decl, HELP + OTHER)


OTHER = r"""
#[repr(C, align(32))] #[derive(Clone, Copy)] pub struct Aligned([u8; 33]);
#[repr(C, packed)] #[derive(Clone, Copy)] pub struct Packed(u8, f64);
#[repr(u8)] #[derive(Clone, Copy)] pub enum Niche { A = 3, B = 9 }
fn shape<S: 'static, Q: 'static>(m: &mut Mon, name: &str) {
    m.form("size and alignment of other storage types");
    m.event(size_of::<Q>() == size_of::<S>() && align_of::<Q>() == align_of::<S>(), 1, || format!("{name}: size {} alignment {} for {} {}", size_of::<Q>(), align_of::<Q>(), size_of::<S>(), align_of::<S>()));
    m.event(size_of::<Option<Q>>() == size_of::<Option<S>>() && size_of::<Option<Option<Q>>>() == size_of::<Option<Option<S>>>(), 2, || format!("{name}: options of {} for {}", size_of::<Option<Q>>(), size_of::<Option<S>>()));
    m.event(size_of::<[Q; 3]>() == size_of::<[S; 3]>() && size_of::<(u8, Q, u16)>() == size_of::<(u8, S, u16)>(), 3, || format!("{name}: arrays, tuples"));
    m.event(std::mem::needs_drop::<Q>() == std::mem::needs_drop::<S>(), 4, || format!("{name}: dropping"));
}
/// Counts how often it is dropped.
pub struct Counted(std::rc::Rc<std::cell::Cell<u32>>, Box<u64>);
impl Drop for Counted { fn drop(&mut self) { self.0.set(self.0.get() + 1); } }
impl Clone for Counted { fn clone(&self) -> Self { Counted(self.0.clone(), Box::new(*self.1 + 1)) } }
"""


def others(draw, world):
    b = ""
    own = ["sys::dimensions::" + x for x in draw.r.sample(world.bases, min(2, len(world.bases)))]
    for S in ["u8", "i16", "u64", "u128", "bool", "char", "()", "[f64; 4]", "[u8; 7]", "(u8, f64)", "Aligned", "Packed", "Niche", "String", "Vec<f32>", "Box<f64>", "&'static f64",
              "std::num::NonZeroU32", "Option<std::num::NonZeroU8>", "std::rc::Rc<u8>", "fn(f64) -> f64", "Option<Box<dyn Fn()>>", "std::mem::MaybeUninit<f32>", "Counted", "std::marker::PhantomData<f64>"]:
        for D in ["Dimensionless"] + draw.r.sample(DIMENSIONAL, 2) + own:
            b += f'shape::<{S}, {D}<{S}>>(m, "{D}<{S}>");\n'
    for D in ["Dimensionless"] + draw.r.sample(DIMENSIONAL, 3) + own:
        b += f"""{{ m.form("storage dropped exactly once {D}");
    let count = std::rc::Rc::new(std::cell::Cell::new(0));
    let mk = |k: u64| {D}::<Counted>::new_unchecked(Counted(count.clone(), Box::new(k)));
    for k in 0..20u64 {{
        let before = count.get();
        let q = mk(k);
        m.same(&k, k, *q.value_unchecked_ref().1);
        let w = q.clone();
        m.same(&k, k + 1, *w.value_unchecked_ref().1);
        drop(w);
        m.same(&k, before + 1, count.get());
        let inner = q.value_unchecked();
        m.same(&k, before + 1, count.get());
        m.same(&k, k, *inner.1);
        drop(inner);
        m.same(&k, before + 2, count.get());
        let raw: Counted = {{ let q = std::mem::ManuallyDrop::new(mk(k + 5)); unsafe {{ std::ptr::read(&q as *const _ as *const Counted) }} }};
        m.same(&k, k + 5, *raw.1);
        drop(raw);
        let v: Vec<_> = (0..k).map(mk).collect();
        drop(v);
        m.same(&k, before + 3 + k as u32, count.get());
    }}
}}\n"""
    b += """{ m.form("Dimensionless owning storage");
    let count = std::rc::Rc::new(std::cell::Cell::new(0));
    for k in 0..20u64 { let q = Dimensionless::<Counted>::from(Counted(count.clone(), Box::new(k))); m.same(&k, k, *q.value_ref().1); m.same(&k, k, *q.1); let s = q.value(); m.same(&k, k as u32, count.get()); drop(s); m.same(&k, k as u32 + 1, count.get()); } }\n"""
    return b


# The same declarations with bare storage types: what the compiler accepts for them it must accept for quantities
PLAIN = "#![allow(incomplete_features)]\n#![deny(improper_ctypes, improper_ctypes_definitions)]\nuse vfdeps::*;\n" + "".join(
    f'extern "C" fn f_{i}(v: {S}) -> {S} {{ v }}\nmod m{i} {{ use vfdeps::*; extern "C" {{ pub fn g_{i}(v: {S}) -> {S}; }} }}\n' for i, S in enumerate(STORAGES)) + "fn main() {}\n"

CANARIES = {
    "out of bounds": 'let v: Vec<f64> = vec![1.0; std::env::args().count() + 7]; let p = v.as_ptr(); println!("{}", unsafe { *p.add(9) });',
    "use after free": 'let b = Box::new(std::env::args().count() as f64); let p: *const f64 = &*b; drop(b); println!("{}", unsafe { std::ptr::read_volatile(p) });',
}
UNINIT = 'let v: Vec<f64> = Vec::with_capacity(9); let p = v.as_ptr(); if unsafe { std::ptr::read_volatile(p.add(3)) } > 0.0 { println!("x"); }'

MEMORY = re.compile(r"AddressSanitizer|unsafe precondition\(s\) violated|misaligned pointer dereference|null pointer dereference|==\d+== (Invalid|Conditional|Use of uninit|Process terminating|Mismatched|Syscall param)")


class Sanitized(Check):
    """Runs another check's workload and keeps only what the sanitizer has to say."""

    def __init__(self, parent, label, tool):
        super().__init__(parent.pid, parent.tier, keep=os.path.join(parent.work, label))
        self.parent, self.label, self.tool, self.t0 = parent, label, tool, time.time()
        self.ran = self.other = 0

    def violate(self, what, detail, files=()):
        text = str(detail.get("stderr", "")) if isinstance(detail, dict) else ""
        rc = detail.get("rc") if isinstance(detail, dict) else None
        if MEMORY.search(text) or rc in (-4, -6, -7, -8, -11, 99, 132, 134, 135, 136, 139):
            self.parent.violate(f"memory error ({self.tool}) in the workload of {self.label}", detail, files)
        else:
            self.other += 1

    def run(self, exe, args=(), wrapper=(), **kw):
        self.ran += 1
        if self.tool == "valgrind":
            args = [args[0], *([min(int(args[1]), 4)] if len(args) > 1 else []), *args[2:]]
            wrapper = ("valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes", "--errors-for-leak-kinds=none")
        kw["timeout"] = 800
        return super().run(exe, args, wrapper=wrapper, **kw)

    def sample(self, text):
        pass


def canary(c, name, body, d, wrapper):
    comp = rustc(c.write(name.replace(" ", "_") + ".rs", f"fn main() {{ {body} }}\n"), d)
    rc, _, err = sh([*wrapper, comp.out], 60)
    if rc != 99 or not MEMORY.search(err):
        raise Inconclusive(f"the sanitizer does not notice a planted error ({name}): rc {rc} {err[-300:]}")
    c.event("canary noticed", name)


def run(c):
    c.rule = ("one observation = (a) size, alignment, bytes, buffer, call or struct of one quantity type and value, compared with its storage type; (b) one observation of another check's "
              "workload made while AddressSanitizer (with the compiler's own precondition checks) or valgrind watched; distinct = distinct (form, values)")
    c.assumptions = ["planted errors are noticed by the tools at the start of every run", "Miri and ThreadSanitizer do not exist for the toolchain that diman needs"]
    plain = rustc(c.write("plain.rs", PLAIN), deps("std"), emit="metadata")
    if not plain.ok:
        raise Inconclusive("the declarations with bare storage types are not accepted: " + plain.errors[0].message)
    jobs = []
    for cfg, asan in (("std", False), ("full", True), ("rat", False)) + ((("fullrat", True),) if c.thorough else ()):
        draw = Draw(c, cfg)
        jobs.append((f"{cfg}{'_asan' if asan else ''}", deps(cfg, asan), layout(draw, texts.random_world(draw.r, "rat" in cfg))))
    for name, body in CANARIES.items():
        canary(c, name, body, deps("full", True), ())
    valgrind = shutil.which("valgrind") is not None
    c.extra["valgrind"] = valgrind
    if valgrind:
        canary(c, "uninitialised", UNINIT, deps("std"), ("valgrind", "-q", "--error-exitcode=99"))

    def build(job):
        name, d, text = job
        return c.compile(c.write(name + ".rs", text), d)

    comps = pmap(build, jobs)
    for (name, _, _), comp in zip(jobs, comps):
        if comp.ok:
            for k in range(c.pick(1, 5)):
                c.run(comp.out, [c.seed + k, c.pick(60, 600)], label=name + "/", timeout=600)
    if comps[0].ok and valgrind:
        c.run(comps[0].out, [c.seed, 4], label="valgrind/", wrapper=("valgrind", "-q", "--error-exitcode=99", "--errors-for-leak-kinds=none"), timeout=800)

    # the workloads of the other checks
    seen = {}
    plan = [(x, "AddressSanitizer") for x in c.pick(["c03", "c04", "c10", "c12", "c13", "c14", "c15", "c16"],
                                                   ["c03", "c04", "c05", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17"])]
    if valgrind:
        plan += [(x, "valgrind") for x in c.pick(["c15", "c16"], ["c03", "c04", "c10", "c11", "c12", "c15", "c16"])]
    original = deps

    for item in plan:
        name, tool = item
        mod = importlib.import_module("checks." + name)
        sub = Sanitized(c, f"{name.upper()}_under_{tool}", tool)
        sub.tier, sub.seed = "quick", c.seed + 19
        mapping = {"std": "full", "rat": "fullrat", "min": "full", "minrat": "fullrat"}
        common.SANITIZE = tool == "AddressSanitizer"
        mod.deps = (lambda cfg, asan=False: original(mapping.get(cfg, cfg), True)) if common.SANITIZE else original
        try:
            mod.run(sub)
        finally:
            common.SANITIZE = False
            mod.deps = original
        c.evals += sub.evals
        c.distinct_n += sub.distinct_n + len(sub.distinct)
        c.forms[f"{tool}: workload of {name.upper()}"] += sub.evals
        seen[f"{name.upper()} under {tool}"] = {"executions": sub.ran, "observations": sub.evals, "left to that check": sub.other, "wall_s": round(time.time() - sub.t0, 1)}
        print(f"  {name.upper()} under {tool}: {sub.evals} observations, {time.time() - sub.t0:.1f} s", flush=True)
        shutil.rmtree(sub.work, ignore_errors=True)
    c.extra["sanitized workloads"] = seen
    return 100000
