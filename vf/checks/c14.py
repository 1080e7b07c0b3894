"""C14: what HDF5 files hold and give back, bit for bit, as quantities, as bare values and as raw bytes of the file."""
import os
import shutil

import texts
from common import deps, pmap
from gen import SI, SI_DIMS, STORAGES, VECS, Draw, program

HELP = r"""
use hdf5::{Extents, File, H5Type};
use hdf5::types::{FloatSize, TypeDescriptor};
trait Bits: Copy + 'static { const N: usize; type B: H5Type + Copy + 'static; fn any(r: &mut Rng) -> Self; fn bare(&self) -> Self::B; fn of(b: &Self::B) -> Self; fn bits(&self) -> Vec<u64>; fn bytes(&self) -> Vec<u8>; }
impl Bits for f32 { const N: usize = 1; type B = f32; fn any(r: &mut Rng) -> f32 { if r.below(4) == 0 { Gen::random(r) } else { f32::from_bits(r.u64() as u32) } } fn bare(&self) -> f32 { *self } fn of(b: &f32) -> f32 { *b } fn bits(&self) -> Vec<u64> { vec![self.to_bits() as u64] } fn bytes(&self) -> Vec<u8> { self.to_ne_bytes().to_vec() } }
impl Bits for f64 { const N: usize = 1; type B = f64; fn any(r: &mut Rng) -> f64 { if r.below(4) == 0 { Gen::random(r) } else { f64::from_bits(r.u64()) } } fn bare(&self) -> f64 { *self } fn of(b: &f64) -> f64 { *b } fn bits(&self) -> Vec<u64> { vec![self.to_bits()] } fn bytes(&self) -> Vec<u8> { self.to_ne_bytes().to_vec() } }
macro_rules! vec_bits { ($t:ident, $f:ident, $n:expr) => { impl Bits for $t { const N: usize = $n; type B = [$f; $n];
    fn any(r: &mut Rng) -> $t { let mut a = [0.0; $n]; for x in &mut a { *x = <$f as Bits>::any(r); } <$t>::from_array(a) }
    fn bare(&self) -> [$f; $n] { self.to_array() } fn of(b: &[$f; $n]) -> $t { <$t>::from_array(*b) }
    fn bits(&self) -> Vec<u64> { self.to_array().iter().flat_map(|x| Bits::bits(x)).collect() }
    fn bytes(&self) -> Vec<u8> { self.to_array().iter().flat_map(|x| Bits::bytes(x)).collect() } } } }
vec_bits!(Vec2, f32, 2); vec_bits!(Vec3, f32, 3); vec_bits!(DVec2, f64, 2); vec_bits!(DVec3, f64, 3);
fn bits<S: Bits>(v: &[S]) -> Vec<u64> { v.iter().flat_map(|x| x.bits()).collect() }
fn bare<S: Bits>(v: &[S]) -> Vec<S::B> { v.iter().map(|x| x.bare()).collect() }
fn unbare<S: Bits>(v: &[S::B]) -> Vec<u64> { v.iter().flat_map(|x| S::of(x).bits()).collect() }
fn shaped<T>(r: &mut Rng, n: usize) -> Vec<usize> { let _ = std::any::type_name::<T>(); match r.below(4) { 0 => vec![n], 1 => vec![n, 1 + r.below(4) as usize], 2 => vec![1 + r.below(3) as usize, n], _ => vec![1 + r.below(3) as usize, n, 1 + r.below(3) as usize] } }

struct Kit<S, Q> { wrap: fn(S) -> Q, unwrap: fn(Q) -> S, name: String, desc: TypeDescriptor }
macro_rules! must { ($m:expr, $k:expr, $what:expr, $e:expr) => { match $e { Ok(x) => x, Err(e) => { let t = format!("{}: {:?}", $what, e); $m.event(false, $k, || t); return; } } } }

/// The raw bytes of a contiguous dataset as they lie in the file.
fn on_disk(path: &str, offset: Option<u64>, len: usize) -> Option<Vec<u8>> {
    use std::io::{Read, Seek, SeekFrom};
    let mut f = std::fs::File::open(path).ok()?; f.seek(SeekFrom::Start(offset?)).ok()?; let mut v = vec![0; len]; f.read_exact(&mut v).ok()?; Some(v)
}

fn ops<S: Bits, Q: H5Type + Copy + 'static>(m: &mut Mon, r: &mut Rng, kit: Kit<S, Q>, dir: &str, rounds: usize, big: usize) {
    let wrap = |v: &[S]| -> Vec<Q> { v.iter().map(|x| (kit.wrap)(*x)).collect() };
    let qbits = |v: &[Q]| -> Vec<u64> { v.iter().flat_map(|x| (kit.unwrap)(*x).bits()).collect() };
    let L = &kit.name;
    m.form(&format!("type descriptor {}", L));
    m.same(&0u64, format!("{:?}", kit.desc), format!("{:?}", Q::type_descriptor()));
    m.same(&1u64, format!("{:?}", <S::B as H5Type>::type_descriptor()), format!("{:?}", Q::type_descriptor()));
    let (s, z) = (std::mem::size_of::<S>() as u64, Q::type_descriptor().size() as u64); m.same(&2u64, s, z);
    let path = format!("{}/{}.h5", dir, L.replace(['<', '>', ',', ' ', ':'], "_"));
    let file = must!(m, 0, "creating a file", File::create(&path));
    let mut contiguous: Vec<(String, Vec<S>)> = vec![];
    let mut all: Vec<(String, Vec<S>)> = vec![];
    for k in 0..rounds {
        let key = r.u64();
        let n = match k { 0 => 0, 1 => 1, 2 => big, _ => r.below(40) as usize };
        let shape = shaped::<S>(r, n);
        let total: usize = shape.iter().product();
        let v: Vec<S> = (0..total).map(|_| S::any(r)).collect();
        let q = wrap(&v);
        let w = bits(&v);
        let name = format!("d{}", k);
        let kind = r.below(5);
        m.form(&format!("dataset of shape rank {} kind {} {}", shape.len(), kind, L));
        let ds = match kind {
            // written raw, contiguous
            0 | 1 => { let ds = must!(m, key, "creating a dataset", file.new_dataset::<Q>().shape(Extents::from(shape.clone())).create(name.as_str())); must!(m, key, "writing", ds.write_raw(&q)); contiguous.push((name.clone(), v.clone())); ds }
            // chunked and compressed
            2 if total > 0 => { let chunk: Vec<usize> = shape.iter().map(|x| (x / 2).max(1)).collect(); let ds = must!(m, key, "creating a dataset", file.new_dataset::<Q>().shape(Extents::from(shape.clone())).chunk(chunk).shuffle().create(name.as_str())); must!(m, key, "writing", ds.write_raw(&q)); ds }
            // written as bare values, to be read as quantities
            3 => { let ds = must!(m, key, "creating a dataset", file.new_dataset::<S::B>().shape(Extents::from(shape.clone())).create(name.as_str())); must!(m, key, "writing bare values", ds.write_raw(&bare(&v))); ds }
            // type from the quantity, data from bare values
            _ => { let ds = must!(m, key, "creating a dataset", file.new_dataset::<Q>().shape(Extents::from(shape.clone())).create(name.as_str())); must!(m, key, "writing bare values into a dataset of quantities", ds.as_writer().no_convert().write_raw(&bare(&v))); ds }
        };
        let got = must!(m, key, "reading", ds.read_raw::<Q>()); m.same(&(key, 1u64), w.clone(), qbits(&got));
        let got = must!(m, key, "reading without conversion", ds.as_reader().no_convert().read_raw::<Q>()); m.same(&(key, 2u64), w.clone(), qbits(&got));
        let got = must!(m, key, "reading bare values without conversion", ds.as_reader().no_convert().read_raw::<S::B>()); m.same(&(key, 3u64), w.clone(), unbare::<S>(&got));
        let d = must!(m, key, "the type of a dataset", ds.dtype().and_then(|t| t.to_descriptor())); m.same(&(key, 4u64), format!("{:?}", kit.desc), format!("{:?}", d));
        m.same(&(key, 5u64), format!("{:?}", shape), format!("{:?}", ds.shape()));
        if shape.len() == 1 {
            let got = must!(m, key, "read_1d", ds.read_1d::<Q>()).to_vec(); m.same(&(key, 6u64), w.clone(), qbits(&got));
            if n > 4 {
                let (a, b) = (1 + r.below(2) as usize, 3 + r.below(2) as usize);
                let got = must!(m, key, "read_slice_1d", ds.read_slice_1d::<Q, _>(a..b)).to_vec(); m.same(&(key, 7u64), bits(&v[a..b]), qbits(&got));
                // overwrite a part only
                let part: Vec<S> = (a..b).map(|_| S::any(r)).collect();
                let pq = wrap(&part);
                must!(m, key, "write_slice", ds.write_slice(&pq, a..b));
                let mut now = v.clone(); now[a..b].copy_from_slice(&part);
                let got = must!(m, key, "reading", ds.read_raw::<Q>()); m.same(&(key, 8u64), bits(&now), qbits(&got));
                if kind < 2 { contiguous.last_mut().unwrap().1 = now.clone(); }
                all.push((name, now));
                continue;
            }
        }
        if shape.len() == 2 { let got = must!(m, key, "read_2d", ds.read_2d::<Q>()); let got: Vec<Q> = got.iter().copied().collect(); m.same(&(key, 9u64), w.clone(), qbits(&got)); }
        all.push((name, v));
    }
    m.form(&format!("attributes {}", L));
    for k in 0..rounds.min(12) {
        let key = r.u64();
        let x = S::any(r);
        let name = format!("a{}", k);
        let at = must!(m, key, "creating an attribute", file.new_attr::<Q>().create(name.as_str()));
        must!(m, key, "writing an attribute", at.write_scalar(&(kit.wrap)(x)));
        let back = must!(m, key, "opening an attribute", file.attr(&name));
        let got = must!(m, key, "reading an attribute", back.read_scalar::<Q>()); m.same(&(key, 1u64), x.bits(), (kit.unwrap)(got).bits());
        let got = must!(m, key, "reading a bare attribute", back.as_reader().no_convert().read_scalar::<S::B>()); m.same(&(key, 2u64), x.bits(), S::of(&got).bits());
        let d = must!(m, key, "the type of an attribute", back.dtype().and_then(|t| t.to_descriptor())); m.same(&(key, 3u64), format!("{:?}", kit.desc), format!("{:?}", d));
        let v: Vec<S> = (0..1 + r.below(6)).map(|_| S::any(r)).collect();
        let q = wrap(&v);
        let at = must!(m, key, "creating an attribute with data", file.new_attr_builder().with_data(&q).create(format!("b{}", k).as_str()));
        let got = must!(m, key, "reading an attribute", at.read_raw::<Q>()); m.same(&(key, 4u64), bits(&v), qbits(&got));
        let got = must!(m, key, "reading a bare attribute", at.as_reader().no_convert().read_raw::<S::B>()); m.same(&(key, 5u64), bits(&v), unbare::<S>(&got));
        let ds = must!(m, key, "creating a scalar dataset", file.new_dataset::<Q>().create(format!("s{}", k).as_str()));
        must!(m, key, "writing a scalar", ds.write_scalar(&(kit.wrap)(x)));
        let got = must!(m, key, "reading a scalar", ds.read_scalar::<Q>()); m.same(&(key, 6u64), x.bits(), (kit.unwrap)(got).bits());
        let ds = must!(m, key, "creating a dataset with data", file.new_dataset_builder().with_data(&q).create(format!("w{}", k).as_str()));
        let got = must!(m, key, "reading", ds.as_reader().no_convert().read_raw::<S::B>()); m.same(&(key, 7u64), bits(&v), unbare::<S>(&got));
    }
    m.form(&format!("growing dataset {}", L));
    {
        let ds = must!(m, 0, "creating a resizable dataset", file.new_dataset::<Q>().shape(0..).chunk(8).create("grow"));
        let mut v: Vec<S> = vec![];
        for step in 0..rounds.min(10) {
            let more: Vec<S> = (0..1 + r.below(9)).map(|_| S::any(r)).collect();
            let at = v.len(); v.extend(&more);
            must!(m, 0, "resizing", ds.resize(v.len()));
            must!(m, 0, "appending", ds.write_slice(&wrap(&more), at..v.len()));
            let got = must!(m, 0, "reading", ds.read_raw::<Q>()); m.same(&(step, r.u64()), bits(&v), qbits(&got));
        }
        // the file grows on
        must!(m, 0, "resizing", ds.resize(v.len() + 5));
        let got = must!(m, 0, "reading", ds.read_raw::<Q>()); let mut w = bits(&v); w.extend(std::iter::repeat(0).take(5 * S::N)); m.same(&7u64, w, qbits(&got));
    }
    must!(m, 0, "flushing", file.flush());
    let offsets: Vec<_> = contiguous.iter().map(|(n, v)| (n.clone(), file.dataset(n).ok().and_then(|d| d.offset()), v.clone())).collect();
    must!(m, 0, "closing", file.close());
    m.form(&format!("bytes in the file {}", L));
    for (n, off, v) in offsets {
        if v.is_empty() { continue; }
        let want: Vec<u8> = v.iter().flat_map(|x| x.bytes()).collect();
        let got = on_disk(&path, off, want.len());
        let key = want.iter().fold(3, |h, b| mix(h, *b as u64));
        m.event(got.as_ref() == Some(&want), key, || format!("dataset {}: the file holds {:x?} instead of {:x?}", n, got.map(|g| g.into_iter().take(48).collect::<Vec<_>>()), &want[..want.len().min(48)]));
    }
    m.form(&format!("reopened file {}", L));
    let file = must!(m, 0, "opening the file again", File::open(&path));
    for (n, v) in all {
        let ds = must!(m, 0, "opening a dataset", file.dataset(&n));
        let got = must!(m, 0, "reading", ds.read_raw::<Q>()); let key = mix(v.len() as u64, bits(&v).iter().fold(1, |h, x| mix(h, *x))); m.same(&key, bits(&v), qbits(&got));
    }
    drop(file);
    let _ = std::fs::remove_file(&path);
}
"""

STRUCTS = r"""
#[derive(Clone, Copy, H5Type)]
#[repr(C)]
struct Particle { id: u32, mass: Mass<f64>, pos: Length<DVec3>, heat: Temperature<f32>, vel: Velocity<Vec2>, area: Area<Vec3>, last: bool }
#[derive(Clone, Copy, H5Type)]
#[repr(C)]
struct Bare { id: u32, mass: f64, pos: [f64; 3], heat: f32, vel: [f32; 2], area: [f32; 3], last: bool }
fn structs(m: &mut Mon, r: &mut Rng, dir: &str) {
    let path = format!("{}/structs.h5", dir);
    let make = |r: &mut Rng| Bare { id: r.u64() as u32, mass: Bits::any(r), pos: <DVec3 as Bits>::any(r).to_array(), heat: Bits::any(r), vel: <Vec2 as Bits>::any(r).to_array(), area: <Vec3 as Bits>::any(r).to_array(), last: r.below(2) == 0 };
    let q = |b: &Bare| Particle { id: b.id, mass: Mass::<f64>::new_unchecked(b.mass), pos: Length::<DVec3>::new_unchecked(b.pos.into()), heat: Temperature::<f32>::new_unchecked(b.heat), vel: Velocity::<Vec2>::new_unchecked(b.vel.into()), area: Area::<Vec3>::new_unchecked(b.area.into()), last: b.last };
    let b = |p: &Particle| Bare { id: p.id, mass: p.mass.value_unchecked(), pos: p.pos.value_unchecked().to_array(), heat: p.heat.value_unchecked(), vel: p.vel.value_unchecked().to_array(), area: p.area.value_unchecked().to_array(), last: p.last };
    let bits = |p: &Bare| -> Vec<u64> { let mut v = vec![p.id as u64, p.last as u64, p.mass.to_bits(), p.heat.to_bits() as u64]; v.extend(p.pos.iter().map(|x| x.to_bits())); v.extend(p.vel.iter().chain(&p.area).map(|x| x.to_bits() as u64)); v };
    m.form("structs of quantities");
    m.same(&0u64, format!("{:?}", Bare::type_descriptor()), format!("{:?}", Particle::type_descriptor()));
    let file = must!(m, 0, "creating a file", File::create(&path));
    for k in 0..20u64 {
        let v: Vec<Bare> = (0..1 + r.below(20)).map(|_| make(r)).collect();
        let p: Vec<Particle> = v.iter().map(q).collect();
        let ds = must!(m, k, "creating", file.new_dataset_builder().with_data(&p).create(format!("p{}", k).as_str()));
        let want: Vec<u64> = v.iter().flat_map(bits).collect();
        let got = must!(m, k, "reading", ds.read_raw::<Particle>()); let g: Vec<u64> = got.iter().flat_map(|x| bits(&b(x))).collect(); m.same(&(k, 1u64), want.clone(), g);
        let got = must!(m, k, "reading bare", ds.read_raw::<Bare>()); let g: Vec<u64> = got.iter().flat_map(bits).collect(); m.same(&(k, 2u64), want, g);
    }
    drop(file);
    let _ = std::fs::remove_file(&path);
}
"""

DESC = {"f32": "Float(U4)", "f64": "Float(U8)"}


def desc(S):
    if S in VECS:
        f, n = VECS[S]
        return f"TypeDescriptor::FixedArray(Box::new(TypeDescriptor::Float(FloatSize::{'U4' if f == 'f32' else 'U8'})), {n})"
    return f"TypeDescriptor::Float(FloatSize::{'U4' if S == 'f32' else 'U8'})"


def run(c):
    c.rule = ("one observation = what one dataset, attribute, slice or struct of quantities reads back as (as quantities, as bare values without conversion, as bytes of the file), or its stored type, "
              "compared with what was written; distinct = distinct (form, values)")
    c.assumptions = ["the HDF5 library is trusted; bare values of a vector are arrays of two or three floats"]
    jobs = []
    scratch = c.path("files")
    os.makedirs(scratch, exist_ok=True)
    for cfg in ("full", "fullrat"):
        d = deps(cfg)
        draw = Draw(c, cfg)
        w = texts.random_world(draw.r, cfg == "fullrat")
        parts = []
        for S in STORAGES:
            dims = draw.r.sample(list(SI_DIMS), c.pick(2, 6)) + ["Dimensionless", "sys::dimensions::" + draw.r.choice(w.bases)]
            b = 'let dir = std::env::var("VF_DIR").unwrap();\n'
            for D in dims:
                kit = f'Kit::<{S}, {D}<{S}>> {{ wrap: |v| {D}::<{S}>::new_unchecked(v), unwrap: |q| q.value_unchecked(), name: "{S},{D.split("::")[-1]}".to_string(), desc: {desc(S)} }}'
                b += f"ops::<{S}, {D}<{S}>>(m, r, {kit}, &dir, n, {c.pick(2000, 50000)});\n"
            parts.append(b)
        parts.append('structs(m, r, &std::env::var("VF_DIR").unwrap());')
        jobs.append((cfg, d, program(parts, SI + w.decl, HELP + STRUCTS)))

    def one(job):
        cfg, d, text = job
        comp = c.compile(c.write(f"{cfg}.rs", text), d)
        if comp.ok:
            for k in range(c.pick(2, 10)):
                where = os.path.join(scratch, f"{cfg}{k}")
                os.makedirs(where, exist_ok=True)
                c.run(comp.out, [c.seed + k, c.pick(20, 60)], label=f"{cfg}/", env={"VF_DIR": where}, timeout=600)

    pmap(one, jobs)
    shutil.rmtree(scratch, ignore_errors=True)
    return 5000
