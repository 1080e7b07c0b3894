"""C13: what arrives over MPI, bit for bit, in buffers between guard elements, on one to four processes."""
import os
import shutil

import texts
from common import Inconclusive, deps, pmap, sh
from gen import SI, SI_DIMS, STORAGES, VECS, Draw, program, scalar

HELP = r"""
use mpi::collective::SystemOperation as Op;
use mpi::datatype::{Partition, PartitionMut, UserDatatype, View, MutView};
use mpi::request::WaitGuard;
use mpi::traits::*;
use mpi::Count;

/// Any bit pattern, NaN payloads included, seen as its bytes.
trait Bits: Copy + 'static { const N: usize; type F: Equivalence + Copy + Default + Bits + 'static; fn any(r: &mut Rng) -> Self; fn tame(r: &mut Rng) -> Self; fn bits(&self) -> Vec<u64>; fn flat(&self) -> Vec<Self::F>; }
impl Bits for f32 { const N: usize = 1; type F = f32; fn any(r: &mut Rng) -> f32 { if r.below(4) == 0 { Gen::random(r) } else { f32::from_bits(r.u64() as u32) } } fn tame(r: &mut Rng) -> f32 { r.below(2000) as f32 / 8.0 - 100.0 } fn bits(&self) -> Vec<u64> { vec![self.to_bits() as u64] } fn flat(&self) -> Vec<f32> { vec![*self] } }
impl Bits for f64 { const N: usize = 1; type F = f64; fn any(r: &mut Rng) -> f64 { if r.below(4) == 0 { Gen::random(r) } else { f64::from_bits(r.u64()) } } fn tame(r: &mut Rng) -> f64 { r.below(2000) as f64 / 8.0 - 100.0 } fn bits(&self) -> Vec<u64> { vec![self.to_bits()] } fn flat(&self) -> Vec<f64> { vec![*self] } }
macro_rules! vec_bits { ($t:ident, $f:ident, $n:expr) => { impl Bits for $t { const N: usize = $n; type F = $f;
    fn any(r: &mut Rng) -> $t { let mut a = [0.0; $n]; for x in &mut a { *x = <$f as Bits>::any(r); } <$t>::from_array(a) }
    fn tame(r: &mut Rng) -> $t { let mut a = [0.0; $n]; for x in &mut a { *x = <$f as Bits>::tame(r); } <$t>::from_array(a) }
    fn bits(&self) -> Vec<u64> { self.to_array().iter().flat_map(|x| Bits::bits(x)).collect() }
    fn flat(&self) -> Vec<$f> { self.to_array().to_vec() } } } }
vec_bits!(Vec2, f32, 2); vec_bits!(Vec3, f32, 3); vec_bits!(DVec2, f64, 2); vec_bits!(DVec3, f64, 3);

struct Kit<S, Q> { wrap: fn(S) -> Q, unwrap: fn(Q) -> S, name: String }

/// What rank `rank` sends in operation `k`: every process can work out what every other one holds.
fn data<S: Bits>(seed: u64, k: u64, rank: i32, len: usize) -> Vec<S> {
    let mut r = Rng::new(mix(mix(seed, k), rank as u64 + 77));
    (0..len).map(|_| S::any(&mut r)).collect()
}
fn tame<S: Bits>(seed: u64, k: u64, rank: i32, len: usize) -> Vec<S> {
    let mut r = Rng::new(mix(mix(seed, k), rank as u64 + 77));
    (0..len).map(|_| S::tame(&mut r)).collect()
}
fn bits<S: Bits>(v: &[S]) -> Vec<u64> { v.iter().flat_map(|x| x.bits()).collect() }
fn flat<S: Bits>(v: &[S]) -> Vec<S::F> { v.iter().flat_map(|x| x.flat()).collect() }

const G: usize = 3;
/// A receive buffer between guards.
struct Guarded<T> { all: Vec<T>, before: Vec<T> }
impl<T: Copy> Guarded<T> {
    fn new(mut make: impl FnMut() -> T, len: usize) -> Self { let all: Vec<T> = (0..len + 2 * G).map(|_| make()).collect(); Guarded { before: all.clone(), all } }
    fn inner(&mut self) -> &mut [T] { let n = self.all.len(); &mut self.all[G..n - G] }
}
struct Ctx<'a> { m: &'a mut Mon, seed: u64, k: u64, label: String, delay: Rng }
impl<'a> Ctx<'a> {
    fn begin(&mut self, form: &str) {
        self.k += 1;
        self.m.form(&format!("{} {}", form, self.label));
        // another interleaving of the processes every time
        match self.delay.below(6) { 0 => std::thread::sleep(std::time::Duration::from_micros(self.delay.below(200))), 1 | 2 => std::thread::yield_now(), _ => {} }
    }
    fn check<T: Copy>(&mut self, g: &Guarded<T>, want: &[u64], bits: impl Fn(&[T]) -> Vec<u64>) {
        let n = g.all.len();
        let got = bits(&g.all[G..n - G]);
        let k = self.k;
        self.m.event(got == want, got.iter().fold(k, |h, x| mix(h, *x)), || format!("operation {} received {:x?} instead of {:x?}", k, &got[..got.len().min(24)], &want[..want.len().min(24)]));
        let ok = bits(&g.all[..G]) == bits(&g.before[..G]) && bits(&g.all[n - G..]) == bits(&g.before[n - G..]);
        self.m.event(ok, mix(k, 5), || format!("operation {} wrote beside the buffer of {} elements", k, n - 2 * G));
    }
}

fn ops<S: Bits, Q: Equivalence + Copy + 'static>(m: &mut Mon, seed: u64, kit: Kit<S, Q>, world: &mpi::topology::SimpleCommunicator, lens: &[usize]) where <S::F as Equivalence>::Out: Clone {
    let (rank, size) = (world.rank(), world.size());
    let name = kit.name.clone();
    let mut c = Ctx { m, seed, k: 0, label: format!("{} on {} processes", name, size), delay: Rng::new(mix(seed, rank as u64 + 1)) };
    let mut junk = Rng::new(seed ^ 0xabcdef);
    let wrap = |v: &[S]| -> Vec<Q> { v.iter().map(|x| (kit.wrap)(*x)).collect() };
    let qbits = |v: &[Q]| -> Vec<u64> { v.iter().flat_map(|x| (kit.unwrap)(*x).bits()).collect() };
    let (next, prev) = ((rank + 1) % size, (rank + size - 1) % size);
    macro_rules! guarded { ($n:expr) => { Guarded::new(|| (kit.wrap)(S::any(&mut junk)), $n) } }
    macro_rules! guarded_flat { ($n:expr) => { Guarded::new(|| <S::F as Bits>::any(&mut junk), $n) } }

    // the type as MPI sees it
    c.begin("size and extent of the type");
    let (mut ts, mut lb, mut ex) = (0, 0, 0);
    let dt = Q::equivalent_datatype();
    unsafe { mpi::ffi::MPI_Type_size(dt.as_raw(), &mut ts); mpi::ffi::MPI_Type_get_extent(dt.as_raw(), &mut lb, &mut ex); }
    c.m.same(&0u64, (std::mem::size_of::<S>() as u64, (0u64, std::mem::size_of::<S>() as u64)), (ts as u64, (lb as u64, ex as u64)));
    c.m.same(&1u64, world.pack_size(10, &dt) as u64, world.pack_size(10 * S::N as Count, &S::F::equivalent_datatype()) as u64);

    for &len in lens {
        let mine = |c: &Ctx| data::<S>(c.seed, c.k, rank, len);
        let of = |c: &Ctx, r: i32| data::<S>(c.seed, c.k, r, len);

        c.begin("send and receive_into");
        let v = wrap(&mine(&c));
        let mut g = guarded!(len);
        let mut status = None;
        mpi::request::scope(|s| { let _w = WaitGuard::from(world.process_at_rank(next).immediate_send(s, &v[..])); status = Some(world.process_at_rank(prev).receive_into(g.inner())); });
        let w = bits(&of(&c, prev)); c.check(&g, &w, qbits);
        let n = status.unwrap().count(Q::equivalent_datatype()) as u64;
        c.m.same(&(len, 2u64), len as u64, n);

        c.begin("send into bare values");
        let v = wrap(&mine(&c));
        let mut g = guarded_flat!(len * S::N);
        mpi::request::scope(|s| { let _w = WaitGuard::from(world.process_at_rank(next).immediate_synchronous_send(s, &v[..])); world.process_at_rank(prev).receive_into(g.inner()); });
        let w = bits(&of(&c, prev)); c.check(&g, &w, |x| bits(x));

        c.begin("receive_into from bare values");
        let v = flat(&mine(&c));
        let mut g = guarded!(len);
        mpi::request::scope(|s| { let r = WaitGuard::from(world.process_at_rank(prev).immediate_receive_into(s, g.inner())); world.process_at_rank(next).send(&v[..]); drop(r); });
        let w = bits(&of(&c, prev)); c.check(&g, &w, qbits);

        c.begin("send_receive_into");
        let v = wrap(&mine(&c));
        let mut g = guarded!(len);
        mpi::point_to_point::send_receive_into(&v[..], &world.process_at_rank(prev), g.inner(), &world.process_at_rank(next));
        let w = bits(&of(&c, next)); c.check(&g, &w, qbits);

        c.begin("send_receive_replace_into");
        let v = wrap(&mine(&c));
        let mut g = guarded!(len);
        g.inner().copy_from_slice(&v);
        mpi::point_to_point::send_receive_replace_into(g.inner(), &world.process_at_rank(next), &world.process_at_rank(prev));
        let w = bits(&of(&c, prev)); c.check(&g, &w, qbits);

        c.begin("receive_vec");
        let v = wrap(&mine(&c));
        let mut got: Vec<Q> = vec![];
        mpi::request::scope(|s| { let _w = WaitGuard::from(world.process_at_rank(next).immediate_send_with_tag(s, &v[..], 5)); got = world.process_at_rank(prev).receive_vec_with_tag::<Q>(5).0; });
        let w = bits(&of(&c, prev)); let got = qbits(&got); c.m.same(&(len, c.k), w, got);

        c.begin("broadcast_into");
        let root = (c.k % size as u64) as i32;
        let mut g = guarded!(len);
        if rank == root { let v = wrap(&mine(&c)); g.inner().copy_from_slice(&v); }
        world.process_at_rank(root).broadcast_into(g.inner());
        let w = bits(&of(&c, root)); c.check(&g, &w, qbits);

        c.begin("gather_into");
        let root = (c.k % size as u64) as i32;
        let v = wrap(&mine(&c));
        if rank == root {
            let mut g = guarded!(len * size as usize);
            world.process_at_rank(root).gather_into_root(&v[..], g.inner());
            let w: Vec<u64> = (0..size).flat_map(|r| bits(&of(&c, r))).collect(); c.check(&g, &w, qbits);
        } else { world.process_at_rank(root).gather_into(&v[..]); }

        c.begin("scatter_into");
        let root = (c.k % size as u64) as i32;
        let mut g = guarded!(len);
        let all: Vec<S> = data(c.seed, c.k, 99, len * size as usize);
        if rank == root { let v = wrap(&all); world.process_at_rank(root).scatter_into_root(&v[..], g.inner()); } else { world.process_at_rank(root).scatter_into(g.inner()); }
        let w = bits(&all[len * rank as usize..len * (rank as usize + 1)]); c.check(&g, &w, qbits);

        c.begin("all_gather_into");
        let v = wrap(&mine(&c));
        let mut g = guarded!(len * size as usize);
        world.all_gather_into(&v[..], g.inner());
        let w: Vec<u64> = (0..size).flat_map(|r| bits(&of(&c, r))).collect(); c.check(&g, &w, qbits);

        c.begin("all_gather_into into bare values");
        let v = wrap(&mine(&c));
        let mut g = guarded_flat!(len * size as usize * S::N);
        world.all_gather_into(&v[..], g.inner());
        let w: Vec<u64> = (0..size).flat_map(|r| bits(&of(&c, r))).collect(); c.check(&g, &w, |x| bits(x));

        c.begin("all_to_all_into");
        let all = |c: &Ctx, r: i32| data::<S>(c.seed, c.k, r, len * size as usize);
        let v = wrap(&all(&c, rank));
        let mut g = guarded!(len * size as usize);
        world.all_to_all_into(&v[..], g.inner());
        let w: Vec<u64> = (0..size).flat_map(|r| bits(&all(&c, r)[len * rank as usize..len * (rank as usize + 1)])).collect(); c.check(&g, &w, qbits);

        c.begin("all_gather_varcount_into");
        let counts: Vec<Count> = (0..size).map(|r| (len as i32 + r * 3) % 7).collect();
        let mut at = 0; let displs: Vec<Count> = counts.iter().map(|n| { let d = at; at += n + 2; d }).collect();
        let v = wrap(&data::<S>(c.seed, c.k, rank, counts[rank as usize] as usize));
        let mut g = guarded!(at as usize);
        let mut w = qbits(g.inner());
        for r in 0..size { for (i, x) in bits(&data::<S>(c.seed, c.k, r, counts[r as usize] as usize)).into_iter().enumerate() { w[displs[r as usize] as usize * S::N + i] = x; } }
        { let mut p = PartitionMut::new(g.inner(), counts, &displs[..]); world.all_gather_varcount_into(&v[..], &mut p); }
        c.check(&g, &w, qbits);

        c.begin("all_to_all_varcount_into");
        // rank a sends (a + b) % 3 elements to rank b
        let cnt = |a: i32, b: i32| (a + b + len as i32) % 3;
        let sc: Vec<Count> = (0..size).map(|b| cnt(rank, b)).collect(); let rc: Vec<Count> = (0..size).map(|a| cnt(a, rank)).collect();
        let sd: Vec<Count> = (0..size).map(|b| b * 3).collect(); let rd: Vec<Count> = (0..size).map(|a| a * 4).collect();
        let v = wrap(&data::<S>(c.seed, c.k, rank, 3 * size as usize));
        let mut g = guarded!(4 * size as usize);
        let mut w = qbits(g.inner());
        for a in 0..size { let theirs = data::<S>(c.seed, c.k, a, 3 * size as usize); for i in 0..cnt(a, rank) { let x = theirs[(rank * 3 + i) as usize].bits(); for (j, y) in x.into_iter().enumerate() { w[(a * 4 + i) as usize * S::N + j] = y; } } }
        { let s = Partition::new(&v[..], sc, &sd[..]); let mut p = PartitionMut::new(g.inner(), rc, &rd[..]); world.all_to_all_varcount_into(&s, &mut p); }
        c.check(&g, &w, qbits);

        c.begin("pack and unpack_into");
        let v = wrap(&mine(&c));
        let packed = world.pack(&v[..]);
        let mut g = guarded!(len);
        unsafe { world.unpack_into(&packed, g.inner(), 0); }
        let w = bits(&mine(&c)); c.check(&g, &w, qbits);
        let mut g = guarded_flat!(len * S::N);
        unsafe { world.unpack_into(&packed, g.inner(), 0); }
        c.check(&g, &w, |x| bits(x));
        let other = world.pack(&flat(&mine(&c))[..]);
        c.m.same(&(len, c.k), format!("{:?}", other), format!("{:?}", packed));
        let mut g = guarded!(len);
        unsafe { world.unpack_into(&other, g.inner(), 0); }
        c.check(&g, &w, qbits);

        c.begin("several packed one after the other");
        let (a, b) = (mine(&c), of(&c, rank + 1));
        let mut space = vec![0xA5u8; (a.len() + b.len()) * std::mem::size_of::<S>() + 64];
        let p = world.pack_into(&wrap(&a)[..], &mut space, 0); let p2 = world.pack_into(&wrap(&b)[..], &mut space, p);
        let ok = space[p2 as usize..].iter().all(|x| *x == 0xA5); c.m.event(ok, c.k, || "packing wrote beyond its end".to_string());
        let (mut g, mut h) = (guarded!(len), guarded!(len));
        unsafe { let q = world.unpack_into(&space, g.inner(), 0); c.m.same(&(len, 3u64), p as u64, q as u64); world.unpack_into(&space, h.inner(), q); }
        let w = bits(&a); c.check(&g, &w, qbits); let w = bits(&b); c.check(&h, &w, qbits);

        c.begin("every second element");
        let v = wrap(&mine(&c));
        let half = (len + 1) / 2;
        if half > 0 {
            let t = UserDatatype::vector(half as Count, 1, 2, &Q::equivalent_datatype());
            let mut g = guarded!(len);
            let mut w = qbits(g.inner());
            let theirs = bits(&of(&c, prev)); for i in 0..half { for j in 0..S::N { w[2 * i * S::N + j] = theirs[2 * i * S::N + j]; } }
            { let view = unsafe { View::with_count_and_datatype(&v[..], 1, &t) }; let mut into = unsafe { MutView::with_count_and_datatype(g.inner(), 1, &t) };
              mpi::point_to_point::send_receive_into(&view, &world.process_at_rank(next), &mut into, &world.process_at_rank(prev)); }
            c.check(&g, &w, qbits);
        }
        c.begin("seen as raw dynamic buffer");
        let v = wrap(&mine(&c));
        let b = mpi::datatype::DynBuffer::new(&v[..]);
        c.m.same(&(len, c.k), (len, true), (b.len(), b.is::<Q>()));
        if S::N == 1 { let is = mpi::datatype::DynBuffer::new(&v[..]).is::<S::F>(); c.m.same(&(len, c.k), true, is); }
    }

    c.begin("single values");
    for _ in 0..20 {
        c.k += 1;
        let v = (kit.wrap)(data::<S>(seed, c.k, rank, 1)[0]);
        let w = bits(&data::<S>(seed, c.k, prev, 1));
        let mut got = None;
        mpi::request::scope(|s| { let _w = WaitGuard::from(world.process_at_rank(next).immediate_send(s, &v)); got = Some(world.process_at_rank(prev).receive::<Q>().0); });
        let got = (kit.unwrap)(got.unwrap()).bits(); c.m.same(&c.k, w.clone(), got);
        let (got, _) = mpi::point_to_point::send_receive::<Q, _, _, _>(&v, &world.process_at_rank(next), &world.process_at_rank(prev));
        let got = (kit.unwrap)(got).bits(); c.m.same(&c.k, w, got);
        let root = (c.k % size as u64) as i32;
        let mut x = v; world.process_at_rank(root).broadcast_into(&mut x);
        let w = bits(&data::<S>(seed, c.k, root, 1)); let got = (kit.unwrap)(x).bits(); c.m.same(&c.k, w, got);
    }
    c.begin("many messages in flight");
    {
        let count = 12; let len = 4;
        let out: Vec<Vec<Q>> = (0..count).map(|i| wrap(&data::<S>(seed, c.k + i, rank, len))).collect();
        let mut inb: Vec<Guarded<Q>> = (0..count).map(|_| guarded!(len)).collect();
        mpi::request::scope(|s| {
            let mut guards = vec![];
            // posted in another order than sent, told apart by their tags
            for (i, g) in inb.iter_mut().enumerate().rev() { guards.push(WaitGuard::from(world.process_at_rank(prev).immediate_receive_into_with_tag(s, g.inner(), i as i32))); }
            for (i, v) in out.iter().enumerate() { guards.push(WaitGuard::from(world.process_at_rank(next).immediate_send_with_tag(s, &v[..], i as i32))); }
        });
        for (i, g) in inb.iter().enumerate() { let w = bits(&data::<S>(seed, c.k + i as u64, prev, len)); c.check(g, &w, qbits); }
        c.k += count;
    }
    c.begin("immediate collectives");
    for &len in lens {
        c.k += 1;
        let v = wrap(&data::<S>(seed, c.k, rank, len));
        let mut g = guarded!(len * size as usize);
        mpi::request::scope(|s| { world.immediate_all_gather_into(s, &v[..], g.inner()).wait(); });
        let w: Vec<u64> = (0..size).flat_map(|r| bits(&data::<S>(seed, c.k, r, len))).collect(); c.check(&g, &w, qbits);
        let root = (c.k % size as u64) as i32;
        let mut g = guarded!(len);
        g.inner().copy_from_slice(&v);
        mpi::request::scope(|s| { world.process_at_rank(root).immediate_broadcast_into(s, g.inner()).wait(); });
        let w = bits(&data::<S>(seed, c.k, root, len)); c.check(&g, &w, qbits);
    }
}

/// Reductions exist for floats only.
fn reductions<S: Bits<F = S> + Equivalence + Raw + Default, Q: Equivalence + Copy + 'static>(m: &mut Mon, seed: u64, kit: Kit<S, Q>, world: &mpi::topology::SimpleCommunicator, lens: &[usize]) {
    let (rank, size) = (world.rank(), world.size());
    let mut c = Ctx { m, seed, k: 1 << 20, label: format!("{} on {} processes", kit.name, size), delay: Rng::new(mix(seed, rank as u64 + 1)) };
    let mut junk = Rng::new(seed ^ 0xabcdef);
    let wrap = |v: &[S]| -> Vec<Q> { v.iter().map(|x| (kit.wrap)(*x)).collect() };
    let qbits = |v: &[Q]| -> Vec<u64> { v.iter().flat_map(|x| (kit.unwrap)(*x).bits()).collect() };
    for (name, op) in [("sum", Op::sum as fn() -> Op), ("product", Op::product), ("max", Op::max), ("min", Op::min)] {
        for &len in lens {
            c.begin(&format!("all_reduce_into with {}", name));
            let v = tame::<S>(seed, c.k, rank, len);
            let mut want = vec![S::default(); len]; world.all_reduce_into(&v[..], &mut want[..], op());
            let mut g = Guarded::new(|| (kit.wrap)(S::any(&mut junk)), len); world.all_reduce_into(&wrap(&v)[..], g.inner(), op());
            c.check(&g, &bits(&want), qbits);

            c.begin(&format!("reduce_into with {}", name));
            let root = (c.k % size as u64) as i32; let p = world.process_at_rank(root);
            let v = tame::<S>(seed, c.k, rank, len);
            if rank == root {
                let mut want = vec![S::default(); len]; p.reduce_into_root(&v[..], &mut want[..], op());
                let mut g = Guarded::new(|| (kit.wrap)(S::any(&mut junk)), len); p.reduce_into_root(&wrap(&v)[..], g.inner(), op());
                c.check(&g, &bits(&want), qbits);
            } else { p.reduce_into(&v[..], op()); p.reduce_into(&wrap(&v)[..], op()); }

            c.begin(&format!("scan_into with {}", name));
            let v = tame::<S>(seed, c.k, rank, len);
            let mut want = vec![S::default(); len]; world.scan_into(&v[..], &mut want[..], op());
            let mut g = Guarded::new(|| (kit.wrap)(S::any(&mut junk)), len); world.scan_into(&wrap(&v)[..], g.inner(), op());
            c.check(&g, &bits(&want), qbits);

            c.begin(&format!("reduce_scatter_block_into with {}", name));
            let v = tame::<S>(seed, c.k, rank, len * size as usize);
            let mut want = vec![S::default(); len]; world.reduce_scatter_block_into(&v[..], &mut want[..], op());
            let mut g = Guarded::new(|| (kit.wrap)(S::any(&mut junk)), len); world.reduce_scatter_block_into(&wrap(&v)[..], g.inner(), op());
            c.check(&g, &bits(&want), qbits);
        }
    }
    // the same once more against the sum worked out here
    c.begin("all_reduce_into against the sum");
    let v = tame::<S>(seed, c.k, rank, 33);
    let mut g = Guarded::new(|| (kit.wrap)(S::any(&mut junk)), 33); world.all_reduce_into(&wrap(&v)[..], g.inner(), Op::max());
    let all: Vec<Vec<u64>> = (0..size).map(|r| tame::<S>(seed, c.k, r, 33).iter().map(|x| x.bits()[0]).collect()).collect();
    let got = { let n = g.all.len(); qbits(&g.all[G..n - G]) };
    for i in 0..33 { let ok = all.iter().any(|a| a[i] == got[i]); c.m.event(ok, mix(i as u64, got[i]), || format!("the maximum {:x} is none of the values", got[i])); }
}
"""

STRUCTS = r"""
#[derive(Clone, Copy, Equivalence)]
struct Particle { id: u32, mass: Mass<f64>, pos: Length<DVec3>, heat: Temperature<f32>, vel: Velocity<Vec2>, area: Area<Vec3>, last: bool }
fn structs(m: &mut Mon, seed: u64, world: &mpi::topology::SimpleCommunicator) {
    let (rank, size) = (world.rank(), world.size());
    let (next, prev) = ((rank + 1) % size, (rank + size - 1) % size);
    let make = |rank: i32, n: usize| -> Vec<Particle> { let mut r = Rng::new(seed ^ (rank as u64 + 5) << 8); (0..n).map(|i| Particle { id: i as u32, mass: Mass::<f64>::new_unchecked(Bits::any(&mut r)), pos: Length::<DVec3>::new_unchecked(Bits::any(&mut r)),
        heat: Temperature::<f32>::new_unchecked(Bits::any(&mut r)), vel: Velocity::<Vec2>::new_unchecked(Bits::any(&mut r)), area: Area::<Vec3>::new_unchecked(Bits::any(&mut r)), last: r.below(2) == 0 }).collect() };
    let all = |p: &[Particle]| -> Vec<u64> { p.iter().flat_map(|p| { let mut v = vec![p.id as u64, p.last as u64]; v.extend(p.mass.value_unchecked().bits()); v.extend(p.pos.value_unchecked().bits()); v.extend(p.heat.value_unchecked().bits()); v.extend(p.vel.value_unchecked().bits()); v.extend(p.area.value_unchecked().bits()); v }).collect() };
    m.form(&format!("structs of quantities on {} processes", size));
    for n in [1usize, 2, 5, 50] {
        let v = make(rank, n); let mut g = make(98, n + 2);
        let guard = all(&[g[0], g[n + 1]]);
        mpi::point_to_point::send_receive_into(&v[..], &world.process_at_rank(next), &mut g[1..n + 1], &world.process_at_rank(prev));
        m.same(&n, all(&make(prev, n)), all(&g[1..n + 1])); m.same(&(n, 1u64), guard, all(&[g[0], g[n + 1]]));
        let mut g = make(98, n * size as usize);
        world.all_gather_into(&v[..], &mut g[..]);
        let want: Vec<u64> = (0..size).flat_map(|r| all(&make(r, n))).collect();
        m.same(&(n, 2u64), want, all(&g));
    }
}
"""


def source(draw, c, w):
    parts = []
    for S in STORAGES:
        dims = draw.r.sample(list(SI_DIMS), c.pick(2, 5)) + ["Dimensionless", "sys::dimensions::" + draw.r.choice(w.bases)]
        lens = [0, 1, 2, 3, 7] + [draw.r.randint(8, 90) for _ in range(c.pick(1, 4))] + [c.pick(700, 20000)]
        b = f"let world = world(); let seed = r.u64(); let lens = {lens}; let _ = n;\n"
        for D in dims:
            kit = f'Kit::<{S}, {D}<{S}>> {{ wrap: |v| {D}::<{S}>::new_unchecked(v), unwrap: |q| q.value_unchecked(), name: "{S},{D.split("::")[-1]}".to_string() }}'
            b += f"ops::<{S}, {D}<{S}>>(m, seed, {kit}, &world, &lens);\n"
            if S not in VECS:
                b += f"reductions::<{S}, {D}<{S}>>(m, seed, {kit}, &world, &lens);\n"
        parts.append(b)
    parts.append("structs(m, r.u64(), &world());")
    text = program(parts, SI + w.decl, HELP + STRUCTS + "fn world() -> mpi::topology::SimpleCommunicator { mpi::topology::SimpleCommunicator::world() }\n")
    return text.replace("fn main() {\n", "fn main() {\n    let universe = mpi::initialize().unwrap();\n    let _w = universe.world();\n")


def launch(c, exe, n, args, label):
    """Run on n processes under mpirun, every process writing its report into its own file."""
    d = c.path(os.path.basename(exe) + f".{n}.{args[0]}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wrapper = f'exec "$0" "$@" >{d}/out.${{OMPI_COMM_WORLD_RANK:-0}} 2>{d}/err.${{OMPI_COMM_WORLD_RANK:-0}}'
    cmd = ["mpirun", "-n", str(n), "--oversubscribe", "--mca", "btl_vader_single_copy_mechanism", "none", "sh", "-c", wrapper, exe, *map(str, args)]
    rc, out, err = sh(cmd, 300, cwd=d, extra_env={"TMPDIR": d})
    ended = 0
    for k in range(n):
        p = os.path.join(d, f"out.{k}")
        if os.path.exists(p):
            with open(p, errors="replace") as f:
                _, got = c.merge(f.read(), exe, args, label)
            ended += got
    if rc != 0 or ended != n:
        errs = "".join(open(os.path.join(d, f"err.{k}"), errors="replace").read()[-2000:] for k in range(n) if os.path.exists(os.path.join(d, f"err.{k}")))
        c.violate("the processes crashed or were aborted", {"processes": n, "rc": rc, "ended": ended, "stderr": (err[-2000:] + errs)[-6000:], "args": args}, [exe + ".rs"])
    shutil.rmtree(d, ignore_errors=True)


def run(c):
    c.rule = ("one observation = the bits received by one process in one MPI operation, or the guard elements around its receive buffer, compared with what the sender holds; "
              "distinct = distinct (form, operation, received bits)")
    c.assumptions = ["every process can recompute what every other one sends from the seed; Open MPI itself is trusted; reductions are compared with the same reduction of bare values"]
    # what the environment offers is not a property of diman
    probe, _, _ = sh(["mpirun", "-n", "2", "--oversubscribe", "true"], 60, cwd=c.work, extra_env={"TMPDIR": c.work})
    ranks = c.pick([1, 2, 3, 4], [1, 2, 3, 4, 5, 7, 8]) if probe == 0 else []
    c.extra["mpirun"] = "works" if ranks else "does not start here: one process without it"
    jobs = []
    for cfg in ("full", "fullrat"):
        d = deps(cfg)
        draw = Draw(c, cfg)
        w = texts.random_world(draw.r, cfg == "fullrat")
        jobs.append((cfg, d, source(draw, c, w)))

    def build(job):
        cfg, d, text = job
        comp = c.compile(c.write(f"{cfg}.rs", text), d)
        return comp.out if comp.ok else None

    exes = pmap(build, jobs)
    for (cfg, _, _), exe in zip(jobs, exes):
        if not exe:
            continue
        for n in ranks:
            for k in range(c.pick(1, 4)):
                launch(c, exe, n, [c.seed + k * 1000, 1], f"{cfg}/")
        if not ranks:
            c.run(exe, [c.seed, 1], label=f"{cfg}/")
    return 5000
