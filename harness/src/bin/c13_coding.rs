//! C13: round trips, layout and hostile input of both formats; live-element balance of partially built containers.
#![feature(f128)]
use aether_core::attitude::{DirectionCosineMatrix, Euler, Quaternion};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Assembly, Body, ITRF, NED, ReferenceFrame, ICRF};
use aether_monitors::fw::*;
use bincode::config;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

#[derive(Debug, Clone, Copy, PartialEq, Default, bincode::Encode, bincode::Decode, serde::Serialize, serde::Deserialize)] struct A;
impl ReferenceFrame for A {}

// ---------------------------------------------------------------- elements that own memory and are counted
thread_local! {
    static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static DOUBLE: Cell<u64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}
#[derive(Debug)]
struct D { id: u64, v: Box<u8> }
impl D { fn new(v: u8) -> D { let id = NEXT.with(|n| { n.set(n.get() + 1); n.get() }); LIVE.with(|l| l.borrow_mut().insert(id)); MADE.with(|m| m.set(m.get() + 1)); D { id, v: Box::new(v) } } }
impl Drop for D { fn drop(&mut self) { let id = self.id; LIVE.with(|l| if !l.borrow_mut().remove(&id) { DOUBLE.with(|d| d.set(d.get() + 1)) }); } }
impl Clone for D { fn clone(&self) -> D { D::new(*self.v) } }
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.v == o.v } }
const BAD: u8 = 0xEE;
impl bincode::Encode for D { fn encode<E: bincode::enc::Encoder>(&self, e: &mut E) -> Result<(), bincode::error::EncodeError> { self.v.as_ref().encode(e) } }
impl<C> bincode::Decode<C> for D { fn decode<X: bincode::de::Decoder<Context = C>>(d: &mut X) -> Result<Self, bincode::error::DecodeError> { let v = <u8 as bincode::Decode<C>>::decode(d)?; if v == BAD { Err(bincode::error::DecodeError::Other("bad element")) } else { Ok(D::new(v)) } } }
impl<'de, C> bincode::BorrowDecode<'de, C> for D { fn borrow_decode<X: bincode::de::BorrowDecoder<'de, Context = C>>(d: &mut X) -> Result<Self, bincode::error::DecodeError> { <D as bincode::Decode<C>>::decode(d) } }
impl serde::Serialize for D { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u8(*self.v) } }
impl<'de> serde::Deserialize<'de> for D { fn deserialize<X: serde::Deserializer<'de>>(d: X) -> Result<Self, X::Error> { let v = <u8 as serde::Deserialize>::deserialize(d)?; if v == BAD { Err(serde::de::Error::custom("bad element")) } else { Ok(D::new(v)) } } }
fn live() -> usize { LIVE.with(|l| l.borrow().len()) }
fn reset() { LIVE.with(|l| l.borrow_mut().clear()); DOUBLE.with(|d| d.set(0)); }

/// runs `f`, then checks that every element made inside is dropped exactly once
fn balanced<R>(c: &mut Case, key: &str, what: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Option<R> where R: 'static {
    reset();
    let r = guard(f);
    let out = match r { Ok(v) => Some(v), Err(e) => { c.fail("panic", format!("{key}: {e} {}", what())); None } };
    let (l, d) = (live(), DOUBLE.with(|d| d.get()));
    c.ok(d == 0, "dropped-twice", || format!("{key}: {d} elements dropped twice, {}", what()));
    let _ = l;
    out
}
fn elements<const M: usize, const N: usize>(r: &mut Rng, c: &mut Case) {
    let vals: Vec<u8> = (0..M * N).map(|_| r.below(200) as u8).collect();
    for v in &vals { c.mix(*v as u64); }
    let cfg = config::standard().with_fixed_int_encoding();
    // a byte string that fails at a chosen element, is cut there, or is whole
    let mut bytes = vals.clone();
    let how = r.below(4);
    let at = r.below(M * N);
    match how { 0 => bytes[at] = BAD, 1 => bytes.truncate(at), 2 => bytes.extend([1, 2, 3]), _ => {} }
    let good = how >= 2;
    let what = || format!("{M}x{N} elements {vals:?} how {how} at {at}");
    {
        let made = MADE.with(|m| m.get());
        let res = balanced(c, "bincode", &what, || bincode::decode_from_slice::<Matrix<D, M, N>, _>(&bytes, cfg).map_err(|e| e.to_string()));
        finish(c, "bincode", good, res.map(|x| x.map(|(m, n)| { (m, n == M * N) })), &vals, made, &what);
        let made = MADE.with(|m| m.get());
        let owned = bytes.clone();
        let res = balanced(c, "bincode-borrow", &what, move || bincode::borrow_decode_from_slice::<Matrix<D, M, N>, _>(&owned, cfg).map_err(|e| e.to_string()));
        finish(c, "bincode-borrow", good, res.map(|x| x.map(|(m, n)| (m, n == M * N))), &vals, made, &what);
    }
    // JSON with the failure at the same place, or structural damage
    let rows: Vec<Vec<String>> = (0..M).map(|i| (0..N).map(|j| vals[i * N + j].to_string()).collect()).collect();
    let how = r.below(8);
    let (ri, ci) = (r.below(M), r.below(N));
    let mut rows2 = rows.clone();
    match how { 0 => rows2[ri][ci] = BAD.to_string(), 1 => rows2[ri].truncate(ci), 2 => rows2[ri].push("7".into()), 3 => { rows2.truncate(ri); } 4 => rows2.push(rows[0].clone()), 5 => rows2[ri][ci] = "\"x\"".into(), _ => {} }
    let mut js = format!("[{}]", rows2.iter().map(|r| format!("[{}]", r.join(","))).collect::<Vec<_>>().join(","));
    if how == 6 { let n = r.below(js.len()); js.truncate(n); }
    if r.chance(0.1) && how == 7 { let n = 1 + r.below(js.len() - 1); js.insert_str(n, "[[["); }
    let good = js == format!("[{}]", rows.iter().map(|r| format!("[{}]", r.join(","))).collect::<Vec<_>>().join(","));
    let what = || format!("{M}x{N} json {js}");
    let made = MADE.with(|m| m.get());
    let text = js.clone();
    let res = balanced(c, "json", &what, move || serde_json::from_str::<Matrix<D, M, N>>(&text).map_err(|e| e.to_string()));
    finish(c, "json", good, res.map(|x| x.map(|m| (m, true))), &vals, made, &what);
    let made = MADE.with(|m| m.get());
    let text = js.clone();
    let res = balanced(c, "json-core", &what, move || serde_json_core::from_str::<Matrix<D, M, N>>(&text).map_err(|e| format!("{e:?}")));
    let full = js.len();
    finish(c, "json-core", good, res.map(|x| x.map(|(m, n)| (m, n == full))), &vals, made, &what);
    c.state((how * 64 + M * 8 + N) as u64);
}
fn finish<const M: usize, const N: usize>(c: &mut Case, key: &str, good: bool, res: Option<Result<(Matrix<D, M, N>, bool), String>>, vals: &[u8], made: u64, what: &dyn Fn() -> String) {
    let res = match res { Some(r) => r, None => return };
    let made = MADE.with(|m| m.get()) - made;
    let k = |s: &str| format!("{key}-{s}");
    match res {
        Ok((m, whole)) => {
            c.ok(good, &k("accepted-damage"), || what());
            c.ok(whole && m.data.iter().flatten().map(|d| *d.v).eq(vals.iter().copied()), &k("elements"), || what());
            c.ok(live() == M * N, &k("live-after-success"), || format!("{} live of {} made, {}", live(), made, what()));
            c.ev("containers built");
            drop(m);
        }
        Err(e) => { c.ok(!good, &k("refused-own-encoding"), || format!("{e} {}", what())); if made > 0 { c.ev("failed after some elements"); } }
    }
    c.ok(live() == 0, &k("leaked-elements"), || format!("{} of {made} elements never dropped, {}", live(), what()));
    c.ok(DOUBLE.with(|d| d.get()) == 0, &k("double-drop"), || what());
}
/// Vector construction from iterators of any length, owned iteration stopped anywhere, map that panics
fn ownership<const N: usize>(r: &mut Rng, c: &mut Case) {
    let n = match r.below(4) { 0 => N, 1 => r.below(N + 1), 2 => N + 1 + r.below(3), _ => N };
    let boom = if r.chance(0.3) { r.below(N + 1) } else { usize::MAX };
    c.mix(n as u64); c.mix(boom as u64); c.mix(N as u64);
    reset();
    let res = guard(|| (0..n).map(|i| { if i == boom { panic!("element {i}") } D::new(i as u8) }).collect::<Vector<D, N>>());
    let should = n == N && boom >= n;
    match res {
        Ok(v) => { c.ok(should && v.iter().map(|d| *d.v as usize).eq(0..N), "from-iterator", || format!("N={N} given {n}")); c.ok(live() == N, "from-iterator-live", || format!("{}", live()));
            let k = r.below(N + 1); let mut it = v.into_iter(); for _ in 0..k { it.next(); } drop(it); }
        Err(e) => { c.ok(!should, "from-iterator-refused", || format!("N={N} given {n}: {e}")); c.ev("refused iterators"); }
    }
    c.ok(live() == 0 && DOUBLE.with(|d| d.get()) == 0, "from-iterator-balance", || format!("N={N} given {n} elements, panicking at {boom}: {} never dropped, {} dropped twice", live(), DOUBLE.with(|d| d.get())));
    reset();
    let v: Vector<D, N> = Vector::from(std::array::from_fn(|i| D::new(i as u8)));
    let p = r.below(2 * N + 1);
    let q = guard(|| { let mut i = 0; v.map(|d| { i += 1; if i == p { panic!("map") } D::new(*d.v + 1) }) });
    if let Ok(q) = &q { c.ok(q.iter().map(|d| *d.v as usize).eq(1..=N), "map-elements", || format!("N={N}")); }
    drop(q);
    c.ok(live() == 0 && DOUBLE.with(|d| d.get()) == 0, "map-balance", || format!("N={N} panic at {p}: {} live", live()));
    c.ev("ownership histories");
}

// ---------------------------------------------------------------- numeric round trips
fn bitsy(r: &mut Rng) -> f64 { match r.below(6) { 0 => f64::from_bits(r.u64()), 1 => *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, -f64::NAN]), 2 => r.int(-1000, 1000) as f64, _ => r.normal() * r.logu(1e-20, 1e20) } }
fn bitsy32(r: &mut Rng) -> f32 { match r.below(4) { 0 => f32::from_bits(r.u32()), 1 => *r.pick(&[0.0, -0.0, f32::NAN, f32::INFINITY, f32::MIN_POSITIVE, 1e-45, f32::MAX]), _ => (r.normal() * r.logu(1e-9, 1e9)) as f32 } }
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(4) {
        match r.below(6) {
            0 => { let n = r.below(b.len() + 1); b.truncate(n); }
            1 if !b.is_empty() => { let i = r.below(b.len()); b[i] ^= 1 << r.below(8); }
            2 if !b.is_empty() => { let i = r.below(b.len()); b[i] = r.u32() as u8; }
            3 => { let i = r.below(b.len() + 1); b.insert(i, *r.pick(b"[]{},:\"-+.eE0123456789nulltrue \xff\x00\x80")); }
            4 if !b.is_empty() => { let i = r.below(b.len()); b.remove(i); }
            _ => { let n = r.below(12); for _ in 0..n { b.push(r.u32() as u8); } }
        }
    }
}
macro_rules! roundtrip { ($name:ident, $ty:ty, $make:expr, $bits:expr, $json:expr) => {
    fn $name(r: &mut Rng, c: &mut Case) {
        let v: $ty = $make(r);
        let bits = $bits;
        let want: Vec<u64> = bits(&v);
        for b in &want { c.mix(*b); }
        let ctx = || format!("{} {:x?}", stringify!($ty), want);
        macro_rules! bin { ($cfg:expr, $k:expr) => {{
            let cfg = $cfg;
            match guard(|| bincode::encode_to_vec(&v, cfg)) {
                Ok(Ok(b)) => {
                    let mut tail = b.clone(); if r.chance(0.5) { tail.extend([r.u32() as u8, 9]); }
                    match guard(|| bincode::decode_from_slice::<$ty, _>(&tail, cfg)) {
                        Ok(Ok((w, n))) => { c.ok(bits(&w) == want && n == b.len(), concat!($k, "-round-trip"), || format!("{:x?} consumed {n} of {} {}", bits(&w), b.len(), ctx())); }
                        e => c.fail(concat!($k, "-refused-own-encoding"), format!("{:?} {}", e.map(|x| x.map(|_| ())), ctx())),
                    }
                    // the flat layout: elements in order, little endian, nothing else
                    let flat: Vec<u8> = if $json.1 == 8 { want.iter().flat_map(|x| x.to_le_bytes()).collect() } else { want.iter().flat_map(|x| (*x as u32).to_le_bytes()).collect() };
                    c.ok(b == flat, concat!($k, "-layout"), || format!("{b:x?} {}", ctx()));
                    let cut = r.below(b.len());
                    match guard(|| bincode::decode_from_slice::<$ty, _>(&b[..cut], cfg).is_err()) { Ok(true) => c.ev("truncations refused"), x => c.fail(concat!($k, "-truncated"), format!("cut to {cut} of {}: refused {x:?} {}", b.len(), ctx())) }
                    let mut m = b.clone(); mutate(r, &mut m);
                    match guard(|| bincode::decode_from_slice::<$ty, _>(&m, cfg)) {
                        Ok(Ok((w, n))) => { c.ok(n == b.len() && m.len() >= n && { let e = bincode::encode_to_vec(&w, cfg).unwrap_or_default(); e == m[..n] }, concat!($k, "-mutated"), || format!("{m:x?} {}", ctx())); c.ev("mutants decoded"); }
                        Ok(Err(_)) => { c.ok(m.len() < b.len(), concat!($k, "-mutated-refused"), || format!("{m:x?}")); c.ev("mutants refused"); }
                        Err(e) => c.fail("panic", format!("{e} {m:x?} {}", ctx())),
                    }
                }
                e => c.fail(concat!($k, "-encode"), format!("{:?} {}", e.map(|x| x.map(|_| ())), ctx())),
            }
        }}; }
        if $json.0 & 1 == 1 { bin!(config::standard(), "bincode"); bin!(config::legacy(), "bincode-fixed"); c.ev("binary round trips"); }
        let finite = want.iter().all(|b| if $json.1 == 8 { f64::from_bits(*b).is_finite() } else { f32::from_bits(*b as u32).is_finite() });
        if $json.0 & 2 == 2 && finite {
            let mut buf = vec![0u8; 16384];
            match guard(|| serde_json_core::to_slice(&v, &mut buf)) {
                Ok(Ok(n)) => {
                    let s = buf[..n].to_vec();
                    match guard(|| serde_json_core::from_slice::<$ty>(&s)) {
                        Ok(Ok((w, k))) => { c.ok(k == n && bits(&w) == want, "json-round-trip", || format!("{} -> {:x?} {}", String::from_utf8_lossy(&s), bits(&w), ctx())); }
                        e => c.fail("json-refused-own-encoding", format!("{:?} {} {}", e.map(|x| x.map(|_| ())), String::from_utf8_lossy(&s), ctx())),
                    }
                    let text = String::from_utf8_lossy(&s).into_owned();
                    c.ok(serde_json::from_str::<$ty>(&text).is_ok(), "json-other-parser", || text.clone());
                    let mut m = s.clone(); mutate(r, &mut m);
                    for k in 0..2 {
                        match guard(|| if k == 0 { serde_json_core::from_slice::<$ty>(&m).map(|(w, _)| w).ok() } else { serde_json::from_slice::<$ty>(&m).ok() }) {
                            Ok(Some(w)) => { c.ok(bits(&w).len() == want.len(), "json-mutated", || String::from_utf8_lossy(&m).into_owned()); c.ev("mutants decoded"); }
                            Ok(None) => c.ev("mutants refused"),
                            Err(e) => c.fail("panic", format!("{e} {} {}", String::from_utf8_lossy(&m), ctx())),
                        }
                    }
                    c.ev("text round trips");
                }
                e => c.fail("json-encode", format!("{:?} {}", e.map(|x| x.map(|_| ())), ctx())),
            }
        }
        c.sample(ctx);
    }
}; }
fn arr<const N: usize>(r: &mut Rng) -> [f64; N] { std::array::from_fn(|_| bitsy(r)) }
fn arr32<const N: usize>(r: &mut Rng) -> [f32; N] { std::array::from_fn(|_| bitsy32(r)) }
fn b8(x: &[f64]) -> Vec<u64> { x.iter().map(|v| v.to_bits()).collect() }
fn b4(x: &[f32]) -> Vec<u64> { x.iter().map(|v| v.to_bits() as u64).collect() }
fn mat<const M: usize, const N: usize>(r: &mut Rng) -> Matrix<f64, M, N> { Matrix { data: std::array::from_fn(|_| arr(r)) } }
roundtrip!(m23, Matrix<f64, 2, 3>, |r: &mut Rng| mat::<2, 3>(r), |v: &Matrix<f64, 2, 3>| b8(v.data.as_flattened()), (3, 8));
roundtrip!(m44, Matrix<f64, 4, 4>, |r: &mut Rng| mat::<4, 4>(r), |v: &Matrix<f64, 4, 4>| b8(v.data.as_flattened()), (3, 8));
roundtrip!(m71, Matrix<f64, 7, 1>, |r: &mut Rng| mat::<7, 1>(r), |v: &Matrix<f64, 7, 1>| b8(v.data.as_flattened()), (3, 8));
roundtrip!(m1517, Matrix<f64, 15, 17>, |r: &mut Rng| mat::<15, 17>(r), |v: &Matrix<f64, 15, 17>| b8(v.data.as_flattened()), (3, 8));
roundtrip!(m35f, Matrix<f32, 3, 5>, |r: &mut Rng| Matrix { data: std::array::from_fn(|_| arr32(r)) }, |v: &Matrix<f32, 3, 5>| b4(v.data.as_flattened()), (3, 4));
roundtrip!(v5, Vector<f64, 5>, |r: &mut Rng| Vector::new(arr(r)), |v: &Vector<f64, 5>| b8(&v.data), (3, 8));
roundtrip!(v1, Vector<f64, 1>, |r: &mut Rng| Vector::new(arr(r)), |v: &Vector<f64, 1>| b8(&v.data), (3, 8));
roundtrip!(v17f, Vector<f32, 17>, |r: &mut Rng| Vector::new(arr32(r)), |v: &Vector<f32, 17>| b4(&v.data), (3, 4));
roundtrip!(cart, Cartesian<f64, A>, |r: &mut Rng| { let a = arr::<3>(r); Cartesian::new(a[0], a[1], a[2]) }, |v: &Cartesian<f64, A>| b8(&v.data.data), (3, 8));
roundtrip!(cartf, Cartesian<f32, A>, |r: &mut Rng| { let a = arr32::<3>(r); Cartesian::new(a[0], a[1], a[2]) }, |v: &Cartesian<f32, A>| b4(&v.data.data), (3, 4));
roundtrip!(quat, Quaternion<f64, A, A>, |r: &mut Rng| { let a = arr::<4>(r); Quaternion::new(a[0], a[1], a[2], a[3]) }, |v: &Quaternion<f64, A, A>| b8(&v.data.data), (3, 8));
roundtrip!(euler, Euler<f64, A, A>, |r: &mut Rng| { let a = arr::<3>(r); Euler::new(a[0], a[1], a[2]) }, |v: &Euler<f64, A, A>| b8(&v.data.data), (3, 8));
roundtrip!(dcm, DirectionCosineMatrix<f64, A, A>, |r: &mut Rng| DirectionCosineMatrix::from_matrix(mat::<3, 3>(r)), |v: &DirectionCosineMatrix<f64, A, A>| b8(v.as_matrix().data.as_flattened()), (3, 8));
roundtrip!(icrf, ICRF<f64>, |r: &mut Rng| ICRF { epoch: bitsy(r) }, |v: &ICRF<f64>| b8(&[v.epoch]), (3, 8));
roundtrip!(body, Body<f64>, |r: &mut Rng| { let a = arr::<6>(r); Body::new(Cartesian::new(a[0], a[1], a[2]), Cartesian::new(a[3], a[4], a[5])) }, |v: &Body<f64>| b8(&[v.mass_center.data.data, v.lever_arm.data.data].concat()), (3, 8));
/// a type with a text form only (its binary form is never asked for)
#[derive(serde::Serialize, serde::Deserialize)] #[serde(transparent)] struct Text<T>(T);
impl<T> bincode::Encode for Text<T> { fn encode<E: bincode::enc::Encoder>(&self, _: &mut E) -> Result<(), bincode::error::EncodeError> { unreachable!() } }
impl<T, C> bincode::Decode<C> for Text<T> { fn decode<X: bincode::de::Decoder<Context = C>>(_: &mut X) -> Result<Self, bincode::error::DecodeError> { unreachable!() } }
roundtrip!(asm, Text<Assembly<f64>>, |r: &mut Rng| { let a = arr::<6>(r); Text(Assembly::new(Cartesian::new(a[0], a[1], a[2]), Cartesian::new(a[3], a[4], a[5]))) }, |v: &Text<Assembly<f64>>| b8(&[v.0.mass_center.data.data, v.0.lever_arm.data.data].concat()), (2, 8));
roundtrip!(itrf, Text<ITRF<f64>>, |r: &mut Rng| Text(ITRF { epoch: bitsy(r) }), |v: &Text<ITRF<f64>>| b8(&[v.0.epoch]), (2, 8));
roundtrip!(ned, Text<NED<f32>>, |r: &mut Rng| Text(NED { origin: bitsy32(r) }), |v: &Text<NED<f32>>| b4(&[v.0.origin]), (2, 4));
roundtrip!(quatf, Quaternion<f32, A, A>, |r: &mut Rng| { let a = arr32::<4>(r); Quaternion::new(a[0], a[1], a[2], a[3]) }, |v: &Quaternion<f32, A, A>| b4(&v.data.data), (3, 4));
roundtrip!(dcmf, DirectionCosineMatrix<f32, A, A>, |r: &mut Rng| DirectionCosineMatrix::from_matrix(Matrix { data: std::array::from_fn(|_| arr32::<3>(r)) }), |v: &DirectionCosineMatrix<f32, A, A>| b4(v.as_matrix().data.as_flattened()), (3, 4));
fn strings(r: &mut Rng, c: &mut Case) {
    // borrowed elements: every string points into the buffer
    let v: Vec<String> = (0..6).map(|_| (0..r.below(9)).map(|_| *r.pick(&['a', 'é', '漢', '0'])).collect()).collect();
    for s in &v { c.mix(hash_str(s)); }
    let m: Matrix<&str, 2, 3> = Matrix { data: [[&v[0], &v[1], &v[2]], [&v[3], &v[4], &v[5]]] };
    let cfg = config::standard();
    let b = bincode::encode_to_vec(&m, cfg).unwrap();
    match guard(|| bincode::borrow_decode_from_slice::<Matrix<&str, 2, 3>, _>(&b, cfg).map(|(w, n)| (w.data.as_flattened().iter().map(|s| s.to_string()).collect::<Vec<_>>(), n)).map_err(|e| e.to_string())) {
        Ok(Ok((w, n))) => { c.ok(w == v && n == b.len(), "borrowed-strings", || format!("{v:?} {w:?}")); }
        e => c.fail("borrowed-refused", format!("{e:?} {v:?}")),
    }
    let mut x = b.clone(); mutate(r, &mut x);
    match guard(|| bincode::borrow_decode_from_slice::<Matrix<&str, 2, 3>, _>(&x, cfg).map(|(w, n)| w.data.as_flattened().iter().map(|s| s.len()).sum::<usize>() + 6 <= n + 6 && n <= x.len()).ok()) {
        Ok(v) => { c.ok(v.unwrap_or(true), "borrowed-mutated", || format!("{x:x?}")); }
        Err(e) => c.fail("panic", format!("{e} {x:x?}")),
    }
    // owned strings through both decoders, for the leak detector
    let o = Matrix::<String, 2, 3> { data: [[v[0].clone(), v[1].clone(), v[2].clone()], [v[3].clone(), v[4].clone(), v[5].clone()]] };
    let js = serde_json::to_string(&o).unwrap();
    let back = guard(|| serde_json::from_str::<Matrix<String, 2, 3>>(&js).map_err(|e| e.to_string()));
    c.ok(matches!(&back, Ok(Ok(w)) if w.data == o.data), "owned-strings", || format!("{js} {back:?}"));
    let mut x = js.into_bytes(); mutate(r, &mut x);
    if let Err(e) = guard(|| serde_json::from_slice::<Matrix<String, 2, 3>>(&x).is_ok()) { c.fail("panic", e); }
    c.ev("borrowed round trips");
}
fn main() {
    let mut x = Ctx::from_args("C13");
    x.family("elements", 20_000, 600_000, |r, c| match c.idx % 6 { 0 => elements::<2, 3>(r, c), 1 => elements::<1, 1>(r, c), 2 => elements::<3, 2>(r, c), 3 => elements::<4, 4>(r, c), 4 => elements::<1, 5>(r, c), _ => elements::<5, 1>(r, c) });
    x.family("ownership", 12_000, 300_000, |r, c| match c.idx % 4 { 0 => ownership::<1>(r, c), 1 => ownership::<3>(r, c), 2 => ownership::<6>(r, c), _ => ownership::<16>(r, c) });
    x.family("round-trip", 60_000, 2_000_000, |r, c| match c.idx % 20 { 0 => m23(r, c), 1 => m44(r, c), 2 => m71(r, c), 3 => if r.chance(0.1) { m1517(r, c) } else { v5(r, c) }, 4 => m35f(r, c), 5 => v5(r, c), 6 => v1(r, c), 7 => v17f(r, c), 8 => cart(r, c), 9 => cartf(r, c), 10 => quat(r, c), 11 => euler(r, c), 12 => dcm(r, c), 13 => icrf(r, c), 14 => asm(r, c), 15 => itrf(r, c), 16 => ned(r, c), 17 => quatf(r, c), 18 => dcmf(r, c), _ => body(r, c) });
    x.family("borrowed", 4_000, 100_000, strings);
    let k = if cfg!(miri) { 1 } else { 500 };
    for (e, n) in [("containers built", k), ("failed after some elements", k), ("refused iterators", k), ("ownership histories", k), ("binary round trips", k), ("text round trips", k), ("truncations refused", k), ("mutants refused", k), ("mutants decoded", k), ("borrowed round trips", k)] { x.require(e, n); }
    x.finish()
}
