//! C24: prefixed units against exact powers of ten.
#![feature(f128)]
use aether_monitors::fw::*;
use aether_monitors::num::*;
use aether_units::si::si_base::*;
use aether_units::si::si_prefix::*;
use aether_units::si::*;
use aether_units::Quantity;

type Q = f128;
struct U<T> { name: &'static str, exp: i32, to_base: fn(T) -> T, from_base: fn(T) -> T, made: fn(T) -> T }
macro_rules! fam { ($f:ident, $base:ident, $to_base:ident, $off:expr, [$(($make:ident, $Unit:ident, $to:ident, $e:expr)),* $(,)?]) => {
    fn $f<T: Num>() -> Vec<U<T>> { vec![$(U { name: stringify!($Unit), exp: $e + $off, to_base: |x| x.$make().$to_base().raw(), from_base: |x| Quantity::<$base, T>::new(x).$to().raw(), made: |x| { let q: Quantity<$Unit, T> = x.$make(); q.raw() } }),*] }
} }
fam!(lengths, Meter, to_meter, 0, [(yoctometer, Yoctometer, to_yoctometer, -24), (zeptometer, Zeptometer, to_zeptometer, -21), (attometer, Attometer, to_attometer, -18), (femtometer, Femtometer, to_femtometer, -15), (picometer, Picometer, to_picometer, -12), (nanometer, Nanometer, to_nanometer, -9), (micrometer, Micrometer, to_micrometer, -6), (millimeter, Millimeter, to_millimeter, -3), (centimeter, Centimeter, to_centimeter, -2), (decimeter, Decimeter, to_decimeter, -1), (decameter, Decameter, to_decameter, 1), (hectometer, Hectometer, to_hectometer, 2), (kilometer, Kilometer, to_kilometer, 3), (megameter, Megameter, to_megameter, 6), (gigameter, Gigameter, to_gigameter, 9), (terameter, Terameter, to_terameter, 12), (petameter, Petameter, to_petameter, 15), (exameter, Exameter, to_exameter, 18), (zettameter, Zettameter, to_zettameter, 21), (yottameter, Yottameter, to_yottameter, 24)]);
fam!(times, Second, to_second, 0, [(yoctosecond, Yoctosecond, to_yoctosecond, -24), (zeptosecond, Zeptosecond, to_zeptosecond, -21), (attosecond, Attosecond, to_attosecond, -18), (femtosecond, Femtosecond, to_femtosecond, -15), (picosecond, Picosecond, to_picosecond, -12), (nanosecond, Nanosecond, to_nanosecond, -9), (microsecond, Microsecond, to_microsecond, -6), (millisecond, Millisecond, to_millisecond, -3), (centisecond, Centisecond, to_centisecond, -2), (decisecond, Decisecond, to_decisecond, -1), (decasecond, Decasecond, to_decasecond, 1), (hectosecond, Hectosecond, to_hectosecond, 2), (kilosecond, Kilosecond, to_kilosecond, 3), (megasecond, Megasecond, to_megasecond, 6), (gigasecond, Gigasecond, to_gigasecond, 9), (terasecond, Terasecond, to_terasecond, 12), (petasecond, Petasecond, to_petasecond, 15), (exasecond, Exasecond, to_exasecond, 18), (zettasecond, Zettasecond, to_zettasecond, 21), (yottasecond, Yottasecond, to_yottasecond, 24)]);
fam!(masses, Kilogram, to_kilogram, -3, [(yoctogram, Yoctogram, to_yoctogram, -24), (zeptogram, Zeptogram, to_zeptogram, -21), (attogram, Attogram, to_attogram, -18), (femtogram, Femtogram, to_femtogram, -15), (picogram, Picogram, to_picogram, -12), (nanogram, Nanogram, to_nanogram, -9), (microgram, Microgram, to_microgram, -6), (milligram, Milligram, to_milligram, -3), (centigram, Centigram, to_centigram, -2), (decigram, Decigram, to_decigram, -1), (decagram, Decagram, to_decagram, 1), (hectogram, Hectogram, to_hectogram, 2), (megagram, Megagram, to_megagram, 6), (gigagram, Gigagram, to_gigagram, 9), (teragram, Teragram, to_teragram, 12), (petagram, Petagram, to_petagram, 15), (exagram, Exagram, to_exagram, 18), (zettagram, Zettagram, to_zettagram, 21), (yottagram, Yottagram, to_yottagram, 24)]);
fn p10(e: i32) -> Q { let mut v: Q = 1.0; for _ in 0..e.abs() { v *= 10.0 } if e < 0 { 1.0 / v } else { v } }
fn unit<T: Num>(r: &mut Rng, c: &mut Case) {
    let t = match r.below(3) { 0 => lengths::<T>(), 1 => times(), _ => masses() };
    let (a, b) = (&t[r.below(t.len())], &t[r.below(t.len())]);
    let x: T = T::of(match r.below(6) { 0 => 1.0, 1 => r.int(-1000, 1000) as f64, 2 => r.sign() * 10f64.powi(r.int(-8, 8) as i32), _ => r.sign() * r.logu(1e-7, 1e7) });
    c.mixf(x.f()); c.mix(hash_str(a.name)); c.mix(hash_str(b.name)); c.mix(T::U.to_bits());
    let what = || format!("{} {x} {} (and {})", T::NAME, a.name, b.name);
    c.ok((a.made)(x).bits() == x.bits(), "constructor", what);
    let range = |v: Q| { let v = v.abs() as f64; v == 0.0 || v > T::TINY * 16.0 && v < 1.0 / (T::TINY * 16.0) };
    let base = x.q() * p10(a.exp);
    c.close("to-base", (a.to_base)(x).f(), base as f64, 4.0 * T::U * (base as f64).abs(), what);
    let back = x.q() / p10(a.exp);
    if range(back) { c.close("from-base", (a.from_base)(x).f(), back as f64, 4.0 * T::U * (back as f64).abs(), what); }
    c.close("round-trip", (a.from_base)((a.to_base)(x)).f(), x.f(), 6.0 * T::U * x.f().abs(), what);
    let w = x.q() * p10(a.exp) / p10(b.exp);
    if range(w) { c.close("between-prefixes", (b.from_base)((a.to_base)(x)).f(), w as f64, 8.0 * T::U * (w as f64).abs(), what); c.ev("prefix pairs"); }
    c.ev(match a.exp.abs() { 0..=9 => "everyday prefixes", _ => "extreme prefixes" });
}
fn any<T: Num>(r: &mut Rng) -> T { T::of(match r.below(12) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => -0.0, 3 => 0.0, 4 => 1e-320, 5 => f64::MAX, 6 => r.int(-5, 5) as f64, _ => r.sign() * r.logu(1e-30, 1e30) }) }
fn arith<T: Num>(r: &mut Rng, c: &mut Case) {
    let (x, y) = (any::<T>(r), any::<T>(r));
    c.mix(x.bits()); c.mix(y.bits());
    let same = |a: T, b: T| a.bits() == b.bits() || a.nan() && b.nan();
    let (p, q) = (Quantity::<Meter, T>::new(x), Quantity::<Meter, T>::from(y));
    let got = [(p + q).raw(), (p - q).raw(), (p * y).raw(), (p / y).raw(), (-p).raw(), p.raw(), q.raw()];
    let want = [x + y, x - y, x * y, x / y, -x, x, y];
    for i in 0..7 { c.ok(same(got[i], want[i]), "arithmetic", || format!("operation {i} on {x:?} and {y:?}: {:?}", got[i])); }
    c.ok(p == p || x.nan(), "equality", || format!("{x:?}"));
    c.ok((p == q) == (x == y), "equality", || format!("{x:?} {y:?}"));
    let made = [x.m().raw(), x.kg().raw(), x.s().raw(), x.A().raw(), x.K().raw(), x.mol().raw(), x.cd().raw(), x.Hz().raw(), x.N().raw(), x.Pa().raw(), x.J().raw(), x.W().raw(), x.rad().raw(), x.m_per_s().raw(), x.m_per_s2().raw(), x.rad_per_s().raw(), x.rad_per_s2().raw()];
    for (i, v) in made.iter().enumerate() { c.ok(same(*v, x), "constructor", || format!("constructor {i} of {x:?}: {v:?}")); }
    c.ev("operations");
}
/// the published factors
fn factors(_: &mut Rng, c: &mut Case) {
    for (n, v, e) in [("YOCTO", YOCTO, -24), ("ZEPTO", ZEPTO, -21), ("ATTO", ATTO, -18), ("FEMTO", FEMTO, -15), ("PICO", PICO, -12), ("NANO", NANO, -9), ("MICRO", MICRO, -6), ("MILLI", MILLI, -3), ("CENTI", CENTI, -2), ("DECI", DECI, -1), ("DECA", DECA, 1), ("HECTO", HECTO, 2), ("KILO", KILO, 3), ("MEGA", MEGA, 6), ("GIGA", GIGA, 9), ("TERA", TERA, 12), ("PETA", PETA, 15), ("EXA", EXA, 18), ("ZETTA", ZETTA, 21), ("YOTTA", YOTTA, 24)] {
        c.mix(hash_str(n)); c.close("factor", v as f64, p10(e) as f64, f32::EPSILON as f64 * (p10(e) as f64), || n.to_string());
    }
}
fn main() {
    let mut ctx = Ctx::from_args("C24");
    ctx.family("prefixes", 200_000, 3_000_000, |r, c| if r.chance(0.6) { unit::<f64>(r, c) } else { unit::<f32>(r, c) });
    for e in ["prefix pairs", "everyday prefixes", "extreme prefixes"] { ctx.require(e, 10_000) }
    ctx.family("arithmetic", 200_000, 2_000_000, |r, c| if r.chance(0.5) { arith::<f64>(r, c) } else { arith::<f32>(r, c) });
    ctx.all("factors", 1, factors);
    ctx.finish();
}
