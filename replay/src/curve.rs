//! C07-C11: points against a reference group law on affine coordinates.
use crate::fw::*;
use crate::gen::*;
use num::{BigUint, One, Zero};
use plonky::*;
use plonky::plonk_util::{halo_n, halo_n_mul};
use rand::Rng;

pub type Pt<C> = Option<(<C as Curve>::BaseField, <C as Curve>::BaseField)>;
pub trait Crv: Curve { const CN: &'static str; }
macro_rules! crv { ($($c:ident),*) => { $(impl Crv for $c { const CN: &'static str = stringify!($c); })* } }
crv!(Tweedledee, Tweedledum, Pallas, Vesta, Bls12377);
#[macro_export]
macro_rules! all_curves { ($f:ident, $($a:expr),*) => { $f::<plonky::Tweedledee>($($a),*); $f::<plonky::Tweedledum>($($a),*); $f::<plonky::Pallas>($($a),*); $f::<plonky::Vesta>($($a),*); $f::<plonky::Bls12377>($($a),*); } }
#[macro_export]
macro_rules! halo_curves { ($f:ident, $($a:expr),*) => { $f::<plonky::Tweedledee>($($a),*); $f::<plonky::Tweedledum>($($a),*); $f::<plonky::Pallas>($($a),*); $f::<plonky::Vesta>($($a),*); } }

// ---- reference
pub fn inv<F: Field>(x: F) -> F { x.multiplicative_inverse().expect("reference inverse of zero") }
pub fn on<C: Curve>(p: &Pt<C>) -> bool { match p { None => true, Some((x, y)) => *y * *y == *x * *x * *x + C::A * *x + C::B } }
pub fn radd<C: Curve>(a: Pt<C>, b: Pt<C>) -> Pt<C> {
    let (x1, y1) = match a { None => return b, Some(v) => v };
    let (x2, y2) = match b { None => return a, Some(v) => v };
    let l = if x1 == x2 {
        if (y1 + y2).is_zero() { return None; }
        let xx = x1 * x1;
        (xx + xx + xx + C::A) * inv(y1 + y1)
    } else { (y2 - y1) * inv(x2 - x1) };
    let x3 = l * l - x1 - x2;
    Some((x3, l * (x1 - x3) - y1))
}
pub fn rneg<C: Curve>(a: Pt<C>) -> Pt<C> { a.map(|(x, y)| (x, C::BaseField::ZERO - y)) }
pub fn rmul<C: Curve>(k: &BigUint, p: Pt<C>) -> Pt<C> {
    let mut r = None; let n = k.bits();
    for i in (0..n).rev() { r = radd::<C>(r, r); if (k >> i) & BigUint::one() == BigUint::one() { r = radd::<C>(r, p); } }
    r
}
pub fn aff_of<C: Curve>(p: &AffinePoint<C>) -> Pt<C> { if p.zero { None } else { Some((p.x, p.y)) } }
/// denotation of a projective point, computed here
pub fn proj_of<C: Curve>(p: &ProjectivePoint<C>) -> Option<Pt<C>> {
    if p.zero { return Some(None); }
    if p.z.is_zero() { return None; }
    let zi = inv(p.z); Some(Some((p.x * zi, p.y * zi)))
}
pub fn mk_a<C: Curve>(p: &Pt<C>) -> AffinePoint<C> { match p { None => AffinePoint::ZERO, Some((x, y)) => AffinePoint { x: *x, y: *y, zero: false } } }
pub fn mk_p<C: Crv>(r: &mut R, p: &Pt<C>) -> ProjectivePoint<C> {
    match p {
        None => if coin(r, 2) { ProjectivePoint::ZERO } else { ProjectivePoint { x: C::BaseField::ZERO, y: C::BaseField::ZERO, z: C::BaseField::ONE, zero: true } },
        Some((x, y)) => {
            let z = if coin(r, 3) { C::BaseField::ONE } else { rf::<C::BaseField>(r) };
            let z = if z.is_zero() { C::BaseField::TWO } else { z };
            ProjectivePoint { x: *x * z, y: *y * z, z, zero: false }
        }
    }
}
pub fn rf<F: Field>(r: &mut R) -> F {
    match r.gen_range(0, 6) { 0 => F::from_canonical_u64(r.gen_range(0, 4)), 1 => F::NEG_ONE - F::from_canonical_u64(r.gen_range(0, 3)), 2 => F::from_canonical_u64(r.gen::<u64>()), _ => F::rand_from_rng(r) }
}
pub fn gpt<C: Curve>() -> Pt<C> { aff_of(&C::GENERATOR_AFFINE) }
thread_local!(static CACHE: std::cell::RefCell<std::collections::HashMap<(&'static str, u64), Vec<u64>>> = Default::default());
pub fn rpoint<C: Crv>(r: &mut R) -> Pt<C> {
    let g = gpt::<C>();
    match r.gen_range(0, 8) {
        0 => None,
        1 => g,
        2 => rneg::<C>(g),
        3 => {
            // a point of order two, when there is one with a small abscissa
            for v in 0..3 { for s in 0..2 {
                let x = if s == 0 { C::BaseField::from_canonical_u64(v) } else { C::BaseField::ZERO - C::BaseField::from_canonical_u64(v) };
                if (x * x * x + C::A * x + C::B).is_zero() { return Some((x, C::BaseField::ZERO)); }
            } }
            g
        }
        4 => { // a point with a small abscissa, possibly outside the prime-order subgroup
            let mut x = C::BaseField::from_canonical_u64(r.gen_range(0, 50));
            for _ in 0..20 { if let Some(y) = (x * x * x + C::A * x + C::B).square_root() { return Some((x, y)); } x = x + C::BaseField::ONE; }
            g
        }
        _ => rmul::<C>(&BigUint::from(r.gen_range(0u64, 40)), g),
    }
}
pub fn rpair<C: Crv>(r: &mut R) -> (Pt<C>, Pt<C>) {
    let a = rpoint::<C>(r);
    let b = match r.gen_range(0, 4) { 0 => a, 1 => rneg::<C>(a), _ => rpoint::<C>(r) };
    (a, b)
}
fn same<C: Crv>(k: &str, got: &ProjectivePoint<C>, want: Pt<C>, inp: String) -> Result<(), (String, String)> {
    match proj_of(got) { Some(g) if g == want => Ok(()), _ => Err((format!("{}/{}", C::CN, k), format!("{}: got {:?}, want {:?}", inp, got, want))) }
}
fn samea<C: Crv>(k: &str, got: &AffinePoint<C>, want: Pt<C>, inp: String) -> Result<(), (String, String)> {
    if aff_of(got) == want { Ok(()) } else { Err((format!("{}/{}", C::CN, k), format!("{}: got {:?}, want {:?}", inp, got, want))) }
}

pub fn c07(v: &mut Vec<Case>) { all_curves!(c07c, v); }
fn c07c<C: Crv>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.group", C::CN), |r, _| {
        let (a, b) = rpair::<C>(r);
        let (pa, pb, aa, ab) = (mk_p::<C>(r, &a), mk_p::<C>(r, &b), mk_a::<C>(&a), mk_a::<C>(&b));
        let s = format!("{:?} and {:?}", pa, pb); note(s.clone());
        let w = radd::<C>(a, b);
        if !on::<C>(&w) { return fail(format!("{}/reference", C::CN), s); }
        same("P+P", &(pa + pb), w, s.clone())?; same("P+A", &(pa + ab), w, s.clone())?; same("A+A", &(aa + ab), w, s.clone())?;
        let d = radd::<C>(a, a);
        same("Pdouble", &pa.double(), d, s.clone())?; samea("Adouble", &aa.double(), d, s.clone())?;
        same("Pneg", &-pa, rneg::<C>(a), s.clone())?; same("Pneg2", &pa.neg(), rneg::<C>(a), s.clone())?; samea("Aneg", &-aa, rneg::<C>(a), s.clone())?;
        let sl = ProjectivePoint::add_slices(&[pa, pb], &[pb, pb]);
        same("add_slices", &sl[0], w, s.clone())?; same("add_slices", &sl[1], radd::<C>(b, b), s)?;
        Ok(true)
    });
}

pub fn c08(v: &mut Vec<Case>) { all_curves!(c08c, v); }
fn c08c<C: Crv>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.repr", C::CN), |r, _| {
        let n = r.gen_range(0, 9);
        let pts: Vec<Pt<C>> = (0..n).map(|_| rpoint::<C>(r)).collect();
        let pp: Vec<_> = pts.iter().map(|p| mk_p::<C>(r, p)).collect(); let aa: Vec<_> = pts.iter().map(mk_a::<C>).collect();
        let s = format!("{:?}", pp); note(s.clone());
        let ba = ProjectivePoint::batch_to_affine(&pp); let bp = AffinePoint::batch_to_projective(&aa);
        if ba.len() != n || bp.len() != n { return fail(format!("{}/batch_len", C::CN), s); }
        for i in 0..n {
            samea("batch_to_affine", &ba[i], pts[i], s.clone())?; same("batch_to_projective", &bp[i], pts[i], s.clone())?;
            samea("to_affine", &pp[i].to_affine(), pts[i], s.clone())?; same("to_projective", &aa[i].to_projective(), pts[i], s.clone())?;
            ck!(format!("{}/valid", C::CN), pp[i].is_valid() && aa[i].is_valid(), "{:?}", pp[i]);
        }
        let (a, b) = rpair::<C>(r); let (pa, pb) = (mk_p::<C>(r, &a), mk_p::<C>(r, &b));
        ck!(format!("{}/eqP", C::CN), (pa == pb) == (a == b), "{:?} {:?}", pa, pb);
        ck!(format!("{}/eqA", C::CN), (mk_a::<C>(&a) == mk_a::<C>(&b)) == (a == b), "{:?} {:?}", a, b);
        let (x, y, z) = (rf::<C::BaseField>(r), rf::<C::BaseField>(r), rf::<C::BaseField>(r));
        let (x, y) = if coin(r, 3) { match a { Some(q) => q, None => (x, y) } } else { (x, y) };
        let av = on::<C>(&Some((x, y)));
        note(format!("off-curve {:?} {:?} {:?}", x, y, z));
        ck!(format!("{}/validA", C::CN), AffinePoint::<C> { x, y, zero: false }.is_valid() == av, "{:?} {:?}", x, y);
        let pv = !z.is_zero() && on::<C>(&Some((x * inv(z), y * inv(z))));
        ck!(format!("{}/validP", C::CN), ProjectivePoint::<C> { x, y, z, zero: false }.is_valid() == pv, "{:?} {:?} {:?}", x, y, z);
        Ok(true)
    });
}

pub fn c09(v: &mut Vec<Case>) { all_curves!(c09c, v); }
fn c09c<C: Crv>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.sums", C::CN), |r, it| {
        let k = r.gen_range(1, 4);
        let mut ls: Vec<Vec<Pt<C>>> = vec![];
        for _ in 0..k {
            let n = if it % 4 == 3 { r.gen_range(60, 160) } else { r.gen_range(0, 12) };
            let mut l: Vec<Pt<C>> = vec![];
            let base: Vec<Pt<C>> = (0..5).map(|_| rpoint::<C>(r)).collect();
            while l.len() < n {
                let p = match r.gen_range(0, 6) { 0 if !l.is_empty() => l[l.len() - 1], 1 if !l.is_empty() => rneg::<C>(l[l.len() - 1]), _ => base[r.gen_range(0, 5)] };
                l.push(p);
            }
            ls.push(l);
        }
        let want: Vec<Pt<C>> = ls.iter().map(|l| l.iter().fold(None, |a, b| radd::<C>(a, *b))).collect();
        let al: Vec<Vec<AffinePoint<C>>> = ls.iter().map(|l| l.iter().map(mk_a::<C>).collect()).collect();
        let s = format!("{:?}", ls.iter().map(|l| l.iter().map(|p| p.map(|q| format!("{}", q.0))).collect::<Vec<_>>()).collect::<Vec<_>>()); note(s.clone());
        for (nm, f) in vec![("multi_best", affine_multisummation_best::<C> as fn(Vec<Vec<AffinePoint<C>>>) -> Vec<ProjectivePoint<C>>), ("multi_pairwise", affine_multisummation_pairwise::<C>), ("multi_batch", affine_multisummation_batch_inversion::<C>)] {
            let o = f(al.clone()); if o.len() != k { return fail(format!("{}/{}/len", C::CN, nm), s); }
            for i in 0..k { same(nm, &o[i], want[i], s.clone())?; }
        }
        for i in 0..k {
            same("best", &affine_summation_best(al[i].clone()), want[i], s.clone())?;
            same("pairwise", &affine_summation_pairwise(al[i].clone()), want[i], s.clone())?;
            same("batch", &affine_summation_batch_inversion(al[i].clone()), want[i], s.clone())?;
            let z: ProjectivePoint<C> = al[i].iter().copied().sum(); same("sumA", &z, want[i], s.clone())?;
            let pp: Vec<ProjectivePoint<C>> = ls[i].iter().map(|p| mk_p::<C>(r, p)).collect();
            let z: ProjectivePoint<C> = pp.into_iter().sum(); same("sumP", &z, want[i], s.clone())?;
        }
        Ok(true)
    });
}

pub fn rscalar<F: Fld>(r: &mut R) -> (F, BigUint) { let x = elem::<F>(r); let i = val(&x); (x, i) }
pub fn c10(v: &mut Vec<Case>) {
    c10c::<Tweedledee>(v); c10c::<Tweedledum>(v); c10c::<Pallas>(v); c10c::<Vesta>(v); c10c::<Bls12377>(v);
}
fn c10c<C: Crv>(v: &mut Vec<Case>) where C::ScalarField: Fld {
    rnd(v, &format!("{}.mul", C::CN), |r, _| {
        let (s, k) = rscalar::<C::ScalarField>(r); let p = rpoint::<C>(r); let pp = mk_p::<C>(r, &p);
        note(format!("{:x} * {:?}", k, p));
        let w = rmul::<C>(&k, p);
        same("mul", &(C::convert(s) * pp), w, format!("{:x} * {:?}", k, p))?;
        let pre = pp.mul_precompute();
        same("mul_with_precomputation", &pp.mul_with_precomputation(s, pre.clone()), w, format!("{:x} * {:?}", k, p))?;
        Ok(true)
    });
    rnd(v, &format!("{}.msm", C::CN), |r, _| {
        let n = r.gen_range(0, 4); let w = r.gen_range(1, 9);
        let ps: Vec<Pt<C>> = (0..n).map(|_| rpoint::<C>(r)).collect();
        let ss: Vec<(C::ScalarField, BigUint)> = (0..n).map(|_| if coin(r, 4) { let x = r.gen_range(0u64, 600); (C::ScalarField::from_canonical_u64(x), BigUint::from(x)) } else { rscalar(r) }).collect();
        let s = format!("w={} scalars {:?} points {:?}", w, ss.iter().map(|x| format!("{:x}", x.1)).collect::<Vec<_>>(), ps); note(s.clone());
        let want = (0..n).fold(None, |a, i| radd::<C>(a, rmul::<C>(&ss[i].1, ps[i])));
        let pp: Vec<_> = ps.iter().map(|p| mk_p::<C>(r, p)).collect(); let sc: Vec<_> = ss.iter().map(|x| x.0).collect();
        let pre = msm_precompute(&pp, w);
        same("msm_execute", &msm_execute(&pre, &sc), want, s.clone())?;
        same("msm_execute_parallel", &msm_execute_parallel(&pre, &sc), want, s.clone())?;
        same("msm_parallel", &msm_parallel(&sc, &pp, w), want, s)?;
        Ok(true)
    });
}

pub fn c11(v: &mut Vec<Case>) { c11c::<Tweedledee>(v); c11c::<Tweedledum>(v); c11c::<Pallas>(v); c11c::<Vesta>(v); }
fn c11c<C: Crv + HaloCurve>(v: &mut Vec<Case>) where C::ScalarField: Fld {
    rnd(v, &format!("{}.halo", C::CN), |r, i| {
        let n = if i < 9 { 4 } else { 2 * r.gen_range(0, 70) };
        let bits: Vec<bool> = (0..n).map(|j| if i < 16 && n == 4 { i >> j & 1 == 1 } else { coin(r, 2) }).collect();
        let p = rpoint::<C>(r); note(format!("{:?} {:?}", bits, p));
        let k = val(&halo_n::<C>(&bits));
        samea("halo_n_mul", &halo_n_mul::<C>(&bits, mk_a::<C>(&p)), rmul::<C>(&k, p), format!("{:?} {:?}", bits, p))?;
        // the encoding itself: Algorithm 2 from (0, 0)
        let q = C::ScalarField::p(); let z = val(&C::ZETA_SCALAR); let (mut a, mut b) = (BigUint::zero(), BigUint::zero());
        for c in bits.chunks(2) {
            let s = if c[0] { BigUint::one() } else { &q - 1u32 };
            a = a * 2u32 % &q; b = b * 2u32 % &q;
            if c[1] { a = (a + s) % &q } else { b = (b + s) % &q }
        }
        ck!(format!("{}/halo_n", C::CN), k == (a * z + b) % &q, "{:?}", bits);
        samea("endomorphism", &mk_a::<C>(&p).endomorphism(), rmul::<C>(&val(&C::ZETA_SCALAR), p), format!("{:?}", p))?;
        Ok(true)
    });
}
