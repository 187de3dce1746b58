//! Polynomials, transforms, sponges, transcripts.
use crate::fw::*;
use crate::gen::*;
use num::{BigUint, Zero};
const NUM_WIRES: usize = 9; const NUM_ROUTED_WIRES: usize = 6;
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util as pu;
use plonky::*;
use rand::Rng;

macro_rules! some_fields { ($f:ident, $($a:expr),*) => { $f::<TweedledeeBase>($($a),*); $f::<PallasBase>($($a),*); $f::<Bls12377Scalar>($($a),*); }; }

/// coefficient: often zero or small
fn co<F: Fld>(r: &mut R) -> F { match r.gen_range(0, 5) { 0 | 1 => F::ZERO, 2 => F::from_canonical_u64(r.gen_range(0, 3)), 3 => F::NEG_ONE, _ => elem(r) } }
fn cs<F: Fld>(r: &mut R, n: usize) -> Vec<F> { let d = coin(r, 2); (0..n).map(|_| if d { elem(r) } else { co(r) }).collect() }
fn ev<F: Field>(c: &[F], x: F) -> F { let mut s = F::ZERO; let mut p = F::ONE; for &a in c { s = s + a * p; p = p * x; } s }
fn trm<F: Field>(c: &[F]) -> Vec<F> { let mut v = c.to_vec(); while v.last().map_or(false, |x| x.is_zero()) { v.pop(); } v }
fn same<F: Field>(a: &[F], b: &[F]) -> bool { trm(a) == trm(b) }
fn mulp<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() { return vec![]; }
    let mut v = vec![F::ZERO; a.len() + b.len() - 1];
    for i in 0..a.len() { for j in 0..b.len() { v[i + j] = v[i + j] + a[i] * b[j]; } }
    v
}
fn addp<F: Field>(a: &[F], b: &[F]) -> Vec<F> { (0..a.len().max(b.len())).map(|i| *a.get(i).unwrap_or(&F::ZERO) + *b.get(i).unwrap_or(&F::ZERO)).collect() }

pub fn c12(v: &mut Vec<Case>) { all_fields!(c12f, v); }
fn c12f<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.fft", F::NAME), |r, i| {
        let k = if i < 8 { i } else { r.gen_range(0, 10) };
        let n = 1usize << k;
        let c: Vec<F> = cs(r, n);
        let inp = format!("size {} coefficients {:?}", n, if n <= 16 { format!("{:?}", c) } else { String::new() }); note(inp.clone());
        let w = F::primitive_root_of_unity(k);
        let pre = fft_precompute::<F>(n);
        ck!(format!("{}/fft_size", F::NAME), pre.size() == n, "{}", inp);
        let p = fft_with_precomputation_power_of_2(&c, &pre);
        ck!(format!("{}/fft_len", F::NAME), p.len() == n, "{}", inp);
        ck!(format!("{}/fft_forms", F::NAME), p == fft(&c) && p == fft_with_precomputation(&c, &pre), "{}", inp);
        for t in 0..n.min(24) {
            let j = if n <= 24 { t } else { r.gen_range(0, n) };
            ck!(format!("{}/fft_eval", F::NAME), p[j] == ev(&c, w.exp(F::from_canonical_usize(j))), "{}: value {} is not the evaluation at w^{}", inp, j, j);
        }
        ck!(format!("{}/ifft_fft", F::NAME), ifft_with_precomputation_power_of_2(&p, &pre) == c, "{}", inp);
        ck!(format!("{}/fft_ifft", F::NAME), fft(&ifft_with_precomputation_power_of_2(&c, &pre)) == c, "{}", inp);
        Ok(true)
    });
    rnd(v, &format!("{}.padded", F::NAME), |r, _| {
        let m: usize = r.gen_range(1, 200); let n = m.next_power_of_two();
        let c: Vec<F> = cs(r, m); note(format!("length {}", m));
        let w = F::primitive_root_of_unity(n.trailing_zeros() as usize);
        let p = fft(&c);
        ck!(format!("{}/fft_pad_len", F::NAME), p.len() == n, "length {}", m);
        for _ in 0..8 { let j = r.gen_range(0, n); ck!(format!("{}/fft_pad", F::NAME), p[j] == ev(&c, w.exp(F::from_canonical_usize(j))), "length {} value {}", m, j); }
        // shorter polynomial on a larger domain, and back
        let k: usize = r.gen_range(0, 3); let pre = fft_precompute::<F>(n << k); let wk = F::primitive_root_of_unity(n.trailing_zeros() as usize + k);
        let q = Polynomial::from(c.clone()).eval_domain(&pre);
        ck!(format!("{}/eval_domain", F::NAME), q.len() == n << k && { let j = r.gen_range(0, n << k); q[j] == ev(&c, wk.exp(F::from_canonical_usize(j))) }, "length {} domain {}", m, n << k);
        ck!(format!("{}/from_evaluations", F::NAME), same(Polynomial::from_evaluations(&q, &pre).coeffs(), &c), "length {} domain {}", m, n << k);
        Ok(true)
    });
}

pub fn c13(v: &mut Vec<Case>) { some_fields!(c13f, v); }
fn c13f<F: Fld>(v: &mut Vec<Case>) {
    let nm = |s: &str| format!("{}.{}", F::NAME, s);
    // lengths and zero patterns, exhaustively at first
    fn pair<F: Fld>(r: &mut R, i: usize) -> (Vec<F>, Vec<F>) {
        if i < 1024 {
            let (la, lb) = (i % 6, i / 6 % 5); let (ma, mb) = (r.gen_range(0, 64), r.gen_range(0, 32));
            ((0..la).map(|k| if ma >> k & 1 == 0 { F::ZERO } else { co_nz(r) }).collect(), (0..lb).map(|k| if mb >> k & 1 == 0 { F::ZERO } else { co_nz(r) }).collect())
        } else { let (la, lb) = (r.gen_range(0, 70), r.gen_range(0, 40)); (cs(r, la), cs(r, lb)) }
    }
    fn co_nz<F: Fld>(r: &mut R) -> F { match r.gen_range(0, 3) { 0 => F::ONE, 1 => F::NEG_ONE, _ => { let x = elem::<F>(r); if x.is_zero() { F::TWO } else { x } } } }
    rnd(v, &nm("ring"), |r, i| {
        let (a, b) = pair::<F>(r, i); let inp = format!("a={:?} b={:?}", a, b); note(inp.clone());
        let (p, q) = (Polynomial::from(a.clone()), Polynomial::from_coeffs(&b)); let x = if coin(r, 4) { F::ZERO } else { elem::<F>(r) };
        ck!(format!("{}/add", F::NAME), same(p.add(&q).coeffs(), &addp(&a, &b)), "{}", inp);
        ck!(format!("{}/mul", F::NAME), same(p.mul(&q).coeffs(), &mulp(&a, &b)), "{}", inp);
        ck!(format!("{}/eval", F::NAME), p.eval(x) == ev(&a, x), "{} x={:?}", inp, x);
        ck!(format!("{}/eval_poly", F::NAME), pu::eval_poly(&a, x) == ev(&a, x), "{} x={:?}", inp, x);
        ck!(format!("{}/eval_from_power", F::NAME), p.eval_from_power(&pu::powers(x, a.len())) == ev(&a, x), "{} x={:?}", inp, x);
        ck!(format!("{}/eq", F::NAME), (p == q) == same(&a, &b) && p == Polynomial::from(trm(&a)) && (p == p.add(&Polynomial::from(b.clone()))) == trm(&b).is_empty(), "{}", inp);
        ck!(format!("{}/is_zero", F::NAME), p.is_zero() == trm(&a).is_empty() && p.len() == a.len() && p.is_empty() == a.is_empty() && p.coeffs() == &a[..], "{}", inp);
        ck!(format!("{}/lead", F::NAME), p.lead() == trm(&a).last().cloned().unwrap_or(F::ZERO), "{}", inp);
        if !p.is_zero() { ck!(format!("{}/degree", F::NAME), p.degree() == trm(&a).len() - 1, "{}", inp); }
        let mut t = p.clone(); t.trim();
        ck!(format!("{}/trim", F::NAME), t.coeffs() == &trm(&a)[..], "{}", inp);
        let l = trm(&a).len() + r.gen_range(0, 4); let u = p.padded(l);
        ck!(format!("{}/pad", F::NAME), u.len() == l && same(u.coeffs(), &a), "{} pad {}", inp, l);
        ck!(format!("{}/zero", F::NAME), Polynomial::<F>::zero(l).is_zero() && Polynomial::<F>::zero(l).len() == l && Polynomial::<F>::empty().is_empty(), "{}", l);
        Ok(true)
    });
    fn division<F: Fld>(which: &str, a: &[F], b: &[F], q: &Polynomial<F>, rem: &Polynomial<F>) -> Out {
        let inp = format!("a={:?} b={:?}", a, b);
        let s = addp(&mulp(b, q.coeffs()), rem.coeffs());
        ck!(format!("{}/{}", F::NAME, which), same(&s, a), "{}: b*q+r is not a; q={:?} r={:?}", inp, q.coeffs(), rem.coeffs());
        ck!(format!("{}/{}_degree", F::NAME, which), trm(rem.coeffs()).len() < trm(b).len(), "{}: remainder {:?} is not smaller than the divisor", inp, rem.coeffs());
        Ok(true)
    }
    for &w in &["polynomial_long_division", "polynomial_division"] {
        rnd(v, &nm(w), move |r, i| {
            let (mut a, b) = pair::<F>(r, i);
            if trm(&b).is_empty() { return Ok(false); }
            if coin(r, 3) { a = mulp(&a, &b); }
            if coin(r, 4) { let mut z = vec![F::ZERO; r.gen_range(0, 4)]; z.extend(a); a = z; }
            note(format!("a={:?} b={:?}", a, b));
            let (p, d) = (Polynomial::from(a.clone()), Polynomial::from(b.clone()));
            let (q, m) = if w == "polynomial_division" { p.polynomial_division(&d) } else { p.polynomial_long_division(&d) };
            division(w, &a, &b, &q, &m)
        });
    }
}

pub fn c14(v: &mut Vec<Case>) { some_fields!(c14f, v); 
    lag::<TweedledeeBase>(v);
}
fn lag<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, "plookup.eval_l_i", |r, i| {
        let k = i % 6; let n = 1usize << k; let j = r.gen_range(0, n); let w = F::primitive_root_of_unity(k);
        let x = match r.gen_range(0, 3) { 0 => w.exp_usize(j), 1 => w.exp_usize(r.gen_range(0, n)), _ => elem::<F>(r) };
        let inp = format!("n={} i={} x={:?}", n, j, x); note(inp.clone());
        let mut e = vec![F::ZERO; n]; e[j] = F::ONE;
        let l = ifft_with_precomputation_power_of_2(&e, &fft_precompute(n));
        ck!("eval_l_i", plookup::plookup::eval_l_i(n, j, w, x) == ev(&l, x), "{}", inp);
        Ok(true)
    });
}
fn c14f<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.divide_by_z_h", F::NAME), |r, i| {
        let k = if i < 40 { i % 5 } else { r.gen_range(0, 8) }; let n = 1usize << k;
        let l = if i < 40 { 1 + i / 5 } else { r.gen_range(1, 100) };
        let q: Vec<F> = cs(r, l);
        let mut z = vec![F::ZERO; n + 1]; z[n] = F::ONE; z[0] = F::NEG_ONE;
        let mut a = mulp(&q, &z); for _ in 0..r.gen_range(0, 3) { a.push(F::ZERO); }
        let inp = format!("n={} quotient {:?}", n, q); note(inp.clone());
        ck!(format!("{}/divide_by_z_h", F::NAME), same(Polynomial::from(a).divide_by_z_h(n).coeffs(), &q), "{}", inp);
        Ok(true)
    });
    rnd(v, &format!("{}.powers", F::NAME), |r, i| {
        let n = if i < 6 { i } else { r.gen_range(0, 20) }; let x = co::<F>(r); let t: Vec<F> = cs(r, n);
        let inp = format!("x={:?} n={} terms {:?}", x, n, t); note(inp.clone());
        let p = pu::powers(x, n);
        ck!(format!("{}/powers", F::NAME), p.len() == n && (0..n).all(|k| p[k] == ev(&{ let mut e = vec![F::ZERO; k + 1]; e[k] = F::ONE; e }, x)), "{}", inp);
        ck!(format!("{}/reduce_with_powers", F::NAME), pu::reduce_with_powers(&t, x) == ev(&t, x), "{}", inp);
        Ok(true)
    });
    rnd(v, &format!("{}.lagrange", F::NAME), |r, i| {
        let k = i % 7; let n = 1usize << k; let w = F::primitive_root_of_unity(k);
        let x = match r.gen_range(0, 4) { 0 => F::ONE, 1 => w.exp_usize(r.gen_range(0, n)), _ => elem::<F>(r) };
        let inp = format!("n={} x={:?}", n, x); note(inp.clone());
        let mut e = vec![F::ZERO; n]; e[0] = F::ONE;
        let l = ifft_with_precomputation_power_of_2(&e, &fft_precompute(n));
        let mut z = vec![F::ZERO; n + 1]; z[n] = F::ONE; z[0] = F::NEG_ONE;
        ck!(format!("{}/eval_l_1", F::NAME), verif_hooks::eval_l_1(n, x) == ev(&l, x), "{}", inp);
        ck!(format!("{}/eval_zero_poly", F::NAME), verif_hooks::eval_zero_poly(n, x) == ev(&z, x), "{}", inp);
        let np = r.gen_range(1, 5); let d = r.gen_range(1, 6); let al = co::<F>(r);
        let ps: Vec<Vec<F>> = (0..np).map(|_| cs(r, d)).collect();
        let s = verif_hooks::scale_polynomials(ps.iter().cloned().map(Polynomial::from).collect(), al, d);
        ck!(format!("{}/scale_polynomials", F::NAME), (0..d).all(|t| s[t] == ev(&ps.iter().map(|p| p[t]).collect::<Vec<_>>(), al)) && s.len() == d, "alpha={:?} {:?}", al, ps);
        Ok(true)
    });
}

pub fn c34(v: &mut Vec<Case>) { some_fields!(c34f, v); }
fn c34f<F: Fld>(v: &mut Vec<Case>) {
    case(v, &format!("{}.get_subgroup_shift", F::NAME), 1, |_, _| {
        let ks: Vec<F> = (0..NUM_ROUTED_WIRES).map(verif_hooks::get_subgroup_shift::<F>).collect();
        for i in 0..NUM_ROUTED_WIRES { ck!(format!("{}/get_subgroup_shift", F::NAME), ks[i] == verif_hooks::get_subgroup_shift::<F>(i) && !ks[i].is_zero(), "shift {}", i);
            for j in 0..i { let mut q = ks[i] * ks[j].multiplicative_inverse().unwrap(); for _ in 0..F::TWO_ADICITY { q = q * q; }
                ck!(format!("{}/get_subgroup_shift", F::NAME), q != F::ONE, "shifts {} and {} lie in one coset of the two-power subgroup", i, j); } }
        Ok(true)
    });
    rnd(v, &format!("{}.permutation_polynomial", F::NAME), |r, i| {
        let k = if i < 6 { i } else { r.gen_range(0, 7) }; let n = 1usize << k;
        let w = F::primitive_root_of_unity(k);
        let sub = F::cyclic_subgroup_known_order(w, n);
        let (beta, gamma) = (elem::<F>(r), elem::<F>(r));
        let vals: Vec<Vec<F>> = (0..n).map(|_| (0..NUM_WIRES).map(|_| co(r)).collect()).collect();
        // a random permutation of the routed wires
        let mut perm: Vec<usize> = (0..NUM_ROUTED_WIRES * n).collect();
        for a in (1..perm.len()).rev() { let b = r.gen_range(0, a + 1); perm.swap(a, b); }
        let inp = format!("degree {} beta={:?} gamma={:?} values {:?}", n, beta, gamma, if n <= 2 { format!("{:?} permutation {:?}", vals, perm) } else { String::new() }); note(inp.clone());
        let ks: Vec<F> = (0..NUM_ROUTED_WIRES).map(verif_hooks::get_subgroup_shift::<F>).collect();
        let sig = pu::sigma_polynomials(perm.clone(), n, w);
        for j in 0..NUM_ROUTED_WIRES { for g in 0..n {
            let x = perm[j * n + g];
            ck!(format!("{}/sigma_polynomials", F::NAME), sig[j][g] == ks[x / n] * sub[x % n], "{} wire {} gate {}", inp, j, g);
        } }
        // values on the 8n domain as the prover passes them: only every eighth entry is a point of the subgroup
        let sig8: Vec<Vec<F>> = sig.iter().map(|s| { let mut t = vec![]; for &x in s { t.push(x); for _ in 0..7 { t.push(elem(r)); } } t }).collect();
        let wit = Witness::new(vals.clone());
        let mut z = vec![F::ONE]; 
        for g in 0..n { let mut a = F::ONE; let mut b = F::ONE; for j in 0..NUM_ROUTED_WIRES { a = a * (vals[g][j] + beta * ks[j] * sub[g] + gamma); b = b * (vals[g][j] + beta * sig[j][g] + gamma); }
            if b.is_zero() { return Ok(false); } let l = *z.last().unwrap(); z.push(l * a / b); }
        let got = pu::permutation_polynomial(n, &sub, &wit, &sig8, beta, gamma);
        ck!(format!("{}/permutation_polynomial", F::NAME), got[..] == z[..n], "{}", inp);
        Ok(true)
    });
}

pub fn c35(v: &mut Vec<Case>) { some_fields!(c35f, v); }
fn c35f<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.halo", F::NAME), |r, i| {
        let k = if i < 8 { i } else { r.gen_range(0, 9) };
        let us: Vec<F> = (0..k).map(|_| { let x = if coin(r, 4) { F::from_canonical_u64(r.gen_range(1, 4)) } else { elem::<F>(r) }; if x.is_zero() { F::NEG_ONE } else { x } }).collect();
        let x = co::<F>(r); let inp = format!("us={:?} x={:?}", us, x); note(inp.clone());
        let mut c = vec![F::ONE];
        for &u in &us { let ui = of::<F>(&inv_mod(&val(&u), &F::p())); let m = c.len(); let _ = m;
            // earlier challenges belong to higher powers: interleave
            let mut d = vec![]; for &y in &c { d.push(y * ui); d.push(y * u); } c = d; }
        let s = pu::halo_s(&us);
        ck!(format!("{}/halo_s", F::NAME), s == c, "{}", inp);
        ck!(format!("{}/halo_g", F::NAME), pu::halo_g(x, &us) == ev(&c, x), "{}", inp);
        Ok(true)
    });
}

// ------------------------------------------------------------------ C15
pub fn c15(v: &mut Vec<Case>) {
    native::<TweedledeeBase>(v); native::<PallasBase>(v); native::<Bls12377Scalar>(v);
    recursive::<Tweedledee>(v); recursive::<Pallas>(v);
    points::<Tweedledee>(v); points::<Bls12377>(v);
}
/// the duplex sponge the transcript is declared to be
pub struct Model<F: Field> { st: Vec<F>, inp: Vec<F>, out: Vec<F>, bits: usize }
impl<F: Field> Model<F> {
    pub fn new(bits: usize) -> Self { Model { st: vec![F::ZERO; 4], inp: vec![], out: vec![], bits } }
    pub fn obs(&mut self, x: F) { self.inp.push(x); self.out.clear(); }
    pub fn get(&mut self) -> F {
        if !self.inp.is_empty() {
            for c in self.inp.clone().chunks(3) { for (i, &x) in c.iter().enumerate() { self.st[i] = self.st[i] + x; } self.st = rescue_permutation(&self.st, self.bits); }
            self.inp.clear(); self.out = self.st[..3].to_vec();
        }
        if self.out.is_empty() { self.st = rescue_permutation(&self.st, self.bits); self.out = self.st[..3].to_vec(); }
        self.out.pop().unwrap()
    }
}
fn native<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.challenger", F::NAME), |r, i| {
        let bits = if coin(r, 2) { 64 } else { 128 };
        let n = if i < 6 { i } else { r.gen_range(0, 9) };
        let mut c = Challenger::<F>::new(bits); let mut m = Model::new(bits); let mut h = String::new(); let mut seen: Vec<F> = vec![];
        note("");
        for _ in 0..=n {
            if coin(r, 2) {
                let xs: Vec<F> = (0..r.gen_range(0, 8)).map(|_| co(r)).collect();
                h += &format!(" observe{:?}", xs); if coin(r, 2) { c.observe_elements(&xs); } else { for &x in &xs { c.observe_element(x); } } for x in xs { m.obs(x); }
            } else {
                let k = r.gen_range(1, 6); h += &format!(" get{}", k);
                note(h.clone());
                let got: Vec<F> = match (k, coin(r, 2)) { (2, true) => { let t = c.get_2_challenges(); vec![t.0, t.1] } (3, true) => { let t = c.get_3_challenges(); vec![t.0, t.1, t.2] } (_, true) => c.get_n_challenges(k), _ => (0..k).map(|_| c.get_challenge()).collect() };
                let want: Vec<F> = (0..k).map(|_| m.get()).collect();
                ck!(format!("{}/challenge_fresh", F::NAME), got.iter().enumerate().all(|(a, x)| !seen.contains(x) && !got[..a].contains(x)), "a challenge is repeated: history{}", h);
                ck!(format!("{}/challenger", F::NAME), got == want, "history{}", h);
                seen.extend(got);
            }
        }
        Ok(true)
    });
}
fn recursive<C: HaloCurve>(v: &mut Vec<Case>) where C::ScalarField: Fld {
    rnd(v, &format!("{}.recursive_challenger", std::any::type_name::<C>()), |r, _| {
        let mut b = CircuitBuilder::<C>::new(128);
        let nin = r.gen_range(1, 5); let ts = b.add_virtual_targets(nin);
        let xs: Vec<C::ScalarField> = (0..nin).map(|_| co(r)).collect();
        let ops: Vec<Option<usize>> = (0..r.gen_range(1, 7)).map(|_| if coin(r, 2) { Some(r.gen_range(0, nin)) } else { None }).collect();
        note(format!("inputs {:?} operations {:?}", xs, ops));
        let outs = verif_hooks::recursive_challenges(&mut b, &ops.iter().map(|o| o.map(|k| ts[k])).collect::<Vec<_>>());
        let mut c = Challenger::<C::ScalarField>::new(128);
        let mut want = vec![]; for o in &ops { match o { Some(k) => c.observe_element(xs[*k]), None => want.push(c.get_challenge()) } }
        let ran = crate::circ::Ran::new(b, &ts.iter().cloned().zip(xs.iter().cloned()).collect::<Vec<_>>());
        let got: Vec<C::ScalarField> = outs.iter().map(|&t| ran.get(t)).collect();
        ck!(format!("{}/recursive_challenger", std::any::type_name::<C>()), got == want, "inputs {:?} operations {:?}: {:?} instead of {:?}", xs, ops, got, want);
        Ok(true)
    });
}
fn points<C: Curve>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.points", std::any::type_name::<C>()), |r, _| {
        let n = r.gen_range(1, 5);
        let ps: Vec<ProjectivePoint<C>> = (0..n).map(|_| { let mut p = C::GENERATOR_PROJECTIVE; for _ in 0..r.gen_range(0, 6) { p = p.double(); if coin(r, 2) { p = p + C::GENERATOR_PROJECTIVE; } } p }).collect();
        let mut m = Model::<C::BaseField>::new(128); for p in &ps { let a = p.to_affine(); m.obs(a.x); m.obs(a.y); }
        let want = m.get();
        let mut c = Challenger::<C::BaseField>::new(128); c.observe_proj_points(&ps);
        let mut d = Challenger::<C::BaseField>::new(128); d.observe_affine_points(&ps.iter().map(|p| p.to_affine()).collect::<Vec<_>>());
        let mut e = Challenger::<C::BaseField>::new(128); for p in &ps { e.observe_proj_point(*p); }
        let mut f = Challenger::<C::BaseField>::new(128); for p in &ps { f.observe_affine_point(p.to_affine()); }
        ck!(format!("{}/points", std::any::type_name::<C>()), c.get_challenge() == want && d.get_challenge() == want && e.get_challenge() == want && f.get_challenge() == want, "{:?}", ps);
        Ok(true)
    });
}

// ------------------------------------------------------------------ C16
pub fn c16(v: &mut Vec<Case>) { all_fields!(c16f, v); }
pub fn mds<F: Fld>(n: usize) -> Vec<Vec<F>> { (0..n).map(|r| (0..n).map(|c| of::<F>(&inv_mod(&BigUint::from((n + r - c) as u64), &F::p()))).collect()).collect() }
fn layer<F: Fld>(m: &[Vec<F>], s: &[F], k: &[F]) -> Vec<F> { (0..s.len()).map(|r| (0..s.len()).fold(F::ZERO, |a, c| a + m[r][c] * s[c]) + k[r]).collect() }
pub fn rescue_ref<F: Fld>(s: &[F], bits: usize) -> Vec<F> {
    use rand::SeedableRng;
    let w = s.len(); let rounds = std::cmp::max(10, (bits + 2 * w - 1) / (2 * w));
    let al = val(&F::ALPHA); let p1 = F::p() - 1u32;
    let inv = { let e = num::BigInt::from(al.clone()); let m = num::BigInt::from(p1.clone()); let g = num::integer::Integer::extended_gcd(&e, &m); let x = (g.x % &m + &m) % &m; x.to_biguint().unwrap() };
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(1337);
    let m = mds::<F>(w); let mut s = s.to_vec();
    for _ in 0..rounds {
        let a: Vec<F> = (0..w).map(|_| F::rand_from_rng(&mut rng)).collect(); let b: Vec<F> = (0..w).map(|_| F::rand_from_rng(&mut rng)).collect();
        s = s.iter().map(|x| of::<F>(&val(x).modpow(&inv, &F::p()))).collect(); s = layer(&m, &s, &a);
        s = s.iter().map(|x| of::<F>(&val(x).modpow(&al, &F::p()))).collect(); s = layer(&m, &s, &b);
    }
    s
}
fn c16f<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.permutation", F::NAME), |r, i| {
        let w = if i < 6 { 4 } else { r.gen_range(1, 7) }; let bits = [0, 1, 64, 79, 80, 81, 127, 128, 129, 256][r.gen_range(0, 10)];
        let s: Vec<F> = (0..w).map(|_| co(r)).collect(); let inp = format!("state {:?} security {}", s, bits); note(inp.clone());
        ck!(format!("{}/rescue_permutation", F::NAME), rescue_permutation(&s, bits) == rescue_ref(&s, bits), "{}", inp);
        Ok(true)
    });
    case(v, &format!("{}.mds", F::NAME), 9, |_, i| {
        let n = i + 1; let m = verif_hooks::mds_matrix::<F>(n); let want = mds::<F>(n);
        for r in 0..n { for c in 0..n { ck!(format!("{}/mds", F::NAME), m[r][c] == want[r][c], "{} by {}: entry {} {}", n, n, r, c); } }
        Ok(true)
    });
    rnd(v, &format!("{}.sponge", F::NAME), |r, i| {
        let n = if i < 8 { i } else { r.gen_range(0, 12) }; let k = if i < 6 { i } else { r.gen_range(0, 9) };
        let xs: Vec<F> = (0..n).map(|_| co(r)).collect(); let inp = format!("inputs {:?} outputs {}", xs, k); note(inp.clone());
        let mut s = vec![F::ZERO; 4];
        for c in xs.chunks(3) { for (i, &x) in c.iter().enumerate() { s[i] = s[i] + x; } s = rescue_permutation(&s, 128); }
        let mut want = vec![]; while want.len() < k.max(3) { want.extend_from_slice(&s[..3]); s = rescue_permutation(&s, 128); }
        ck!(format!("{}/rescue_sponge", F::NAME), rescue_sponge(xs.clone(), k, 128)[..] == want[..k], "{}", inp);
        ck!(format!("{}/rescue_hash", F::NAME), rescue_hash_n_to_1(xs.clone(), 128) == want[0] && rescue_hash_n_to_2(xs.clone(), 128) == (want[0], want[1]) && rescue_hash_n_to_3(xs.clone(), 128) == (want[0], want[1], want[2]) && (n == 0 || rescue_hash_1_to_1(xs[0], 128) == rescue_hash_n_to_1(vec![xs[0]], 128)), "{}", inp);
        Ok(true)
    });
}
