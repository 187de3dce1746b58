use crate::fw::*;
use crate::gen::*;
use num::{BigUint, One, Zero};
use plonky::*;
use rand::{Rng, RngCore};

fn same<F: Fld>(key: &str, got: F, want: BigUint, inp: String) -> Out {
    ck!(format!("{}/{}", F::NAME, key), canon(&got), "{}: result limbs {:x?} not canonical", inp, got.limbs());
    ck!(format!("{}/{}", F::NAME, key), val(&got) == want, "{}: got {:x} want {:x}", inp, val(&got), want);
    Ok(true)
}

pub fn c01(v: &mut Vec<Case>) { all_fields!(c01f, v); 
    rnd(v, "Bls12377Base.mul_u64", |r, _| {
        let a = elem::<Bls12377Base>(r); let n = match r.gen_range(0, 3) { 0 => r.next_u64(), 1 => u64::max_value(), _ => r.gen_range(0, 5) };
        note(format!("{:x?} {}", a.limbs(), n));
        same("mul_u64", a * n, val(&a) * n % Bls12377Base::p(), format!("{:x?} * {}", a.limbs(), n))
    });
}
fn c01f<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.ops", F::NAME), |r, i| {
        let (mut a, b) = (elem::<F>(r), elem::<F>(r));
        // pairs with a boundary sum or difference
        match i % 7 { 1 => { a = of::<F>(&(F::p() - val(&b)).into()); } 2 => { a = b; }
            3 => { let s = F::p() - to_big(&b.limbs()); a = F::raw(&to_limbs(&(s % F::p()), F::N)); } _ => {} }
        let p = F::p(); let (x, y) = (val(&a), val(&b));
        let inp = format!("a={:x?} b={:x?}", a.limbs(), b.limbs()); note(inp.clone());
        same("add", a + b, (&x + &y) % &p, inp.clone())?;
        same("sub", a - b, (&x + &p - &y) % &p, inp.clone())?;
        same("neg", -a, (&p - &x) % &p, inp.clone())?;
        same("mul", a * b, &x * &y % &p, inp.clone())?;
        same("square", a.square(), &x * &x % &p, inp.clone())?;
        same("cube", a.cube(), &x * &x % &p * &x % &p, inp.clone())?;
        same("double", a.double(), &x * 2u32 % &p, inp.clone())?;
        same("triple", a.triple(), &x * 3u32 % &p, inp.clone())?;
        same("quadruple", a.quadruple(), &x * 4u32 % &p, inp.clone())?;
        ck!(format!("{}/tests", F::NAME), a.is_zero() == x.is_zero() && a.is_nonzero() != x.is_zero() && a.is_one() == x.is_one(), "{}", inp);
        ck!(format!("{}/eq", F::NAME), (a == b) == (x == y), "{}", inp);
        Ok(true)
    });
    case(v, &format!("{}.consts", F::NAME), 1, |_, _| {
        let p = F::p();
        for (n, c, w) in vec![("ZERO", F::ZERO, 0u32), ("ONE", F::ONE, 1), ("TWO", F::TWO, 2), ("THREE", F::THREE, 3), ("FOUR", F::FOUR, 4), ("FIVE", F::FIVE, 5)] {
            same(n, c, BigUint::from(w), n.to_string())?;
        }
        same("NEG_ONE", F::NEG_ONE, &p - 1u32, "NEG_ONE".into())
    });
    rnd(v, &format!("{}.lists", F::NAME), |r, _| {
        let n = r.gen_range(0, 9); let p = F::p();
        let a: Vec<F> = (0..n).map(|_| elem(r)).collect(); let b: Vec<F> = (0..n).map(|_| elem(r)).collect(); let s = elem::<F>(r);
        let inp = format!("a={:x?} b={:x?}", a.iter().map(|x| x.limbs()).collect::<Vec<_>>(), b.iter().map(|x| x.limbs()).collect::<Vec<_>>()); note(inp.clone());
        let ip = a.iter().zip(&b).fold(BigUint::zero(), |t, (x, y)| (t + val(x) * val(y)) % &p);
        same("inner_product", F::inner_product(&a, &b), ip, inp.clone())?;
        let t = F::add_slices(&a, &b); let u = s.scale_slice(&a);
        ck!(format!("{}/slices", F::NAME), t.len() == n && u.len() == n, "{}", inp);
        for i in 0..n { same("add_slices", t[i], (val(&a[i]) + val(&b[i])) % &p, inp.clone())?; same("scale_slice", u[i], val(&a[i]) * val(&s) % &p, inp.clone())?; }
        Ok(true)
    });
}

// ------------------------------------------------------------------ C02
pub fn c02(v: &mut Vec<Case>) { all_fields!(c02f, v); }
fn c02f<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.inverse", F::NAME), |r, _| {
        let a = elem::<F>(r); let b = elem::<F>(r); let p = F::p(); let x = val(&a);
        let inp = format!("a={:x?} b={:x?}", a.limbs(), b.limbs()); note(inp.clone());
        match a.multiplicative_inverse() {
            None => ck!(format!("{}/inverse", F::NAME), x.is_zero(), "{}: None", inp),
            Some(i) => { ck!(format!("{}/inverse", F::NAME), !x.is_zero(), "{}: Some for zero", inp); same("inverse", i, inv_mod(&x, &p), inp.clone())?; }
        }
        if !x.is_zero() {
            same("inverse_assuming_nonzero", a.multiplicative_inverse_assuming_nonzero(), inv_mod(&x, &p), inp.clone())?;
            same("div", b / a, val(&b) * inv_mod(&x, &p) % &p, inp.clone())?;
        } else {
            ck!(format!("{}/div0", F::NAME), trap(|| b / a).is_err(), "{}: division by zero returned a value", inp);
        }
        Ok(true)
    });
    rnd(v, &format!("{}.batch", F::NAME), |r, _| {
        let n = r.gen_range(0, 9); let p = F::p();
        let zeros = coin(r, 2);
        let mut a: Vec<F> = (0..n).map(|_| elem(r)).collect();
        if n > 1 && coin(r, 3) { a[n - 1] = a[0]; }
        let inp = format!("{:x?}", a.iter().map(|x| x.limbs()).collect::<Vec<_>>()); note(inp.clone());
        if zeros { for x in a.iter_mut() { if coin(r, 4) { *x = F::ZERO; } } }
        let o = F::batch_multiplicative_inverse_opt(&a);
        ck!(format!("{}/batch_opt", F::NAME), o.len() == n, "{} length {}", inp, o.len());
        for i in 0..n { match o[i] { None => ck!(format!("{}/batch_opt", F::NAME), val(&a[i]).is_zero(), "{} index {}", inp, i),
            Some(q) => { ck!(format!("{}/batch_opt", F::NAME), !val(&a[i]).is_zero(), "{} index {}", inp, i); same("batch_opt", q, inv_mod(&val(&a[i]), &p), inp.clone())?; } } }
        let nz: Vec<F> = a.iter().cloned().filter(|x| !val(x).is_zero()).collect();
        let o = F::batch_multiplicative_inverse(&nz);
        ck!(format!("{}/batch", F::NAME), o.len() == nz.len(), "{}", inp);
        for i in 0..nz.len() { same("batch", o[i], inv_mod(&val(&nz[i]), &p), inp.clone())?; }
        Ok(true)
    });
}

// ------------------------------------------------------------------ C03
fn le_bytes(x: &BigUint, n: usize) -> Vec<u8> { let mut b = x.to_bytes_le(); while b.len() < n { b.push(0); } b }
pub fn c03(v: &mut Vec<Case>) { all_fields!(c03f, v); }
fn c03f<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.encode", F::NAME), |r, _| {
        let a = elem::<F>(r); let x = val(&a); let nb = 8 * F::N; let by = le_bytes(&x, nb);
        let inp = format!("{:x?}", a.limbs()); note(inp.clone()); let n = F::NAME;
        ck!(format!("{}/to_u64", n), a.to_canonical_u64_vec() == to_limbs(&x, F::N), "{}", inp);
        let u32s: Vec<u32> = by.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        ck!(format!("{}/to_u32", n), a.to_canonical_u32_vec() == u32s, "{}", inp);
        ck!(format!("{}/to_u8", n), a.to_canonical_u8_vec() == by, "{}", inp);
        let bits: Vec<bool> = (0..8 * nb).map(|i| by[i / 8] >> (i % 8) & 1 == 1).collect();
        ck!(format!("{}/to_bool", n), a.to_canonical_bool_vec() == bits, "{}", inp);
        same("from_u64", F::from_canonical_u64_vec(to_limbs(&x, F::N)), x.clone(), inp.clone())?;
        same("from_u32", F::from_canonical_u32_vec(u32s), x.clone(), inp.clone())?;
        match F::from_canonical_u8_vec(by.clone()) { Ok(b) => { same("from_u8", b, x.clone(), inp.clone())?; } Err(e) => return fail(format!("{}/from_u8", n), format!("{} rejected: {}", inp, e)) }
        ck!(format!("{}/biguint", n), field_to_biguint(a) == x, "{}", inp);
        same("of_biguint", biguint_to_field::<F>(x.clone()), x.clone(), inp.clone())?;
        ck!(format!("{}/display", n), a.to_string() == x.to_string(), "{} prints {}", inp, a);
        let k = r.next_u64() >> r.gen_range(0, 64);
        same("from_u64_small", F::from_canonical_u64(k), BigUint::from(k) , format!("{}", k))?;
        same("from_u32_small", F::from_canonical_u32(k as u32), BigUint::from(k as u32), format!("{}", k))?;
        same("from_usize", F::from_canonical_usize(k as usize), BigUint::from(k), format!("{}", k))?;
        same("from_bool", F::from_canonical_bool(k & 1 == 1), BigUint::from(k & 1), format!("{}", k))
    });
    rnd(v, &format!("{}.decode", F::NAME), |r, _| {
        let p = F::p(); let nb = 8 * F::N;
        let lim = BigUint::one() << (8 * nb);
        let x = match r.gen_range(0, 5) { 0 => &p + r.gen_range(0u64, 3), 1 => &lim - 1u32 - r.gen_range(0u64, 3), 2 => &p - 1u32, 3 => int_below(r, &lim, F::N), _ => { let d = to_limbs(&p, F::N); let mut d = d; let i = r.gen_range(0, F::N); d[i] = d[i].wrapping_add(r.gen_range(0, 3)).wrapping_sub(1); to_big(&d) } };
        let mut by = le_bytes(&x, nb);
        let inp = format!("{:x}", x); note(inp.clone());
        match F::from_canonical_u8_vec(by.clone()) {
            Ok(a) => { ck!(format!("{}/decode_range", F::NAME), x < p, "{} accepted", inp); same("decode", a, x.clone(), inp.clone())?; }
            Err(_) => ck!(format!("{}/decode_range", F::NAME), x >= p, "{} rejected", inp),
        }
        // lengths: extra zero bytes or missing bytes denote another length of encoding
        let l = match r.gen_range(0, 3) { 0 => nb + r.gen_range(1, 17), 1 => r.gen_range(0, nb), _ => nb };
        if l != nb {
            by.resize(l, 0); note(format!("{} bytes {:x?}", l, by));
            match trap(|| F::from_canonical_u8_vec(by.clone())) {
                Err(m) => return fail(format!("{}/decode_length_panic", F::NAME), format!("{} bytes {:x?} panics {}", l, by, m)),
                Ok(Ok(a)) => { let y = BigUint::from_bytes_le(&by); ck!(format!("{}/decode_length", F::NAME), y < p && canon(&a) && val(&a) == y, "{} bytes {:x?}", l, by); }
                Ok(Err(_)) => {}
            }
        }
        Ok(true)
    });
    conv_pair::<F, TweedledeeBase>(v); conv_pair::<F, TweedledumBase>(v); conv_pair::<F, PallasBase>(v);
    conv_pair::<F, VestaBase>(v); conv_pair::<F, Bls12377Scalar>(v); conv_pair::<F, Bls12377Base>(v);
}
fn conv_pair<F: Fld, G: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.to.{}", F::NAME, G::NAME), |r, _| {
        let a = if coin(r, 3) { let q = G::p(); of::<F>(&(if coin(r, 2) { q - 1u32 } else { q + r.gen_range(0u64, 2) })) } else if coin(r, 3) { ofu::<F>(r.next_u64()) } else { elem::<F>(r) };
        let x = val(&a); let inp = format!("{:x}", x); note(inp.clone());
        match a.try_convert::<G>() {
            Ok(b) => { ck!(format!("{}/{}/convert", F::NAME, G::NAME), x < G::p(), "{} accepted", inp); same("convert", b, x.clone(), inp.clone())?; }
            // different encoding lengths may be refused, never misread
            Err(_) => ck!(format!("{}/{}/convert", F::NAME, G::NAME), x >= G::p() || F::N != G::N, "{} rejected", inp),
        }
        let l = vec![a, F::ONE];
        if let Ok(b) = F::try_convert_all::<G>(&l) { ck!(format!("{}/{}/convert_all", F::NAME, G::NAME), b.len() == 2 && val(&b[0]) == x && val(&b[1]) == BigUint::one(), "{}", inp); }
        Ok(true)
    });
}

// ------------------------------------------------------------------ C04
pub fn c04(v: &mut Vec<Case>) { all_fields!(c04f, v);
    c04c::<Tweedledee>(v, "Tweedledee"); c04c::<Tweedledum>(v, "Tweedledum"); c04c::<Pallas>(v, "Pallas"); c04c::<Vesta>(v, "Vesta"); c04c::<Bls12377>(v, "Bls12377");
    c04h::<Tweedledee>(v, "Tweedledee"); c04h::<Tweedledum>(v, "Tweedledum"); c04h::<Pallas>(v, "Pallas"); c04h::<Vesta>(v, "Vesta");
}
fn c04f<F: Fld>(v: &mut Vec<Case>) {
    case(v, &format!("{}.params", F::NAME), 1, |_, _| {
        let p = F::p(); let n = F::NAME;
        let s = F::TWO_ADICITY; let t = (&p - 1u32) >> s;
        ck!(format!("{}/two_adicity", n), (&t & BigUint::one()).is_one() && (&t << s) == &p - 1u32, "{}", s);
        same("T", F::T, t, "T".into())?;
        ck!(format!("{}/bits", n), F::BITS == p.bits() as usize && F::BYTES == 8 * F::N, "{} {}", F::BITS, F::BYTES);
        let g = val(&F::MULTIPLICATIVE_SUBGROUP_GENERATOR); let m = &p - 1u32; let mut k = m.clone();
        for q in vec![2u32, 3, 5, 7, 13, 53, 409, 463, 499, 1709, 2557, 5179, 24859] {
            if (&m % q).is_zero() { ck!(format!("{}/generator", n), g.modpow(&(&m / q), &p) != BigUint::one(), "generator^((p-1)/{}) = 1", q); while (&k % q).is_zero() { k /= q; } }
        }
        ck!(format!("{}/generator", n), !g.is_zero(), "zero");
        let al = val(&F::ALPHA);
        ck!(format!("{}/alpha", n), al > BigUint::one() && num::integer::gcd(al.clone(), m.clone()).is_one(), "{}", al);
        let mut d = BigUint::from(2u32); while d < al { ck!(format!("{}/alpha", n), !num::integer::gcd(d.clone(), m.clone()).is_one(), "{} is smaller", d); d += 1u32; }
        for k in 0..=s {
            let w = val(&F::primitive_root_of_unity(k)); let e = BigUint::one() << k;
            ck!(format!("{}/root", n), w.modpow(&e, &p).is_one() && (k == 0 || w.modpow(&(&e >> 1), &p) == m), "2^{}", k);
        }
        Ok(true)
    });
}
fn c04c<C: Curve>(v: &mut Vec<Case>, n: &'static str) {
    case(v, &format!("{}.params", n), 1, move |_, _| {
        let g = C::GENERATOR_AFFINE;
        ck!(format!("{}/generator", n), !g.zero && g.y * g.y == g.x * g.x * g.x + C::A * g.x + C::B, "off the curve");
        ck!(format!("{}/generator", n), g.is_valid(), "is_valid");
        let q = C::GENERATOR_PROJECTIVE; ck!(format!("{}/projective", n), q.to_affine() == g, "");
        // order: (r-1) G = -G by double and add on affine points
        let r1 = field_to_biguint(C::ScalarField::NEG_ONE); let mut acc = ProjectivePoint::<C>::ZERO;
        for i in (0..r1.bits()).rev() { acc = acc.double(); if (&r1 >> (i as usize)) & BigUint::one() == BigUint::one() { acc = acc + q; } }
        ck!(format!("{}/order", n), acc.to_affine() == -g, "(r-1)G != -G");
        ck!(format!("{}/safe", n), C::is_safe_curve(), "discriminant zero");
        Ok(true)
    });
}
fn c04h<C: HaloCurve>(v: &mut Vec<Case>, n: &'static str) {
    case(v, &format!("{}.endo", n), 1, move |_, _| {
        let g = C::GENERATOR_AFFINE; let e = AffinePoint::<C>::nonzero(g.x * C::ZETA, g.y);
        let k = field_to_biguint(C::ZETA_SCALAR); let mut acc = ProjectivePoint::<C>::ZERO;
        for i in (0..k.bits()).rev() { acc = acc.double(); if (&k >> (i as usize)) & BigUint::one() == BigUint::one() { acc = acc + C::GENERATOR_PROJECTIVE; } }
        ck!(format!("{}/endo", n), acc.to_affine() == e, "ZETA_SCALAR G");
        Ok(true)
    });
}

// ------------------------------------------------------------------ C05
pub fn c05(v: &mut Vec<Case>) { all_fields!(c05f, v); }
fn c05f<F: Fld>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.exp", F::NAME), |r, _| {
        let a = elem::<F>(r); let e = if coin(r, 4) { ofu::<F>(r.next_u64() >> r.gen_range(0, 64)) } else { elem::<F>(r) }; let p = F::p();
        let inp = format!("a={:x} e={:x}", val(&a), val(&e)); note(inp.clone());
        same("exp", a.exp(e), val(&a).modpow(&val(&e), &p), inp.clone())?;
        let k = match r.gen_range(0, 3) { 0 => r.gen_range(0, 5), 1 => r.next_u32(), _ => u32::max_value() - r.gen_range(0, 3) };
        same("exp_u32", a.exp_u32(k), val(&a).modpow(&BigUint::from(k), &p), format!("{} {}", inp, k))?;
        let u = r.next_u64() >> r.gen_range(0, 64);
        same("exp_usize", a.exp_usize(u as usize), val(&a).modpow(&BigUint::from(u), &p), format!("{} {}", inp, u))
    });
    rnd(v, &format!("{}.roots", F::NAME), |r, _| {
        let a = elem::<F>(r); let p = F::p(); let m = &p - 1u32;
        let mut k = r.gen_range(1u32, 400); while !num::integer::gcd(BigUint::from(k), m.clone()).is_one() { k = r.gen_range(1, 400); }
        let inp = format!("a={:x} k={}", val(&a), k); note(inp.clone());
        let y = a.kth_root_u32(k);
        ck!(format!("{}/kth_root", F::NAME), canon(&y) && val(&y).modpow(&BigUint::from(k), &p) == val(&a), "{}", inp);
        let y = a.kth_root(F::ALPHA); ck!(format!("{}/kth_root", F::NAME), val(&y).modpow(&val(&F::ALPHA), &p) == val(&a), "{} alpha", inp);
        Ok(true)
    });
    rnd(v, &format!("{}.sqrt", F::NAME), |r, i| {
        let mut a = elem::<F>(r); let p = F::p(); let m = &p - 1u32;
        let s = F::TWO_ADICITY;
        // squares, and elements with a chosen two-part of the order
        match i % 3 { 0 => { a = of::<F>(&(val(&a) * val(&a) % &p)); } 1 => { let g = val(&F::MULTIPLICATIVE_SUBGROUP_GENERATOR); let k = r.gen_range(0, s + 1);
            let root = g.modpow(&(&m >> k), &p); let odd = val(&a).modpow(&(BigUint::one() << s), &p); a = of::<F>(&(root * odd % &p)); } _ => {} }
        let x = val(&a); let inp = format!("a={:x}", x); note(inp.clone());
        let leg = x.modpow(&(&m >> 1), &p); let sq = x.is_zero() || leg.is_one();
        ck!(format!("{}/qr", F::NAME), a.is_quadratic_residue() == sq, "{}", inp);
        match a.square_root() { None => ck!(format!("{}/sqrt", F::NAME), !sq, "{} None", inp), Some(y) => ck!(format!("{}/sqrt", F::NAME), sq && canon(&y) && val(&y) * val(&y) % &p == x, "{} gives {:x}", inp, val(&y)) }
        Ok(true)
    });
}

// ------------------------------------------------------------------ C06
pub fn c06(v: &mut Vec<Case>) { all_fields!(c06f, v); }
fn c06f<F: Fld + Ord>(v: &mut Vec<Case>) {
    rnd(v, &format!("{}.order", F::NAME), |r, i| {
        let a = elem::<F>(r); let mut b = elem::<F>(r); let p = F::p();
        match i % 5 { 0 => { b = a; } 1 => { b = of::<F>(&(val(&a) + 1u32)); } 2 => { let mut l = to_limbs(&val(&a), F::N); let j = r.gen_range(0, F::N); l[j] = r.next_u64(); b = of::<F>(&(to_big(&l) % &p)); } _ => {} }
        let (x, y) = (val(&a), val(&b)); let inp = format!("{:x} {:x}", x, y); note(inp.clone()); let n = F::NAME;
        ck!(format!("{}/cmp", n), a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)), "{}", inp);
        ck!(format!("{}/rel", n), (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "{}", inp);
        ck!(format!("{}/num_bits", n), a.num_bits() == x.bits() as usize, "{} num_bits {}", inp, a.num_bits());
        let w = of::<F>(&((BigUint::one() << r.gen_range(0, p.bits() as usize)) % &p));
        ck!(format!("{}/num_bits", n), w.num_bits() == val(&w).bits() as usize, "{:x}", val(&w));
        Ok(true)
    });
}
