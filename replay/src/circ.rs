//! Gadget contracts on compiled circuits: the gadget is built with the real builder, the real generators fill the witness,
//! the real constraints are evaluated on every row, and the outputs are compared with the stated function.
use crate::fw::*;
use crate::gen::*;
use num::{BigUint, One, Zero, Integer};
use plonky::*;
use rand::Rng;

pub type B<C> = CircuitBuilder<C>;
pub type T<C> = Target<<C as Curve>::ScalarField>;
pub type S<C> = <C as Curve>::ScalarField;
pub struct Ran<C: HaloCurve> { pub circ: Circuit<C>, pub wit: PartialWitness<S<C>> }

pub fn rows_ok<C: HaloCurve, I: HaloCurve<BaseField = S<C>>>(circ: &Circuit<C>, get: &dyn Fn(usize, usize) -> S<C>) -> Option<String> {
    let n = circ.degree();
    let row = |g: usize| (0..9).map(|j| get(g % n, j)).collect::<Vec<_>>();
    for g in 0..n {
        let c = evaluate_all_constraints::<C, I>(&circ.gate_constants[g], &row(g), &row(g + 1), &row(g + 65));
        if let Some(k) = c.iter().position(|x| x.is_nonzero()) { return Some(format!("constraint {} of row {} is not zero", k, g)); }
    }
    None
}
pub fn wire<F: Field>(g: usize, j: usize) -> Target<F> { Target::Wire(Wire { gate: g, input: j }) }
impl<C: HaloCurve> Ran<C> {
    pub fn new(b: B<C>, inputs: &[(T<C>, S<C>)]) -> Self {
        let circ = b.build();
        let mut w = PartialWitness::new();
        for (t, v) in inputs { w.set_target(*t, *v); }
        let wit = circ.generate_partial_witness(w);
        Ran { circ, wit }
    }
    pub fn get(&self, t: T<C>) -> S<C> { if self.wit.contains_target(t) { self.wit.get_target(t) } else { S::<C>::ZERO } }
    /// every constraint and every copy holds on the generated witness
    pub fn satisfied<I: HaloCurve<BaseField = S<C>>>(&self) -> Option<String> {
        for t in self.wit.all_populated_targets() {
            for s in self.circ.routing_target_partitions.get_partition(t) {
                if self.get(*s) != self.get(t) { return Some(format!("copy {:?} {:?} violated", s, t)); }
            }
        }
        rows_ok::<C, I>(&self.circ, &|g, j| self.get(wire(g, j)))
    }
    /// changing the value of the whole copy class of t violates some constraint
    pub fn forced<I: HaloCurve<BaseField = S<C>>>(&self, t: T<C>, v: S<C>) -> bool {
        let p: std::collections::HashSet<T<C>> = self.circ.routing_target_partitions.get_partition(t).iter().cloned().collect();
        rows_ok::<C, I>(&self.circ, &|g, j| if p.contains(&wire(g, j)) { v } else { self.get(wire(g, j)) }).is_some()
    }
}
/// An assignment made by a dishonest prover: generators run as usual, but the first `skip`-th generator that splits one value
/// into three or more 86-bit limbs encodes the value plus the field order instead. A value given in `inputs` is kept whatever the generators say.
/// Returns whether a generator allowed that, and whether every constraint and copy accepts the result.
pub fn forge_split<C: HaloCurve, I: HaloCurve<BaseField = S<C>>>(circ: &Circuit<C>, inputs: &[(T<C>, S<C>)], mut skip: usize) -> (bool, bool) where S<C>: Fld {
    let part = &circ.routing_target_partitions;
    let mut w = PartialWitness::new();
    let put = |w: &mut PartialWitness<S<C>>, t: T<C>, v: S<C>| {
        if w.contains_target(t) { return; }
        w.set_target(t, v);
        for s in part.get_partition(t) { if !w.contains_target(*s) { w.set_target(*s, v); } }
    };
    for (t, v) in inputs { put(&mut w, *t, *v); }
    let mut done = vec![false; circ.generators.len()]; let mut go = true; let mut forged = false;
    let b = BigUint::one() << 86usize;
    while go {
        go = false;
        for (i, g) in circ.generators.iter().enumerate() {
            if done[i] || !w.contains_all_targets(&g.dependencies()) { continue; }
            done[i] = true; go = true;
            let r = match trap(|| g.generate(&circ.gate_constants, &w)) { Ok(r) => r, Err(_) => continue };
            let mut out: Vec<(T<C>, S<C>)> = r.all_populated_targets().iter().map(|t| (*t, r.get_target(*t))).collect();
            let d = g.dependencies();
            if !forged && d.len() == 1 && out.len() >= 3 {
                let v = val(&w.get_target(d[0])); let n = out.len();
                let dig = |v: &BigUint| (0..n).map(|k| (v >> (86 * k)) % &b).collect::<Vec<_>>();
                let (old, bad) = (dig(&v), dig(&(&v + S::<C>::p())));
                let mut os: Vec<BigUint> = old.clone(); os.sort(); let mut gs: Vec<BigUint> = out.iter().map(|(_, x)| val(x)).collect(); gs.sort();
                if os == gs && (&v + S::<C>::p()).bits() <= 86 * n as u64 {
                    if skip > 0 { skip -= 1; } else {
                        forged = true; let mut used = vec![false; n];
                        for o in out.iter_mut() {
                            let k = (0..n).find(|k| !used[*k] && old[*k] == val(&o.1)).unwrap();
                            used[k] = true; o.1 = biguint_to_field(bad[k].clone());
                        }
                    }
                }
            }
            for (t, v) in out { put(&mut w, t, v); }
        }
    }
    let get = |t: T<C>| if w.contains_target(t) { w.get_target(t) } else { S::<C>::ZERO };
    (forged, rows_ok::<C, I>(circ, &|g, j| get(wire(g, j))).is_none())
}
type Bld<C> = dyn Fn(&mut B<C>, &[T<C>]) -> Vec<T<C>> + Send + Sync;
type Spec<C> = dyn Fn(&[S<C>]) -> Option<Vec<S<C>>> + Send + Sync;
fn gad<C: HaloCurve, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>, name: &str, n: usize, bld: Box<Bld<C>>, spec: Box<Spec<C>>) where S<C>: Fld {
    let name = format!("{}/{}", name, std::any::type_name::<C>().rsplit("::").next().unwrap());
    let nm = name.clone();
    rnd(v, &name, move |r, _| {
        let mut xs: Vec<S<C>> = (0..n).map(|_| if coin(r, 3) { S::<C>::from_canonical_u64(r.gen_range(0, 3)) } else { elem(r) }).collect();
        let alias = n >= 2 && coin(r, 5);
        if alias { xs[1] = xs[0]; }
        let inp = format!("{:?}{}", xs, if alias { " (first two inputs are one target)" } else { "" });
        note(inp.clone());
        let want = match spec(&xs) { Some(w) => w, None => return Ok(false) };
        let mut b = B::<C>::new(128);
        let mut ts = b.add_virtual_targets(n);
        if alias { ts[1] = ts[0]; }
        let outs = bld(&mut b, &ts);
        let given: Vec<_> = ts.iter().cloned().zip(xs.iter().cloned()).collect();
        let run = Ran::new(b, &given);
        for (i, (o, w)) in outs.iter().zip(want.iter()).enumerate() {
            ck!(format!("{}/value", nm), run.get(*o) == *w, "output {} is {:?}, expected {:?}; inputs {}", i, run.get(*o), w, inp);
        }
        ck!(format!("{}/len", nm), outs.len() == want.len(), "{} outputs", outs.len());
        if let Some(m) = run.satisfied::<I>() { return fail(format!("{}/unsatisfied", nm), format!("{}; inputs {}", m, inp)); }
        if !alias {
            for (i, o) in outs.iter().enumerate() {
                if ts.contains(o) { continue; }
                let bad = run.get(*o) + S::<C>::from_canonical_u64(r.gen_range(1, 5));
                ck!(format!("{}/unconstrained", nm), run.forced::<I>(*o, bad), "output {} = {:?} also satisfies every constraint; inputs {}", i, bad, inp);
            }
        }
        Ok(true)
    });
}
/// an assertion gadget: satisfied exactly when spec holds
fn asrt<C: HaloCurve, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>, name: &str, n: usize, bld: Box<dyn Fn(&mut B<C>, &[T<C>]) + Send + Sync>, spec: Box<dyn Fn(&[S<C>]) -> bool + Send + Sync>) where S<C>: Fld {
    let name = format!("{}/{}", name, std::any::type_name::<C>().rsplit("::").next().unwrap());
    let nm = name.clone();
    rnd(v, &name, move |r, _| {
        let xs: Vec<S<C>> = (0..n).map(|_| match r.gen_range(0, 4) { 0 | 1 => S::<C>::from_canonical_u64(r.gen_range(0, 6)), 2 => S::<C>::ZERO - S::<C>::from_canonical_u64(r.gen_range(0, 6)), _ => elem(r) }).collect();
        let inp = format!("{:?}", xs);
        note(inp.clone());
        let ok = spec(&xs);
        let got = trap(|| {
            let mut b = B::<C>::new(128);
            let ts = b.add_virtual_targets(n);
            bld(&mut b, &ts);
            let given: Vec<_> = ts.iter().cloned().zip(xs.iter().cloned()).collect();
            Ran::new(b, &given).satisfied::<I>()
        });
        // a witness generator that rejects the inputs rejects them
        let sat = match &got { Ok(None) => true, Ok(Some(_)) => false, Err(m) => { ck!(format!("{}/panic", nm), !ok, "panicked: {}; inputs {}", m, inp); false } };
        ck!(format!("{}/verdict", nm), sat == ok, "constraints {} on inputs {}", if sat { "hold" } else { "fail" }, inp);
        Ok(true)
    });
}
fn bin(x: bool) -> Vec<bool> { vec![x] }
fn b2f<F: Field>(x: bool) -> F { if x { F::ONE } else { F::ZERO } }

pub fn c28(v: &mut Vec<Case>) { c28c::<Tweedledee, Tweedledum>(v); c28c::<Tweedledum, Tweedledee>(v); }
fn c28c<C: HaloCurve, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>) where S<C>: Fld {
    let _ = bin;
    macro_rules! g { ($nm:expr, $n:expr, $b:expr, $s:expr) => { gad::<C, I>(v, $nm, $n, Box::new($b), Box::new($s)); } }
    g!("add", 2, |b: &mut B<C>, t: &[T<C>]| vec![b.add(t[0], t[1])], |x: &[S<C>]| Some(vec![x[0] + x[1]]));
    g!("sub", 2, |b: &mut B<C>, t: &[T<C>]| vec![b.sub(t[0], t[1])], |x: &[S<C>]| Some(vec![x[0] - x[1]]));
    g!("mul", 2, |b: &mut B<C>, t: &[T<C>]| vec![b.mul(t[0], t[1])], |x: &[S<C>]| Some(vec![x[0] * x[1]]));
    g!("mul_add", 3, |b: &mut B<C>, t: &[T<C>]| vec![b.mul_add(t[0], t[1], t[2])], |x: &[S<C>]| Some(vec![x[0] * x[1] + x[2]]));
    g!("mul_sub", 3, |b: &mut B<C>, t: &[T<C>]| vec![b.mul_sub(t[0], t[1], t[2])], |x: &[S<C>]| Some(vec![x[0] * x[1] - x[2]]));
    g!("neg/double/square", 1, |b: &mut B<C>, t: &[T<C>]| vec![b.neg(t[0]), b.double(t[0]), b.square(t[0])], |x: &[S<C>]| Some(vec![S::<C>::ZERO - x[0], x[0] + x[0], x[0] * x[0]]));
    for n in 0..5usize {
        g!(&format!("add_many/{}", n), n, |b: &mut B<C>, t: &[T<C>]| vec![b.add_many(t)], |x: &[S<C>]| Some(vec![x.iter().fold(S::<C>::ZERO, |a, y| a + *y)]));
        g!(&format!("mul_many/{}", n), n, |b: &mut B<C>, t: &[T<C>]| vec![b.mul_many(t)], |x: &[S<C>]| Some(vec![x.iter().fold(S::<C>::ONE, |a, y| a * *y)]));
    }
    for e in vec![0usize, 1, 2, 3, 5, 6, 11, 31, 64] {
        g!(&format!("exp_constant_usize/{}", e), 1, move |b: &mut B<C>, t: &[T<C>]| vec![b.exp_constant_usize(t[0], e), b.exp_constant(t[0], S::<C>::from_canonical_u64(e as u64))],
           move |x: &[S<C>]| { let p = (0..e).fold(S::<C>::ONE, |a, _| a * x[0]); Some(vec![p, p]) });
    }
    g!("inv", 1, |b: &mut B<C>, t: &[T<C>]| vec![b.inv(t[0])], |x: &[S<C>]| if x[0].is_zero() { None } else { Some(vec![of(&inv_mod(&val(&x[0]), &S::<C>::p()))]) });
    g!("div", 2, |b: &mut B<C>, t: &[T<C>]| vec![b.div(t[0], t[1])], |x: &[S<C>]| if x[1].is_zero() { None } else { Some(vec![x[0] * of(&inv_mod(&val(&x[1]), &S::<C>::p()))]) });
    g!("not", 1, |b: &mut B<C>, t: &[T<C>]| vec![b.not(t[0])], |x: &[S<C>]| Some(vec![S::<C>::ONE - x[0]]));
    g!("is_zero/is_nonzero", 1, |b: &mut B<C>, t: &[T<C>]| vec![b.is_zero(t[0]), b.is_nonzero(t[0])], |x: &[S<C>]| Some(vec![b2f(x[0].is_zero()), b2f(!x[0].is_zero())]));
    g!("is_equal/is_not_equal", 2, |b: &mut B<C>, t: &[T<C>]| vec![b.is_equal(t[0], t[1]), b.is_not_equal(t[0], t[1])], |x: &[S<C>]| Some(vec![b2f(x[0] == x[1]), b2f(x[0] != x[1])]));
    g!("select", 3, |b: &mut B<C>, t: &[T<C>]| vec![b.select(t[0], t[1], t[2])], |x: &[S<C>]| if x[0].is_zero() { Some(vec![x[2]]) } else if x[0] == S::<C>::ONE { Some(vec![x[1]]) } else { None });
    g!("constant_wire", 0, |b: &mut B<C>, _t: &[T<C>]| { let mut o = vec![b.zero_wire(), b.one_wire(), b.two_wire(), b.neg_one_wire(), b.constant_wire_u32(77)]; o.extend(b.constant_wires(&[S::<C>::THREE, S::<C>::FIVE, S::<C>::THREE])); o },
       |_x: &[S<C>]| Some(vec![S::<C>::ZERO, S::<C>::ONE, S::<C>::ONE + S::<C>::ONE, S::<C>::ZERO - S::<C>::ONE, ofu(77), ofu(3), ofu(5), ofu(3)]));
    macro_rules! a { ($nm:expr, $n:expr, $b:expr, $s:expr) => { asrt::<C, I>(v, $nm, $n, Box::new($b), Box::new($s)); } }
    a!("assert_zero", 1, |b: &mut B<C>, t: &[T<C>]| b.assert_zero(t[0]), |x: &[S<C>]| x[0].is_zero());
    a!("assert_one", 1, |b: &mut B<C>, t: &[T<C>]| b.assert_one(t[0]), |x: &[S<C>]| x[0] == S::<C>::ONE);
    a!("assert_binary", 1, |b: &mut B<C>, t: &[T<C>]| b.assert_binary(t[0]), |x: &[S<C>]| x[0].is_zero() || x[0] == S::<C>::ONE);
    a!("assert_nonzero", 1, |b: &mut B<C>, t: &[T<C>]| b.assert_nonzero(t[0]), |x: &[S<C>]| !x[0].is_zero());
    a!("copy", 2, |b: &mut B<C>, t: &[T<C>]| b.copy(t[0], t[1]), |x: &[S<C>]| x[0] == x[1]);
    a!("conditional_copy", 3, |b: &mut B<C>, t: &[T<C>]| { b.assert_binary(t[0]); b.conditional_copy(t[0], t[1], t[2]) }, |x: &[S<C>]| x[0].is_zero() || x[0] == S::<C>::ONE && x[1] == x[2]);
    a!("ordering_assert_valid", 3, |b: &mut B<C>, t: &[T<C>]| b.ordering_assert_valid(OrderingTarget { lt: t[0], eq: t[1], gt: t[2] }),
       |x: &[S<C>]| x.iter().all(|y| y.is_zero() || *y == S::<C>::ONE) && x.iter().filter(|y| **y == S::<C>::ONE).count() == 1);
}
pub fn c29(v: &mut Vec<Case>) { c29c::<Tweedledee, Tweedledum>(v); c29c::<Tweedledum, Tweedledee>(v); }
fn c29c<C: HaloCurve, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>) where S<C>: Fld {
    gad::<C, I>(v, "deterministic_square_root", 1, Box::new(|b: &mut B<C>, t: &[T<C>]| { let q = b.square(t[0]); vec![b.deterministic_square_root(q)] }),
        Box::new(|x: &[S<C>]| { let y = S::<C>::ZERO - x[0]; let q = if val(&x[0]).is_even() { x[0] } else { y }; if val(&q).bits() > 254 { None } else { Some(vec![q]) } }));
    for n in vec![7usize, 14] {
        asrt::<C, I>(v, &format!("assert_all_base_4/{}", n), n, Box::new(|b: &mut B<C>, t: &[T<C>]| b.assert_all_base_4(t)), Box::new(|x: &[S<C>]| x.iter().all(|y| val(y) < BigUint::from(4u8))));
    }
}

// ---- C30
fn rbig(r: &mut R, bits: usize) -> BigUint {
    let m = BigUint::one() << bits;
    match r.gen_range(0, 7) {
        0 => BigUint::from(r.gen_range(0u32, 3)),
        1 => &m - 1u32 - r.gen_range(0u32, 3).min(if bits < 3 { 0 } else { 2 }),
        2 => (BigUint::one() << r.gen_range(0, bits)) - if coin(r, 2) { 1u32 } else { 0 },
        3 => { let k = 86 * r.gen_range(0, 5); ((BigUint::one() << k) - if coin(r, 2) { 1u32 } else { 0 }) % &m }
        _ => { let mut x = BigUint::zero(); for _ in 0..(bits / 64 + 1) { x = (x << 64) + r.gen::<u64>(); } x % &m }
    }
}
type BI<C> = BigIntTarget<S<C>>;
fn bgad<C: HaloCurve, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>, name: &str, n: usize, consts: bool,
    bld: Box<dyn Fn(&mut B<C>, &[BI<C>]) -> (Vec<BI<C>>, Vec<T<C>>) + Send + Sync>, spec: Box<dyn Fn(&[BigUint]) -> Option<(Vec<BigUint>, Vec<S<C>>)> + Send + Sync>) where S<C>: Fld {
    let name = format!("{}/{}", name, std::any::type_name::<C>().rsplit("::").next().unwrap());
    let nm = name.clone();
    rnd(v, &name, move |r, _| {
        let mut xs: Vec<BigUint> = vec![]; let mut maxs: Vec<BigUint> = vec![];
        for i in 0..n {
            let bits = if i == 0 { r.gen_range(1, 300) } else { r.gen_range(1, 260) };
            let x: BigUint = rbig(r, bits);
            let x: BigUint = if i > 0 && coin(r, 5) { xs[0].clone() } else if i > 0 && coin(r, 6) { &xs[0] + 1u32 } else { x };
            let max = match r.gen_range(0, 3) { 0 => x.clone(), 1 => (BigUint::one() << (x.bits() as usize)) - 1u32, _ => (BigUint::one() << (x.bits() as usize / 86usize * 86usize + 86usize)) - 1u32 };
            let max = if max.is_zero() { BigUint::one() } else { max };
            xs.push(x); maxs.push(max);
        }
        let inp = format!("{:?} max {:?}", xs, maxs);
        note(inp.clone());
        let (wb, wt) = match spec(&xs) { Some(w) => w, None => return Ok(false) };
        let mut b = B::<C>::new(128);
        let ts: Vec<BI<C>> = if consts { xs.iter().map(|x| b.constant_bigint(x)).collect() } else { maxs.iter().map(|m| b.add_virtual_bigint_target(m, true)).collect() };
        let (ob, ot) = bld(&mut b, &ts);
        let circ = b.build();
        let mut w = PartialWitness::new();
        if !consts { for (t, x) in ts.iter().zip(xs.iter()) { w.set_bigint_target(t, x); } }
        let wit = circ.generate_partial_witness(w);
        let run = Ran { circ, wit };
        for (i, (o, x)) in ob.iter().zip(wb.iter()).enumerate() {
            let got = run.wit.get_bigint_target(o);
            ck!(format!("{}/value", nm), got == *x, "output {} is {}, expected {}; inputs {}", i, got, x, inp);
            ck!(format!("{}/bound", nm), got <= o.max, "output {} = {} exceeds its declared bound {}; inputs {}", i, got, o.max, inp);
            for l in &o.limbs { ck!(format!("{}/limb", nm), val(&run.get(*l)).bits() <= 86, "limb out of range; inputs {}", inp); }
        }
        for (o, x) in ot.iter().zip(wt.iter()) { ck!(format!("{}/value", nm), run.get(*o) == *x, "got {:?}, expected {:?}; inputs {}", run.get(*o), x, inp); }
        if let Some(m) = run.satisfied::<I>() { return fail(format!("{}/unsatisfied", nm), format!("{}; inputs {}", m, inp)); }
        let mut all: Vec<T<C>> = ot.clone(); for o in &ob { all.extend(o.limbs.iter().cloned()); }
        if !all.is_empty() {
            let o = all[r.gen_range(0, all.len())];
            let bad = run.get(o) + S::<C>::from_canonical_u64(r.gen_range(1, 5));
            ck!(format!("{}/unconstrained", nm), run.forced::<I>(o, bad), "output limb {:?} = {:?} also satisfies every constraint; inputs {}", o, bad, inp);
        }
        let mut given: Vec<(T<C>, S<C>)> = vec![];
        if !consts { for t in &ts { for l in &t.limbs { given.push((*l, run.get(*l))); } } }
        if let (true, ok) = forge_split::<C, I>(&run.circ, &given, r.gen_range(0, 3)) {
            ck!(format!("{}/forged", nm), !ok, "limbs encoding another integer (plus a multiple of the field order) satisfy every constraint; inputs {}", inp);
        }
        Ok(true)
    });
}
pub fn c30(v: &mut Vec<Case>) { c30c::<Tweedledee, Tweedledum>(v); c30c::<Tweedledum, Tweedledee>(v); }
fn c30c<C: HaloCurve, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>) where S<C>: Fld, C::BaseField: Fld {
    let ord = |o: OrderingTarget<S<C>>| vec![o.lt, o.eq, o.gt];
    for &k in &[false, true] {
        let t = |n: &str| format!("{}{}", n, if k { "/constants" } else { "" });
        bgad::<C, I>(v, &t("bigint_add"), 2, k, Box::new(|b, x| (vec![b.bigint_add(&x[0], &x[1])], vec![])), Box::new(|x| Some((vec![&x[0] + &x[1]], vec![]))));
        bgad::<C, I>(v, &t("bigint_add_many"), 4, k, Box::new(|b, x| (vec![b.bigint_add_many(x)], vec![])), Box::new(|x| Some((vec![x.iter().sum()], vec![]))));
        bgad::<C, I>(v, &t("bigint_mul"), 2, k, Box::new(|b, x| (vec![b.bigint_mul(&x[0], &x[1])], vec![])), Box::new(|x| Some((vec![&x[0] * &x[1]], vec![]))));
        bgad::<C, I>(v, &t("bigint_cmp"), 2, k, Box::new(move |b, x| { let o = b.bigint_cmp(&x[0], &x[1]); (vec![], ord(o)) }),
            Box::new(|x| Some((vec![], vec![b2f(x[0] < x[1]), b2f(x[0] == x[1]), b2f(x[0] > x[1])]))));
        bgad::<C, I>(v, &t("bigint_div_rem"), 2, k, Box::new(|b, x| { let (d, m) = b.bigint_div_rem(&x[0], &x[1]); (vec![d, m], vec![]) }),
            Box::new(|x| if x[1].is_zero() { None } else { let (d, m) = x[0].div_rem(&x[1]); Some((vec![d, m], vec![])) }));
    }
    let n = std::any::type_name::<C>().rsplit("::").next().unwrap();
    // a quotient and remainder of x plus a multiple of a power of 2^86 must be refused
    rnd(v, &format!("bigint_div_rem/wrap/{}", n), move |r, _| {
        let (xb, yb) = (r.gen_range(1usize, 262), r.gen_range(1usize, 175));
        let one = BigUint::one();
        // also bounds whose product stays just below a power of 2^86
        let (xm, ym) = if coin(r, 2) { ((&one << xb) - &one, (&one << yb) - &one) } else { (&one << (86 * r.gen_range(1usize, 4)), (&one << (86 * r.gen_range(1usize, 3))) - &one) };
        let y: BigUint = if coin(r, 2) { ym.clone() } else { rbig(r, yb) % &ym + &one };
        let x: BigUint = rbig(r, xb) % (&xm + &one);
        let inp = format!("{} / {}, bounds {} and {}", x, y, xm, ym); note(inp.clone());
        let mut b = B::<C>::new(128);
        let (xt, yt) = (b.add_virtual_bigint_target(&xm, true), b.add_virtual_bigint_target(&ym, true));
        let (dt, rt) = b.bigint_div_rem(&xt, &yt);
        let circ = b.build();
        let base = BigUint::one() << 86usize;
        let dig = |v: &BigUint, t: &BI<C>| -> Option<Vec<(T<C>, S<C>)>> {
            if v.bits() as usize > 86 * t.limbs.len() { return None; }
            Some(t.limbs.iter().enumerate().map(|(i, l)| (*l, biguint_to_field((v >> (86 * i)) % &base))).collect())
        };
        let mut any = false;
        { let (d, m) = x.div_rem(&y); let given = [dig(&x, &xt).unwrap(), dig(&y, &yt).unwrap(), dig(&d, &dt).unwrap(), dig(&m, &rt).unwrap()].concat();
          ck!("bigint_div_rem/honest", forge_split::<C, I>(&circ, &given, usize::MAX).1, "the quotient and remainder are refused; inputs {}", inp); }
        for k in 1..8usize {
            let w = &x + (BigUint::one() << (86 * k));
            let (d, m) = w.div_rem(&y);
            let (gd, gm) = match (dig(&d, &dt), dig(&m, &rt)) { (Some(a), Some(b)) => (a, b), _ => continue };
            any = true;
            let given = [dig(&x, &xt).unwrap(), dig(&y, &yt).unwrap(), gd, gm].concat();
            let (_, ok) = forge_split::<C, I>(&circ, &given, usize::MAX);
            ck!("bigint_div_rem/wrap", !ok, "quotient {} and remainder {} satisfy every constraint; inputs {}", d, m, inp);
        }
        Ok(any)
    });
    rnd(v, &format!("foreign_field/{}", n), move |r, i| {
        let (x, y): (C::BaseField, C::BaseField) = (if i == 1 { C::BaseField::ZERO } else { elem(r) }, if i == 2 { C::BaseField::ZERO } else { elem(r) });
        let inp = format!("{:?} {:?}", x, y); note(inp.clone());
        let mut b = B::<C>::new(128);
        let (xt, yt) = (b.constant_foreign_field(x), b.constant_foreign_field(y));
        let (s, p) = (b.foreign_field_add::<C::BaseField>(&xt, &yt), b.foreign_field_mul::<C::BaseField>(&xt, &yt));
        let run = Ran::new(b, &[]);
        let (gs, gp) = (run.wit.get_bigint_target(&s.value), run.wit.get_bigint_target(&p.value));
        let q = C::BaseField::p();
        ck!("foreign_field_add", gs == (val(&x) + val(&y)) % &q, "{} gives {}", inp, gs);
        ck!("foreign_field_mul", gp == (val(&x) * val(&y)) % &q, "{} gives {}", inp, gp);
        if let Some(m) = run.satisfied::<I>() { return fail("foreign_field/unsatisfied", format!("{}; inputs {}", m, inp)); }
        Ok(true)
    });
}

// ---- C31
use crate::curve::*;
/// recorded finding: the honest witness of the endomorphism MSM with one part and scalar 5
fn c31endo(v: &mut Vec<Case>) {
    type I = Tweedledum; type C = Tweedledee;
    for inv in [false, true].iter().cloned() {
        let nm = if inv { "curve_mul_inv_endo/scalar=5" } else { "curve_mul_endo/scalar=5" };
        case(v, nm, 1, move |_, _| {
            let five = S::<C>::FIVE; let g = Some((I::GENERATOR_AFFINE.x, I::GENERATOR_AFFINE.y));
            let k = val(&plonky::plonk_util::halo_n::<I>(&five.to_canonical_bool_vec()[..128]));
            let k = if inv { { let q = <I as Curve>::ScalarField::p(); k.modpow(&(&q - 2u32), &q) } } else { k };
            let want = rmul::<I>(&k, g);
            let got = trap(|| {
                let mut b = B::<C>::new(128);
                let s = b.constant_wire(five); let p = b.constant_affine_point::<I>(I::GENERATOR_AFFINE);
                let o = if inv { b.curve_mul_inv_endo::<I>(CurveMulOp { scalar: s, point: p }) } else { b.curve_mul_endo::<I>(CurveMulOp { scalar: s, point: p }) };
                let run = Ran::new(b, &[]);
                (run.satisfied::<I>(), (run.get(o.mul_result.x), run.get(o.mul_result.y)))
            });
            match got {
                Ok((sat, xy)) => {
                    ck!(nm, Some(xy) == want, "scalar 5 times the generator: got {:?}, expected {:?}", xy, want);
                    if let Some(m) = sat { return fail(nm, format!("scalar 5, generator: the honest witness is rejected: {}", m)); }
                }
                Err(m) => return fail(nm, format!("scalar 5, generator: no witness: {}", m)),
            }
            Ok(true)
        });
    }
}
pub fn c31(v: &mut Vec<Case>) { c31endo(v); c31c::<Tweedledee, Tweedledum>(v); c31c::<Tweedledum, Tweedledee>(v); c31c::<Pallas, Vesta>(v); }
fn nz<I: Crv>(r: &mut R) -> Pt<I> { loop { let p = rpoint::<I>(r); if p.is_some() { return p; } } }
fn c31c<C: HaloCurve, I: Crv + HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>) where S<C>: Fld, I::ScalarField: Fld {
    for op in 0..4usize {
        let nm = format!("{}/{}", ["curve_add", "curve_sub", "curve_double", "curve_neg"][op], std::any::type_name::<C>().rsplit("::").next().unwrap());
        rnd(v, &nm.clone(), move |r, _| {
            let (p, q) = (nz::<I>(r), nz::<I>(r));
            let (x1, y1) = p.unwrap(); let (x2, y2) = q.unwrap();
            if op < 2 && x1 == x2 || op == 2 && y1.is_zero() { return Ok(false); }
            let inp = format!("{:?} {:?}", p, q); note(inp.clone());
            let want = match op { 0 => radd::<I>(p, q), 1 => radd::<I>(p, rneg::<I>(q)), 2 => radd::<I>(p, p), _ => rneg::<I>(p) };
            let mut b = B::<C>::new(128);
            let ts: Vec<AffinePointTarget<I>> = b.add_virtual_point_targets(2);
            for t in &ts { b.curve_assert_valid::<I>(*t); }
            let o = match op { 0 => b.curve_add::<I>(ts[0], ts[1]), 1 => b.curve_sub::<I>(ts[0], ts[1]), 2 => b.curve_double::<I>(ts[0]), _ => b.curve_neg::<I>(ts[0]) };
            let circ = b.build(); let mut w = PartialWitness::new();
            w.set_point_targets(&ts, &[mk_a::<I>(&p), mk_a::<I>(&q)]);
            let wit = circ.generate_partial_witness(w); let run = Ran { circ, wit };
            let got = (run.get(o.x), run.get(o.y));
            ck!(format!("{}/value", nm), Some(got) == want, "got {:?}, expected {:?}; inputs {}", got, want, inp);
            if let Some(m) = run.satisfied::<I>() { return fail(format!("{}/unsatisfied", nm), format!("{}; inputs {}", m, inp)); }
            let t = if coin(r, 2) && op != 3 { o.x } else { o.y };
            let bad = run.get(t) + S::<C>::from_canonical_u64(r.gen_range(1, 5));
            ck!(format!("{}/unconstrained", nm), run.forced::<I>(t, bad), "another output satisfies every constraint; inputs {}", inp);
            Ok(true)
        });
    }
    let nm = format!("curve_assert_valid/{}", std::any::type_name::<C>().rsplit("::").next().unwrap());
    rnd(v, &nm.clone(), move |r, _| {
        let (mut x, mut y) = nz::<I>(r).unwrap();
        match r.gen_range(0, 4) { 0 => x = x + S::<C>::ONE, 1 => y = elem(r), _ => {} }
        let ok = on::<I>(&Some((x, y)));
        let inp = format!("{:?} {:?}", x, y); note(inp.clone());
        let got = trap(|| {
            let mut b = B::<C>::new(128);
            let t: AffinePointTarget<I> = b.add_virtual_point_target();
            b.curve_assert_valid::<I>(t);
            Ran::new(b, &[(t.x, x), (t.y, y)]).satisfied::<I>()
        });
        let sat = match got { Ok(None) => true, _ => false };
        ck!(nm.clone(), sat == ok, "({}) is {} the curve but {}", inp, if ok { "on" } else { "off" }, if sat { "accepted" } else { "rejected" });
        Ok(true)
    });
    let nm = format!("curve_msm/{}", std::any::type_name::<C>().rsplit("::").next().unwrap());
    rnd(v, &nm.clone(), move |r, i| {
        let k = if i == 0 { 1 } else { r.gen_range(1, 3) };
        let f_bits = S::<C>::BITS as u64 - 1;
        let ss: Vec<S<C>> = (0..k).map(|_| loop { let s: S<C> = elem(r); if val(&s).bits() <= f_bits { break s; } }).collect();
        let ps: Vec<Pt<I>> = (0..k).map(|_| nz::<I>(r)).collect();
        let inp = format!("{:?} {:?}", ss, ps); note(inp.clone());
        let mut want: Pt<I> = None;
        for (s, p) in ss.iter().zip(ps.iter()) { want = radd::<I>(want, rmul::<I>(&val(s), *p)); }
        if want.is_none() { return Ok(false); }
        let mut b = B::<C>::new(128);
        let st = b.add_virtual_targets(k);
        let pt: Vec<AffinePointTarget<I>> = b.add_virtual_point_targets(k);
        let parts: Vec<CurveMulOp<C, I>> = (0..k).map(|j| CurveMulOp { scalar: st[j], point: pt[j] }).collect();
        let o = if k == 1 { b.curve_mul::<I>(CurveMulOp { scalar: st[0], point: pt[0] }) } else { b.curve_msm::<I>(&parts) };
        let circ = b.build(); let mut w = PartialWitness::new();
        w.set_targets(&st, &ss);
        for j in 0..k { w.set_point_target(pt[j], mk_a::<I>(&ps[j])); }
        let wit = circ.generate_partial_witness(w); let run = Ran { circ, wit };
        let got = (run.get(o.x), run.get(o.y));
        ck!(format!("{}/value", nm), Some(got) == want, "got {:?}, expected {:?}; inputs {}", got, want, inp);
        if let Some(m) = run.satisfied::<I>() { return fail(format!("{}/unsatisfied", nm), format!("{}; inputs {}", m, inp)); }
        Ok(true)
    });
}
