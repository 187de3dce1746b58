//! C21-C27, C32, C33: partitions, witnesses, serialization, commitments, opening argument, verifier, lookups, hashing.
use crate::circ::{wire, Ran, B, S, T};
use crate::curve::*;
use crate::fw::*;
use crate::gen::*;
use num::BigUint;
use plonky::halo::{batch_opening_proof, verify_ipa};
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util as pu;
use plonky::*;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

fn one<F: Field>() -> F { F::ONE }
fn zero<F: Field>() -> F { F::ZERO }
fn vt<F: Field>(i: usize) -> Target<F> { Target::VirtualTarget(VirtualTarget { index: i }) }

// ---------------------------------------------------------------------------------------------- C21
pub fn c21(v: &mut Vec<Case>) { part::<TweedledeeBase>(v); part::<Bls12377Scalar>(v); c21b::<Tweedledee>(v); c21b::<Vesta>(v); }
fn find(u: &mut Vec<usize>, x: usize) -> usize { let mut r = x; while u[r] != r { r = u[r]; } u[x] = r; r }
fn part<F: Fld>(v: &mut Vec<Case>) {
    let nm = format!("{}.partitions", F::NAME);
    rnd(v, &nm.clone(), move |r, _| {
        let g = r.gen_range(1, 6); let nv = r.gen_range(0, 8);
        let mut ts: Vec<Target<F>> = vec![];
        for i in 0..g { for j in 0..9 { ts.push(wire(i, j)); } }
        for i in 0..nv { ts.push(vt(i)); }
        // random insertion order
        for i in (1..ts.len()).rev() { let j = r.gen_range(0, i + 1); ts.swap(i, j); }
        let n = ts.len();
        let mergeable: Vec<usize> = (0..n).filter(|&i| match ts[i] { Target::Wire(w) => w.input < 6, _ => true }).collect();
        let mut u: Vec<usize> = (0..n).collect();
        let mut tp = TargetPartitions::<F>::new();
        let mut added = 0; let mut hist = vec![];
        let ops = r.gen_range(0, 40);
        let early = coin(r, 2);
        if !early { for t in &ts { tp.add_partition(*t); } added = n; }
        for _ in 0..ops {
            if added < n && coin(r, 2) { for _ in 0..r.gen_range(1, 6) { if added < n { tp.add_partition(ts[added]); hist.push(format!("add {:?}", ts[added])); added += 1; } } }
            let c: Vec<usize> = mergeable.iter().cloned().filter(|&i| i < added).collect();
            if c.is_empty() { continue; }
            let k = if coin(r, 3) { c.len().min(4) } else { c.len() };
            let (a, b) = (c[r.gen_range(0, k)], c[r.gen_range(0, k)]);
            hist.push(format!("merge {:?} {:?}", ts[a], ts[b]));
            tp.merge(ts[a], ts[b]);
            let (x, y) = (find(&mut u, a), find(&mut u, b)); u[x] = y;
        }
        while added < n { tp.add_partition(ts[added]); added += 1; }
        let inp = format!("{} gates, {} virtual targets: {}", g, nv, hist.join(", ")); note(inp.clone());
        let cls: Vec<usize> = (0..n).map(|i| find(&mut u, i)).collect();
        for i in 0..n {
            let p = tp.get_partition(ts[i]);
            let want: BTreeSet<String> = (0..n).filter(|&j| cls[j] == cls[i]).map(|j| format!("{:?}", ts[j])).collect();
            let got: BTreeSet<String> = p.iter().map(|t| format!("{:?}", t)).collect();
            ck!(format!("{}/classes", nm), want == got, "class of {:?} is {:?}, expected {:?}; {}", ts[i], got, want, inp);
            ck!(format!("{}/dup", nm), p.len() == got.len(), "class of {:?} lists a target twice; {}", ts[i], inp);
        }
        let wp = tp.to_wire_partitions();
        let s = wp.to_sigma();
        ck!(format!("{}/sigma_len", nm), s.len() == 6 * g, "{} entries; {}", s.len(), inp);
        let mut seen = vec![false; 6 * g];
        for &x in &s { ck!(format!("{}/bijection", nm), x < 6 * g && !seen[x], "sigma is not a bijection: {:?}; {}", s, inp); seen[x] = true; }
        let idx: HashMap<usize, usize> = (0..n).filter_map(|i| match ts[i] { Target::Wire(w) if w.input < 6 => Some((w.input * g + w.gate, i)), _ => None }).collect();
        for (&p, &i) in &idx {
            let mut cyc = BTreeSet::new(); let mut q = p;
            loop { cyc.insert(q); q = s[q]; if q == p { break; } if cyc.len() > 6 * g { break; } }
            let want: BTreeSet<usize> = idx.iter().filter(|(_, &j)| cls[j] == cls[i]).map(|(&q, _)| q).collect();
            ck!(format!("{}/cycles", nm), cyc == want, "cycle of {:?} is {:?}, expected {:?}; {}", ts[i], cyc, want, inp);
        }
        Ok(true)
    });
}
/// copy constraints through the builder: classes and sigma polynomials of the compiled circuit
fn c21b<C: HaloCurve + Crv>(v: &mut Vec<Case>) where S<C>: Fld {
    let nm = format!("{}.circuit", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let mut b = B::<C>::new(128);
        let ng = r.gen_range(1, 6); let nv = r.gen_range(1, 5); let np = if coin(r, 2) { 0 } else { r.gen_range(1, 12) };
        for i in 0..ng { b.add_gate(BufferGate::<C>::new(i), vec![]); }
        let vs = b.add_virtual_targets(nv); let ps = b.add_public_inputs(np);
        let mut pool: Vec<T<C>> = vs.clone(); pool.extend(ps.iter().cloned());
        for i in 0..ng { for j in 0..6 { pool.push(wire(i, j)); } }
        let mut cps = vec![];
        for _ in 0..r.gen_range(0, 12) { let k = if coin(r, 2) { pool.len().min(5) } else { pool.len() }; let (x, y) = (pool[r.gen_range(0, k)], pool[r.gen_range(0, k)]); b.copy(x, y); cps.push((x, y)); }
        let inp = format!("{} gates, {} virtual, {} public inputs, copies {:?}", ng, nv, np, cps); note(inp.clone());
        let c = b.build();
        let off = c.num_gates_without_pis; let n = c.degree();
        // a public input stands for its routable wire
        let res = |t: T<C>| match t { Target::PublicInput(p) => { let (g, i) = (off + 2 * (p.index / 9), p.index % 9); if i >= 6 { wire(g + 1, i - 6) } else { wire(g, i) } } t => t };
        let mut ids: HashMap<T<C>, usize> = HashMap::new(); let mut u: Vec<usize> = vec![];
        let mut all: Vec<T<C>> = vec![]; for g in 0..n { for i in 0..6 { all.push(wire(g, i)); } } all.extend(vs.iter().cloned());
        for t in &all { ids.insert(*t, u.len()); u.push(u.len()); }
        for (x, y) in &cps { let (x, y) = (find(&mut u, ids[&res(*x)]), find(&mut u, ids[&res(*y)])); u[x] = y; }
        let cls: Vec<usize> = (0..u.len()).map(|i| find(&mut u, i)).collect();
        let mut groups: BTreeMap<usize, Vec<usize>> = BTreeMap::new(); for i in 0..all.len() { groups.entry(cls[i]).or_default().push(i); }
        for g in groups.values().filter(|g| g.len() > 1 || coin(r, 20)) { for &i in g {
            let got: BTreeSet<usize> = c.routing_target_partitions.get_partition(all[i]).iter().filter_map(|t| ids.get(t).cloned()).collect();
            ck!(format!("{}/classes", nm), got == g.iter().cloned().collect(), "class of {:?} has {} targets, expected {}; {}", all[i], got.len(), g.len(), inp);
        } }
        // sigma polynomials: value of wire (g, j) is k_j' * w^g' for its successor
        let mut by: HashMap<Vec<u64>, usize> = HashMap::new();
        for g in 0..n { for j in 0..6 { by.insert((verif_hooks::get_subgroup_shift::<S<C>>(j) * c.subgroup_n[g]).to_canonical_u64_vec(), ids[&wire::<S<C>>(g, j)]); } }
        let mut succ: HashMap<usize, usize> = HashMap::new();
        for g in 0..n { for j in 0..6 {
            let x = c.s_sigma_values_8n[j][8 * g];
            let s = match by.get(&x.to_canonical_u64_vec()) { Some(s) => *s, None => return fail(format!("{}/sigma_value", nm), format!("sigma value of wire ({}, {}) encodes no wire; {}", g, j, inp)) };
            succ.insert(ids[&wire::<S<C>>(g, j)], s);
        } }
        ck!(format!("{}/sigma_bijection", nm), succ.values().collect::<BTreeSet<_>>().len() == 6 * n, "{}", inp);
        for g in groups.values() {
            let want: BTreeSet<usize> = g.iter().cloned().filter(|i| succ.contains_key(i)).collect();
            let p = match want.iter().next() { Some(p) => *p, None => continue };
            let mut cyc = BTreeSet::new(); let mut q = p; loop { cyc.insert(q); q = succ[&q]; if q == p { break; } }
            ck!(format!("{}/sigma_cycles", nm), cyc == want, "cycle of {:?} has {} wires, expected {}; {}", all[p], cyc.len(), want.len(), inp);
        }
        Ok(true)
    });
}

// ---------------------------------------------------------------------------------------------- C22
pub fn c22(v: &mut Vec<Case>) { c22c::<Tweedledee, Tweedledum>(v); c22c::<Pallas, Vesta>(v); }
fn c22c<C: HaloCurve + Crv, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>) where S<C>: Fld {
    let nm = format!("{}.routing", C::CN);
    rnd(v, &nm.clone(), move |r, it| {
        let n = if it < 30 { it } else { r.gen_range(0, 60) }; let pre = r.gen_range(0, 4);
        let mut b = B::<C>::new(128);
        for _ in 0..pre { let at = b.num_gates(); b.add_gate(BufferGate::<C>::new(at), vec![]); }
        let vals: Vec<S<C>> = (0..n).map(|i| if coin(r, 5) { zero() } else { let x: S<C> = unif(r); if coin(r, 2) { ofu(1000 + i as u64) } else { x } }).collect();
        let inp = format!("{} public inputs after {} gates: {:?}", n, pre, vals); note(inp.clone());
        let ps = if coin(r, 2) { b.add_public_inputs(n) } else { (0..n).map(|_| b.add_public_input()).collect() };
        let sq: Vec<_> = ps.iter().map(|&p| b.square(p)).collect();
        let vs = b.add_virtual_targets(n);
        for i in 0..n { if coin(r, 2) { b.copy(ps[i], vs[i]) } else { b.copy(vs[i], ps[i]) } }
        let via: Vec<bool> = (0..n).map(|_| coin(r, 4)).collect();
        // half the values enter through a copied virtual target
        let given: Vec<_> = (0..n).map(|i| (if via[i] { vs[i] } else { ps[i] }, vals[i])).collect();
        let run = Ran::<C>::new(b, &given);
        let off = run.circ.num_gates_without_pis;
        ck!(format!("{}/count", nm), run.circ.num_public_inputs == n, "{} public inputs recorded; {}", run.circ.num_public_inputs, inp);
        let mut used = BTreeSet::new();
        for i in 0..n {
            let w = wire(off + 2 * (i / 9), i % 9);
            let rt = if i % 9 >= 6 { wire(off + 2 * (i / 9) + 1, i % 9 - 6) } else { w };
            ck!(format!("{}/injective", nm), used.insert((i / 9, i % 9)), "{}", inp);
            ck!(format!("{}/wire", nm), run.get(w) == vals[i], "public input {} is {:?} at its wire {:?}; {}", i, run.get(w), w, inp);
            ck!(format!("{}/class", nm), run.circ.routing_target_partitions.get_partition(vs[i]).contains(&rt), "public input {} is not routed through {:?}; {}", i, rt, inp);
            ck!(format!("{}/use", nm), run.get(sq[i]) == vals[i] * vals[i] && run.get(vs[i]) == vals[i], "uses of public input {} see another value; {}", i, inp);
            ck!(format!("{}/gate", nm), is_prefix(&run.circ.gate_constants[off + 2 * (i / 9)], <PublicInputGate<C> as Gate<C>>::PREFIX), "row {} is no public input row; {}", off + 2 * (i / 9), inp);
        }
        if let Some(m) = run.satisfied::<I>() { return fail(format!("{}/unsatisfied", nm), format!("{}; {}", m, inp)); }
        let wit = Witness::from_partial(&run.wit, run.circ.degree());
        ck!(format!("{}/get_public_inputs", nm), run.circ.get_public_inputs(&wit) == vals, "get_public_inputs returns {:?}; {}", run.circ.get_public_inputs(&wit), inp);
        Ok(true)
    });
    let nm = format!("{}.verifier", C::CN);
    rnd(v, &nm.clone(), move |r, it| {
        let n = if it < 30 { it } else { r.gen_range(0, 60) }; let pre = r.gen_range(0, 5);
        let rows = 2 * ((n + 8) / 9) + pre; let degree = (rows + r.gen_range(0, 3)).max(1).next_power_of_two();
        let vals: Vec<S<C>> = (0..n).map(|_| unif(r)).collect(); let alpha: S<C> = elem(r);
        let inp = format!("{} public inputs, degree {}, offset {}, alpha {:?}, {:?}", n, degree, pre, alpha, vals); note(inp.clone());
        let fp = fft_precompute::<S<C>>(degree);
        let p = verif_hooks::public_inputs_to_polynomial::<S<C>>(&vals, alpha, degree, pre, if coin(r, 2) { Some(&fp) } else { None });
        let w = S::<C>::primitive_root_of_unity(degree.trailing_zeros() as usize);
        for g in 0..degree {
            let mut want: S<C> = zero();
            if g >= pre && (g - pre) % 2 == 0 { let mut a: S<C> = one(); for j in 0..9 { if let Some(x) = vals.get((g - pre) / 2 * 9 + j) { want = want + a * *x; } a = a * alpha; } }
            ck!(format!("{}/polynomial", nm), p.eval(w.exp_usize(g)) == want, "at row {} the public input polynomial is {:?}, expected {:?}; {}", g, p.eval(w.exp_usize(g)), want, inp);
        }
        Ok(true)
    });
}
fn is_prefix<F: Field>(k: &[F], p: &[bool]) -> bool { p.iter().enumerate().all(|(i, &b)| k[i] == if b { F::ONE } else { F::ZERO }) }

// ---------------------------------------------------------------------------------------------- C23
pub fn c23(v: &mut Vec<Case>) { c23p::<TweedledeeBase>(v); c23p::<PallasBase>(v); c23g::<Tweedledee>(v); c23g::<Pallas>(v); c23t::<Tweedledee>(v); c23t::<Vesta>(v); }
fn c23p<F: Fld>(v: &mut Vec<Case>) {
    let nm = format!("{}.partial", F::NAME);
    rnd(v, &nm.clone(), move |r, _| {
        let pool: Vec<Target<F>> = (0..4).map(vt).chain((0..4).map(|i| wire(i / 2, i % 2))).chain((0..3).map(|i| Target::PublicInput(PublicInput::new(i)))).collect();
        let mut w = PartialWitness::<F>::new(); let mut m: HashMap<Target<F>, F> = HashMap::new(); let mut hist = String::new();
        ck!(format!("{}/new", nm), w.is_empty() && w.all_populated_targets().is_empty(), "");
        for _ in 0..r.gen_range(1, 12) {
            let k = if coin(r, 4) { r.gen_range(0, 4) } else { 1 };
            let mut batch: Vec<(Target<F>, F)> = (0..k).map(|_| { let t = pool[r.gen_range(0, pool.len())]; let x = match m.get(&t) { Some(&x) if !coin(r, 6) => x, _ => ofu(r.gen_range(0, 3)) }; (t, x) }).collect();
            let kind = r.gen_range(0, 3);
            if kind == 2 { let mut s = std::collections::HashSet::new(); batch.retain(|(t, _)| s.insert(*t)); }
            hist += &format!("{} {:?}; ", ["set", "set_targets", "extend"][kind], batch); note(hist.clone());
            let mut conflict = false; let mut m2 = m.clone();
            for (t, x) in &batch { if let Some(o) = m2.insert(*t, *x) { if o != *x { conflict = true; break; } } }
            let mut w2 = PartialWitness::<F>::new(); for (t, x) in &m { w2.set_target(*t, *x); }
            let res = trap(std::panic::AssertUnwindSafe(|| {
                match kind {
                    0 => for (t, x) in &batch { match t { Target::Wire(g) if x.is_zero() => w2.set_wire(*g, *x), _ => w2.set_target(*t, *x) } },
                    1 => w2.set_targets(&batch.iter().map(|b| b.0).collect::<Vec<_>>(), &batch.iter().map(|b| b.1).collect::<Vec<_>>()),
                    _ => { let mut o = PartialWitness::new(); for (t, x) in &batch { o.set_target(*t, *x); } w2.extend(o) }
                }
                w2
            }));
            match (res, conflict) {
                (Ok(_), true) => return fail(format!("{}/conflict", nm), format!("conflicting assignment accepted: {}", hist)),
                (Err(e), false) => return fail(format!("{}/rejected", nm), format!("consistent assignment rejected ({}): {}", e, hist)),
                (Err(_), true) => return Ok(true),
                (Ok(x), false) => { w = x; m = m2; }
            }
            for t in &pool {
                ck!(format!("{}/contains", nm), w.contains_target(*t) == m.contains_key(t), "{:?}: {}", t, hist);
                if let Some(x) = m.get(t) { ck!(format!("{}/get", nm), w.get_target(*t) == *x, "{:?} is {:?}, expected {:?}: {}", t, w.get_target(*t), x, hist); }
                else { ck!(format!("{}/absent", nm), trap(std::panic::AssertUnwindSafe(|| w.get_target(*t))).is_err(), "{:?} was never set: {}", t, hist); }
                if let Target::Wire(g) = t { ck!(format!("{}/contains_wire", nm), w.contains_wire(*g) == m.contains_key(t), "{}", hist); if m.contains_key(t) { ck!(format!("{}/get_wire", nm), w.get_wire(*g) == m[t], "{}", hist); } }
            }
            let sub: Vec<_> = pool.iter().cloned().filter(|_| coin(r, 3)).collect();
            ck!(format!("{}/contains_all", nm), w.contains_all_targets(&sub) == sub.iter().all(|t| m.contains_key(t)), "{:?}: {}", sub, hist);
            let got: std::collections::HashSet<_> = w.all_populated_targets().into_iter().collect();
            ck!(format!("{}/populated", nm), got == m.keys().cloned().collect() && w.is_empty() == m.is_empty(), "{}", hist);
        }
        // dense form
        let wit = Witness::from_partial(&w, 4);
        for g in 0..4 { for j in 0..9 {
            let want = m.get(&wire(g, j)).cloned().unwrap_or(F::ZERO);
            ck!(format!("{}/from_partial", nm), wit.get(Wire { gate: g, input: j }) == want && wit.get_indices(g, j) == want && wit.transpose()[j][g] == want, "wire ({}, {}): {}", g, j, hist);
        } }
        Ok(true)
    });
}
/// typed setters and getters
fn c23t<C: HaloCurve + Crv>(v: &mut Vec<Case>) where S<C>: Fld {
    let nm = format!("{}.typed", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        type W<C> = PartialWitness<<C as Curve>::BaseField>;
        let mut w = W::<C>::new();
        let pts: Vec<AffinePoint<C>> = (0..3).map(|_| loop { let p = rpoint::<C>(r); if p.is_some() { break mk_a::<C>(&p); } }).collect();
        let tg: Vec<AffinePointTarget<C>> = (0..3).map(|i| AffinePointTarget { x: vt(2 * i), y: vt(2 * i + 1) }).collect();
        w.set_point_target(tg[0], pts[0]); w.set_point_targets(&tg[1..], &pts[1..]);
        for i in 0..3 {
            ck!(format!("{}/point", nm), w.get_point_target(tg[i]) == pts[i] && w.get_target(tg[i].x) == pts[i].x && w.get_target(tg[i].y) == pts[i].y, "{:?}", pts[i]);
        }
        let mut q = pts[0]; if coin(r, 2) { q.x = q.x + one::<C::BaseField>(); } else { q.y = q.y + one::<C::BaseField>(); }
        ck!(format!("{}/point_conflict", nm), trap(std::panic::AssertUnwindSafe(|| w.set_point_target(tg[0], q))).is_err(), "{:?} over {:?}", q, pts[0]);
        // orderings and big integers over the scalar field
        let mut w = PartialWitness::<S<C>>::new();
        for (i, o) in [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater].iter().enumerate() {
            let t = OrderingTarget { lt: vt(100 + 3 * i), eq: vt(101 + 3 * i), gt: vt(102 + 3 * i) };
            w.set_ordering_target(t.clone(), *o);
            let l: Vec<S<C>> = w.get_targets(&[t.lt, t.eq, t.gt]);
            ck!(format!("{}/ordering", nm), (0..3).all(|j| l[j] == if j == i { one() } else { zero() }) && w.get_ordering_target(t) == *o, "{:?}", o);
        }
        Ok(true)
    });
}
struct Gen<F: Field> { id: usize, deps: Vec<Target<F>>, out: Vec<Target<F>>, k: F, log: Arc<Mutex<Vec<usize>>>, bad: Arc<Mutex<Vec<String>>> }
fn gval<F: Field>(k: F, j: usize, d: &[F]) -> F { let mut s = k + F::from_canonical_usize(j); for (i, x) in d.iter().enumerate() { s = s + *x * F::from_canonical_usize(i + 2); } s }
impl<F: Field> WitnessGenerator<F> for Gen<F> {
    fn dependencies(&self) -> Vec<Target<F>> { self.deps.clone() }
    fn generate(&self, _c: &[Vec<F>], w: &PartialWitness<F>) -> PartialWitness<F> {
        self.log.lock().unwrap().push(self.id);
        let mut r = PartialWitness::new();
        for d in &self.deps { if !w.contains_target(*d) { self.bad.lock().unwrap().push(format!("generator {} ran before {:?} was known", self.id, d)); return r; } }
        let d: Vec<F> = self.deps.iter().map(|&d| w.get_target(d)).collect();
        for (j, o) in self.out.iter().enumerate() { r.set_target(*o, gval(self.k, j, &d)); }
        r
    }
}
fn c23g<C: HaloCurve + Crv>(v: &mut Vec<Case>) where S<C>: Fld {
    let nm = format!("{}.generators", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let mut b = B::<C>::new(128);
        let n = r.gen_range(2, 14);
        let pis = coin(r, 2); if pis && coin(r, 2) { b.add_public_inputs(r.gen_range(0, 8)); }
        let ts: Vec<T<C>> = (0..n).map(|_| if pis && coin(r, 3) { b.add_public_input() } else { b.add_virtual_target() }).collect();
        let cp: Vec<Vec<T<C>>> = ts.iter().map(|&t| { let k = r.gen_range(0, 3); let mut l = vec![t]; for _ in 0..k { let q = if pis && coin(r, 4) { b.add_public_input() } else { b.add_virtual_target() }; let p = l[r.gen_range(0, l.len())]; if coin(r, 2) { b.copy(p, q) } else { b.copy(q, p) }; l.push(q); } l }).collect();
        let log: Arc<Mutex<Vec<usize>>> = Default::default(); let bad: Arc<Mutex<Vec<String>>> = Default::default();
        let ni = r.gen_range(0, n); // targets 0..ni are given
        let withhold = ni > 0 && coin(r, 3); // the first input stays unknown
        let mut val: Vec<Option<S<C>>> = (0..n).map(|i| if i < ni { if withhold && i == 0 { None } else { Some(elem(r)) } } else { None }).collect();
        let mut gens: Vec<Gen<S<C>>> = vec![]; let mut runs = BTreeSet::new(); let mut desc = vec![];
        let mut i = ni;
        while i < n {
            let k: S<C> = ofu(r.gen_range(0, 50)); let outs = if i + 1 < n && coin(r, 3) { 2 } else { 1 };
            let mut deps = vec![]; let mut dv = vec![];
            for _ in 0..r.gen_range(0, 4) { if i == 0 { break; } let d = r.gen_range(0, i); let c = &cp[d]; deps.push(c[r.gen_range(0, c.len())]); dv.push(val[d]); }
            let id = gens.len();
            let out: Vec<T<C>> = (0..outs).map(|j| { let c = &cp[i + j]; c[r.gen_range(0, c.len())] }).collect();
            if dv.iter().all(|x| x.is_some()) { runs.insert(id); let d: Vec<S<C>> = dv.iter().map(|x| x.unwrap()).collect(); for j in 0..outs { val[i + j] = Some(gval(k, j, &d)); } }
            desc.push(format!("{:?} <- {:?}", out, deps));
            gens.push(Gen { id, deps, out, k, log: log.clone(), bad: bad.clone() });
            i += outs;
        }
        for i in (1..gens.len()).rev() { let j = r.gen_range(0, i + 1); gens.swap(i, j); }
        let mut c = b.build();
        for g in gens { c.generators.push(Box::new(g)); }
        let mut w = PartialWitness::new();
        for i in 0..ni { if let Some(x) = val[i] { let l = &cp[i]; w.set_target(l[r.gen_range(0, l.len())], x); } }
        let inp = format!("given {:?}, generators {}", w.all_populated_targets(), desc.join(", ")); note(inp.clone());
        let out = c.generate_partial_witness(w);
        if let Some(m) = bad.lock().unwrap().first() { return fail(format!("{}/order", nm), format!("{}; {}", m, inp)); }
        let l = log.lock().unwrap().clone(); let set: BTreeSet<usize> = l.iter().cloned().collect();
        ck!(format!("{}/once", nm), l.len() == set.len(), "a generator ran twice: {:?}; {}", l, inp);
        ck!(format!("{}/run", nm), set == runs, "generators {:?} ran, expected {:?}; {}", set, runs, inp);
        for i in 0..n { for t in &cp[i] {
            ck!(format!("{}/member", nm), out.contains_target(*t) == val[i].is_some(), "{:?}: known {}; {}", t, out.contains_target(*t), inp);
            if let Some(x) = val[i] { ck!(format!("{}/value", nm), out.get_target(*t) == x, "{:?} is {:?}, expected {:?}; {}", t, out.get_target(*t), x, inp); }
        } }
        Ok(true)
    });
    let nm2 = format!("{}.conflicting_inputs", C::CN);
    rnd(v, &nm2.clone(), move |r, _| {
        let mut b = B::<C>::new(128);
        let ts = b.add_virtual_targets(3); b.copy(ts[0], ts[1]); if coin(r, 2) { b.copy(ts[2], ts[1]); } else { b.copy(ts[1], ts[2]); }
        let c = b.build(); let x: S<C> = elem(r);
        let mut w = PartialWitness::new(); let i = r.gen_range(0, 3); let j = (i + r.gen_range(1, 3)) % 3;
        w.set_target(ts[i], x); w.set_target(ts[j], x + one());
        ck!(format!("{}/accepted", nm2), trap(std::panic::AssertUnwindSafe(|| { c.generate_partial_witness(w); })).is_err(), "targets {} and {} of one class given different values", i, j);
        Ok(true)
    });
}

// ---------------------------------------------------------------------------------------------- C24
pub fn c24(v: &mut Vec<Case>) {
    all_fields!(c24f, v); all_curves!(c24p, v);
    c24proof::<Tweedledee, Tweedledum>(v); c24proof::<Pallas, Vesta>(v);
}
fn c24f<F: Fld + serde::Serialize + serde::de::DeserializeOwned>(v: &mut Vec<Case>) {
    let nm = format!("{}.element", F::NAME);
    rnd(v, &nm.clone(), move |r, _| {
        let xs: Vec<F> = (0..r.gen_range(0, 4)).map(|_| elem(r)).collect();
        let inp = format!("{:?}", xs); note(inp.clone());
        let mut buf = vec![];
        for x in &xs { x.write(&mut buf).unwrap(); }
        ck!(format!("{}/size", nm), buf.len() == F::BYTES * xs.len(), "{} bytes; {}", buf.len(), inp);
        for (i, x) in xs.iter().enumerate() { ck!(format!("{}/bytes", nm), BigUint::from_bytes_le(&buf[i * F::BYTES..(i + 1) * F::BYTES]) == val(x), "{}", inp); }
        let mut s = &buf[..];
        for x in &xs { let y = F::read(&mut s); ck!(format!("{}/read", nm), y.as_ref().map(|y| y == x).unwrap_or(false), "read back {:?}; {}", y, inp); }
        ck!(format!("{}/aligned", nm), s.is_empty(), "{} bytes left; {}", s.len(), inp);
        let e = serde_cbor::to_vec(&xs).unwrap(); let d: Result<Vec<F>, _> = serde_cbor::from_slice(&e);
        ck!(format!("{}/serde", nm), d.map(|d| d == xs).unwrap_or(false), "{}", inp);
        // malformed
        let bytes: Vec<u8> = match r.gen_range(0, 4) { 0 => vec![0xff; F::BYTES], 1 => (F::p() + r.gen_range(0u64, 3)).to_bytes_le(), 2 => (F::p() - 1u32 - r.gen_range(0u64, 2)).to_bytes_le(), _ => (0..F::BYTES).map(|_| r.gen()).collect() };
        let mut bytes = bytes; bytes.resize(F::BYTES, 0);
        let x = BigUint::from_bytes_le(&bytes); let got = F::read(&bytes[..]);
        ck!(format!("{}/canonical", nm), got.is_ok() == (x < F::p()), "reading {:x} gives {:?}", x, got);
        if let Ok(y) = got { ck!(format!("{}/decoded", nm), val(&y) == x, "reading {:x} gives {:?}", x, y); }
        let k = r.gen_range(0, F::BYTES); let got = F::read(&vec![0u8; F::BYTES][..k]);
        ck!(format!("{}/truncated", nm), got.is_err(), "{} bytes gave {:?}", k, got);
        Ok(true)
    });
}
fn c24p<C: Crv>(v: &mut Vec<Case>) where C::BaseField: Fld {
    let nm = format!("{}.point", C::CN);
    let n2 = C::BaseField::BYTES;
    rnd(v, &nm.clone(), move |r, _| {
        let ps: Vec<AffinePoint<C>> = (0..r.gen_range(0, 5)).map(|_| { let p = if coin(r, 4) { None } else { rpoint::<C>(r) }; let mut a = mk_a::<C>(&p); if p.is_none() && coin(r, 3) { a.x = elem(r); a.y = elem(r); } a }).collect();
        let inp = format!("{:?}", ps); note(inp.clone());
        let mut buf = vec![]; let mut ends = vec![0];
        for p in &ps { p.write(&mut buf).unwrap(); ends.push(buf.len()); }
        let tail: C::BaseField = elem(r); tail.write(&mut buf).unwrap();
        let mut s = &buf[..]; let total = buf.len();
        for (i, p) in ps.iter().enumerate() {
            let q = AffinePoint::<C>::read(&mut s);
            ck!(format!("{}/read", nm), q.as_ref().map(|q| aff_of(q) == aff_of(p) && q == p).unwrap_or(false), "point {} read back as {:?}; {}", i, q, inp);
            ck!(format!("{}/aligned", nm), total - s.len() == ends[i + 1], "point {} was written as {} bytes and read as {}; {}", i, ends[i + 1] - ends[i], total - s.len() - ends[i], inp);
        }
        ck!(format!("{}/tail", nm), <C::BaseField as FromBytes>::read(&mut s).map(|t| t == tail).unwrap_or(false) && s.is_empty(), "{}", inp);
        let e = serde_cbor::to_vec(&ps).unwrap(); let d: Result<Vec<AffinePoint<C>>, _> = serde_cbor::from_slice(&e);
        ck!(format!("{}/serde", nm), d.map(|d| d == ps).unwrap_or(false), "{}", inp);
        for i in 0..ps.len() { let k = r.gen_range(ends[i], ends[i + 1]); let got = AffinePoint::<C>::read(&buf[ends[i]..k]); ck!(format!("{}/truncated", nm), got.is_err(), "{} of {} bytes gave {:?}", k - ends[i], ends[i + 1] - ends[i], got); }
        // arbitrary bytes
        let x: BigUint = match r.gen_range(0, 5) { 0 => C::BaseField::p() + r.gen_range(0u64, 3), 1 => C::BaseField::p() - r.gen_range(1u64, 4), 2 => r.gen_range(0u64, 20).into(), 3 => match rpoint::<C>(r) { Some(p) => val(&p.0), None => 0u32.into() }, _ => int_below(r, &C::BaseField::p(), C::BaseField::N) };
        let mask: u8 = if coin(r, 4) { r.gen() } else { 2 * r.gen_range(0u8, 2) };
        let mut bytes = vec![mask]; let mut xb = x.to_bytes_le(); xb.resize(n2, 0); bytes.extend(xb);
        let inp = format!("flag {} x {:x}", mask, x); note(inp.clone());
        let got = trap(|| AffinePoint::<C>::read(&bytes[..]));
        let got = match got { Ok(g) => g, Err(m) => return fail(format!("{}/decode_panic", nm), format!("{}; {}", m, inp)) };
        if mask > 3 { ck!(format!("{}/flag", nm), got.is_err(), "invalid flag accepted as {:?}; {}", got, inp); }
        else if mask & 1 == 1 { if let Ok(p) = got { ck!(format!("{}/identity", nm), p.zero, "{:?}; {}", p, inp); } }
        else {
            let xf: C::BaseField = of(&x); let rhs = xf * xf * xf + C::A * xf + C::B;
            let sq = rhs.is_zero() || val(&rhs).modpow(&((C::BaseField::p() - 1u32) >> 1), &C::BaseField::p()) == BigUint::from(1u32);
            let ok = x < C::BaseField::p() && sq && !(rhs.is_zero() && mask & 2 == 2);
            ck!(format!("{}/accepts", nm), got.is_ok() == ok, "decoding gives {:?}; {}", got, inp);
            if let Ok(p) = got { ck!(format!("{}/decoded", nm), !p.zero && val(&p.x) == x && p.y * p.y == rhs && (val(&p.y) & BigUint::from(1u32) == BigUint::from((mask >> 1) as u32)), "decoding gives {:?}; {}", p, inp); }
        }
        Ok(true)
    });
    let nm3 = format!("{}.order_two", C::CN);
    rnd(v, &nm3.clone(), move |r, i| {
        // points with y = 0 where the curve has one at a small x
        let x: C::BaseField = zero::<C::BaseField>() - one::<C::BaseField>() ; let _ = r;
        if i > 1 { return Ok(false); }
        if (x * x * x + C::A * x + C::B).is_nonzero() { return Ok(false); }
        let mut bytes = vec![2 * i as u8]; bytes.extend(x.to_canonical_u8_vec());
        let got = AffinePoint::<C>::read(&bytes[..]);
        ck!(format!("{}/sign", nm3), got.is_ok() == (i == 0), "x = -1, y = 0 with flag {} gives {:?}", 2 * i, got);
        Ok(true)
    });
}
fn c24proof<C: HaloCurve + Crv + serde::Serialize + serde::de::DeserializeOwned + Default + Eq, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>) where S<C>: Fld {
    let nm = format!("{}.proof", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let h = honest_proof::<C, I>(r);
        let mut proof = h.proof.clone();
        if coin(r, 3) { proof.c_wires.clear(); proof.halo_l.clear(); proof.o_below.o_old_proofs.clear(); }
        if coin(r, 3) { proof.halo_g = AffinePoint::ZERO; proof.o_right.o_wires = vec![]; }
        note(format!("{:?}", proof));
        let e = serde_cbor::to_vec(&proof).unwrap(); let d: Result<Proof<C>, _> = serde_cbor::from_slice(&e);
        ck!(format!("{}/roundtrip", nm), d.as_ref().map(|d| *d == proof).unwrap_or(false), "{:?}", d.err());
        ck!(format!("{}/truncated", nm), serde_cbor::from_slice::<Proof<C>>(&e[..e.len() - 1 - r.gen_range(0, e.len() / 2)]).is_err(), "");
        let mut vk = h.vk.clone(); if coin(r, 2) { vk.clear_fft_precomputation(); } if coin(r, 2) { vk.clear_msm_precomputation(); }
        let e = serde_cbor::to_vec(&vk).unwrap(); let d: Result<VerificationKey<C>, _> = serde_cbor::from_slice(&e);
        ck!(format!("{}/vk", nm), d.map(|d| d == vk).unwrap_or(false), "");
        Ok(true)
    });
}

// ---------------------------------------------------------------------------------------------- C25
pub fn c25(v: &mut Vec<Case>) { all_curves!(c25c, v); }
fn cpts<C: Crv>(r: &mut R, n: usize) -> Vec<AffinePoint<C>> { (0..n).map(|_| mk_a::<C>(&if coin(r, 12) { None } else { rpoint::<C>(r) })).collect() }
fn wsum<C: Crv>(s: &[C::ScalarField], p: &[AffinePoint<C>]) -> Pt<C> where C::ScalarField: Fld { s.iter().zip(p).fold(None, |a, (k, p)| radd::<C>(a, rmul::<C>(&val(k), aff_of(p)))) }
fn c25c<C: Crv>(v: &mut Vec<Case>) where C::ScalarField: Fld {
    let nm = format!("{}.commit", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let n = r.gen_range(0, 7); let gs = cpts::<C>(r, n); let h = mk_a::<C>(&loop { let p = rpoint::<C>(r); if p.is_some() { break p; } });
        let pre = msm_precompute(&AffinePoint::batch_to_projective(&gs), r.gen_range(1, 9));
        let rows: Vec<Vec<C::ScalarField>> = (0..r.gen_range(1, 4)).map(|_| (0..n).map(|_| if coin(r, 3) { ofu(r.gen_range(0, 3)) } else { elem(r) }).collect()).collect();
        let blind = coin(r, 2);
        let inp = format!("coefficients {:?} generators {:?} blinding {} by {:?}", rows, gs, blind, h); note(inp.clone());
        let want = |c: &PolynomialCommitment<C>, row: &[C::ScalarField]| radd::<C>(wsum::<C>(row, &gs), rmul::<C>(&val(&c.randomness), aff_of(&h)));
        let single: Vec<_> = rows.iter().map(|c| if coin(r, 2) { PolynomialCommitment::coeffs_to_commitment(c, &pre, h, blind) } else { Polynomial::from(c.clone()).commit(&pre, h, blind) }).collect();
        let refs: Vec<&[C::ScalarField]> = rows.iter().map(|c| c.as_slice()).collect();
        let batch = if coin(r, 2) { PolynomialCommitment::coeffs_vec_to_commitments(&refs, &pre, h, blind) } else { pu::commit_polynomials(&rows.iter().map(|c| Polynomial::from(c.clone())).collect::<Vec<_>>(), &pre, h, blind) };
        ck!(format!("{}/len", nm), batch.len() == rows.len(), "{}", inp);
        for (k, l) in [("single", &single), ("batch", &batch)].iter() {
            for (c, row) in l.iter().zip(&rows) {
                ck!(format!("{}/{}", nm, k), aff_of(&c.to_affine()) == want(c, row), "commitment {:?} with randomness {:?}; {}", c.to_affine(), c.randomness, inp);
                ck!(format!("{}/{}_randomness", nm, k), blind || c.randomness.is_zero(), "unblinded commitment has randomness {:?}; {}", c.randomness, inp);
                ck!(format!("{}/{}_blinded", nm, k), !blind || c.randomness.is_nonzero(), "blinded commitment has randomness zero; {}", inp);
            }
        }
        if blind && rows.len() > 1 { ck!(format!("{}/fresh", nm), batch[0].randomness != batch[1].randomness, "two commitments share their randomness; {}", inp); }
        if blind { ck!(format!("{}/fresh", nm), batch[0].randomness != single[0].randomness, "two commitments share their randomness; {}", inp); }
        // conversions keep point and randomness
        let mut mix = single.clone(); mix.extend(batch.iter().cloned()); let p = mk_a::<C>(&rpoint::<C>(r)); mix.insert(r.gen_range(0, mix.len() + 1), p.into());
        for i in (1..mix.len()).rev() { let j = r.gen_range(0, i + 1); mix.swap(i, j); }
        let before: Vec<_> = mix.iter().map(|c| (aff_of(&c.to_affine()), c.randomness)).collect();
        ck!(format!("{}/from_affine", nm), before.iter().any(|b| b.0 == aff_of(&p)), "{}", inp);
        PolynomialCommitment::batch_to_affine(&mut mix);
        let after: Vec<_> = mix.iter().map(|c| (aff_of(&c.to_affine()), c.randomness)).collect();
        ck!(format!("{}/batch_to_affine", nm), before == after, "{:?} became {:?}; {}", before, after, inp);
        ck!(format!("{}/affine_vec", nm), PolynomialCommitment::commitments_to_affine_vec(&mix).iter().map(aff_of).collect::<Vec<_>>() == before.iter().map(|b| b.0).collect::<Vec<_>>(), "{}", inp);
        Ok(true)
    });
}

// ---------------------------------------------------------------------------------------------- C26
pub fn c26(v: &mut Vec<Case>) { halo_curves!(c26c, v); }
fn nzs<F: Fld>(r: &mut R) -> F { loop { let x: F = elem(r); if x.is_nonzero() { return x; } } }
fn c26c<C: HaloCurve + Crv>(v: &mut Vec<Case>) where S<C>: Fld {
    let nm = format!("{}.equation", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let k = r.gen_range(0, 4);
        let p = |r: &mut R| loop { let p = rpoint::<C>(r); if p.is_some() { return p; } };
        let ls: Vec<Pt<C>> = (0..k).map(|_| p(r)).collect(); let rs: Vec<Pt<C>> = (0..k).map(|_| p(r)).collect(); let us: Vec<S<C>> = (0..k).map(|_| nzs(r)).collect();
        let pts: Vec<Pt<C>> = (0..4).map(|_| p(r)).collect(); // halo_g, commitment, u_prime, h
        let sc: Vec<S<C>> = (0..5).map(|_| nzs(r)).collect(); // value, halo_b, challenge, z1, z2
        let m = |x: S<C>, q: Pt<C>| rmul::<C>(&val(&x), q);
        let solve = |ls: &[Pt<C>], rs: &[Pt<C>], us: &[S<C>], pts: &[Pt<C>], sc: &[S<C>]| {
            let mut q = radd::<C>(pts[1], m(sc[0], pts[2]));
            for i in 0..k { let u2 = us[i] * us[i]; q = radd::<C>(q, m(u2, ls[i])); q = radd::<C>(q, m(inv(u2), rs[i])); }
            let rhs = radd::<C>(m(sc[3], radd::<C>(pts[0], m(sc[1], pts[2]))), m(sc[4], pts[3]));
            radd::<C>(rhs, rneg::<C>(m(sc[2], q)))
        };
        let rc = solve(&ls, &rs, &us, &pts, &sc);
        let inp = format!("L {:?} R {:?} u {:?} G, commitment, U', H {:?} value, b, challenge, z1, z2 {:?} r {:?}", ls, rs, us, pts, sc, rc); note(inp.clone());
        let call = |ls: &[Pt<C>], rs: &[Pt<C>], us: &[S<C>], pts: &[Pt<C>], sc: &[S<C>], rc: &Pt<C>| verify_ipa::<C>(
            &ls.iter().map(|p| mk_a::<C>(p)).collect::<Vec<_>>(), &rs.iter().map(|p| mk_a::<C>(p)).collect::<Vec<_>>(), mk_a::<C>(&pts[0]), mk_a::<C>(&pts[1]).to_projective(), sc[0], sc[1], us,
            mk_a::<C>(&pts[2]).to_projective(), mk_a::<C>(&pts[3]), sc[2], SchnorrProof { r: mk_a::<C>(rc), z1: sc[3], z2: sc[4] });
        ck!(format!("{}/accepts", nm), call(&ls, &rs, &us, &pts, &sc, &rc), "the equation holds and the check rejects; {}", inp);
        // change one ingredient
        let (mut l2, mut r2, mut u2, mut p2, mut s2, mut rc2) = (ls.clone(), rs.clone(), us.clone(), pts.clone(), sc.clone(), rc);
        let which = r.gen_range(0, 10 + 3 * k);
        let what = match which {
            0..=3 => { p2[which] = radd::<C>(p2[which], gpt::<C>()); ["halo_g", "commitment", "u_prime", "h"][which].to_string() }
            4..=8 => { s2[which - 4] = s2[which - 4] + one(); ["value", "halo_b", "challenge", "z1", "z2"][which - 4].to_string() }
            9 => { rc2 = radd::<C>(rc2, gpt::<C>()); "r".into() }
            w => { let i = (w - 10) / 3; match (w - 10) % 3 { 0 => l2[i] = radd::<C>(l2[i], gpt::<C>()), 1 => r2[i] = radd::<C>(r2[i], gpt::<C>()), _ => u2[i] = u2[i] + one() } if u2.iter().any(|u| u.is_zero()) { return Ok(true); } format!("L, R or u {}", i) }
        };
        let want = solve(&l2, &r2, &u2, &p2, &s2) == rc2;
        ck!(format!("{}/rejects", nm), call(&l2, &r2, &u2, &p2, &s2, &rc2) == want, "after changing {} the equation {} but the check says otherwise; {}", what, if want { "holds" } else { "fails" }, inp);
        Ok(true)
    });
    let nm = format!("{}.opening", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let dp = r.gen_range(0, 4); let d = 1usize << dp; let np = r.gen_range(1, 4); let no = r.gen_range(1, 4);
        let gs: Vec<AffinePoint<C>> = (0..d).map(|i| blake_hash_usize_to_curve::<C>(i)).collect(); let h = blake_hash_usize_to_curve::<C>(d); let uc = blake_hash_usize_to_curve::<C>(d + 1);
        let polys: Vec<Vec<S<C>>> = (0..np).map(|_| { let n = if coin(r, 3) { r.gen_range(0, d + 1) } else { d }; (0..n).map(|_| elem(r)).collect() }).collect();
        let xs: Vec<S<C>> = (0..no).map(|_| elem(r)).collect(); let (u, v_, us): (S<C>, S<C>, S<C>) = (unif(r), unif(r), unif(r));
        let inp = format!("polynomials {:?} at {:?} u {:?} v {:?} u_scaling {:?}", polys, xs, u, v_, us); note(inp.clone());
        let pre = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
        let padded: Vec<Vec<S<C>>> = polys.iter().map(|p| { let mut q = p.clone(); q.resize(d, zero()); q }).collect();
        let comms: Vec<_> = padded.iter().map(|p| PolynomialCommitment::coeffs_to_commitment(p, &pre, h, coin(r, 2))).collect();
        let mut ch = Challenger::<C::BaseField>::new(128); let k0 = r.gen_range(0, 3); for i in 0..k0 { ch.observe_element(<C::BaseField as Field>::from_canonical_usize(i)); }
        let mut ch2 = ch.clone();
        let refs: Vec<&[S<C>]> = polys.iter().map(|p| p.as_slice()).collect();
        let pf = match batch_opening_proof(&refs, &comms, &xs, &gs, h.to_projective(), uc, u, v_, us, d, 128, &mut ch) { Ok(p) => p, Err(_) => return Ok(false) };
        ck!(format!("{}/rounds", nm), pf.halo_l.len() == dp && pf.halo_r.len() == dp, "{} rounds; {}", pf.halo_l.len(), inp);
        let n_of = |x: S<C>| pu::halo_n::<C>(&x.to_canonical_bool_vec()[..128]);
        let sc: Vec<S<C>> = (0..np).map(|i| { let mut p: S<C> = one(); for _ in 0..i { p = p * u; } n_of(p) }).collect();
        let mut c = None; for i in 0..np { c = radd::<C>(c, rmul::<C>(&val(&sc[i]), aff_of(&comms[i].to_affine()))); }
        let ev = |p: &[S<C>], x: S<C>| { let mut s: S<C> = zero(); for &a in p.iter().rev() { s = s * x + a; } s };
        let (mut value, mut vp): (S<C>, S<C>) = (zero(), one());
        for &x in &xs { let mut o: S<C> = zero(); for i in 0..np { o = o + sc[i] * ev(&polys[i], x); } value = value + vp * o; vp = vp * v_; }
        let mut hus: Vec<S<C>> = vec![];
        for i in 0..dp {
            ch2.observe_affine_points(&[pf.halo_l[i], pf.halo_r[i]]);
            let rr: S<C> = match ch2.get_challenge().try_convert() { Ok(x) => x, Err(_) => return Ok(false) };
            match n_of(rr).square_root() { Some(s) => hus.push(s), None => return fail(format!("{}/square", nm), format!("the challenge of round {} is no square; {}", i, inp)) }
        }
        ch2.observe_affine_point(pf.schnorr_proof.r);
        let sch: S<C> = match ch2.get_challenge().try_convert() { Ok(x) => x, Err(_) => return Ok(false) };
        let (mut hb, mut vp): (S<C>, S<C>) = (zero(), one()); for &x in &xs { hb = hb + vp * pu::halo_g(x, &hus); vp = vp * v_; }
        let up = pu::halo_n_mul(&us.to_canonical_bool_vec()[..128], uc).to_projective();
        let ver = |value: S<C>| verify_ipa::<C>(&pf.halo_l, &pf.halo_r, pf.halo_g, mk_a::<C>(&c).to_projective(), value, hb, &hus, up, h, sch, pf.schnorr_proof);
        ck!(format!("{}/accepts", nm), ver(value), "an honest opening is rejected; {}", inp);
        ck!(format!("{}/value", nm), !ver(value + one()), "a wrong opened value is accepted; {}", inp);
        ck!(format!("{}/g", nm), aff_of(&pf.halo_g) == wsum::<C>(&pu::halo_s(&hus), &gs), "the folded generator is not <s, G>; {}", inp);
        Ok(true)
    });
}

// ---------------------------------------------------------------------------------------------- C27
#[derive(Clone)]
pub struct Hp<C: HaloCurve> { pis: Vec<S<C>>, proof: Proof<C>, old: Vec<OldProof<C>>, vk: VerificationKey<C>, desc: String }
thread_local!(static PROOFS: std::cell::RefCell<HashMap<(&'static str, usize), Box<dyn std::any::Any>>> = Default::default());
fn build_proof<C: HaloCurve + Crv, I: HaloCurve<BaseField = S<C>>>(r: &mut R, n: usize, olds: &[OldProof<C>], blind: bool) -> Option<Hp<C>> where S<C>: Fld {
    let mut b = B::<C>::new(128);
    let ps = b.add_public_inputs(n);
    let mut acc = b.one_wire();
    for &p in &ps { acc = b.mul_add(acc, p, p); }
    let x = b.add_virtual_target(); let y = b.square(x); let z = b.add(y, acc); let _ = b.mul(z, x);
    let mut w = PartialWitness::new();
    let pis: Vec<S<C>> = (0..n).map(|_| ofu(r.gen_range(1, 1000))).collect();
    for (t, v) in ps.iter().zip(&pis) { w.set_target(*t, *v); }
    w.set_target(x, ofu(r.gen_range(0, 1 << 40)));
    let c = b.build(); let wit = c.generate_witness(w);
    let proof = match trap(|| c.generate_proof::<I>(&wit, olds, blind)) { Ok(Ok(p)) => p, _ => return None };
    Some(Hp { pis, proof, old: olds.to_vec(), vk: c.to_vk(), desc: format!("{} public inputs, {} old proofs", n, olds.len()) })
}
/// one of a few cached honest proofs
fn honest_proof<C: HaloCurve + Crv, I: HaloCurve<BaseField = S<C>>>(r: &mut R) -> Hp<C> where S<C>: Fld {
    let ns = [0usize, 1, 9, 12];
    let i = r.gen_range(0, ns.len() + 1);
    let got = PROOFS.with(|p| p.borrow().get(&(C::CN, i)).map(|h| h.downcast_ref::<Hp<C>>().unwrap().clone()));
    if let Some(h) = got { return h; }
    let h = loop {
        if i < ns.len() { if let Some(h) = build_proof::<C, I>(r, ns[i], &[], true) { break h; } }
        else {
            let mut olds = vec![];
            while olds.len() < 2 { if let Some(h) = build_proof::<C, I>(r, 1, &[], true) { if let Ok(Some(o)) = verify_proof::<C, I>(&h.pis, &h.proof, &[], &h.vk, false) { olds.push(o); } else { panic!("an honest proof was rejected"); } } }
            if let Some(h) = build_proof::<C, I>(r, 2, &olds, true) { break h; }
        }
    };
    PROOFS.with(|p| p.borrow_mut().insert((C::CN, i), Box::new(h.clone())));
    h
}
pub fn c27(v: &mut Vec<Case>) { c27c::<Tweedledee, Tweedledum>(v); c27c::<Vesta, Pallas>(v); }
fn c27c<C: HaloCurve + Crv, I: HaloCurve<BaseField = S<C>>>(v: &mut Vec<Case>) where S<C>: Fld {
    let nm = format!("{}.honest", C::CN);
    case(v, &nm.clone(), 8, move |r, i| {
        let h = honest_proof::<C, I>(r); note(h.desc.clone());
        let g = i % 3 == 0;
        match verify_proof::<C, I>(&h.pis, &h.proof, &h.old, &h.vk, g) {
            Ok(None) => ck!(format!("{}/result", nm), g, "{}", h.desc),
            Ok(Some(o)) => { ck!(format!("{}/result", nm), !g, "{}", h.desc); ck!(format!("{}/old", nm), o.halo_g == h.proof.halo_g && aff_of(&o.halo_g) == wsum::<C>(&pu::halo_s(&o.halo_us), &(0..h.vk.degree).map(blake_hash_usize_to_curve::<C>).collect::<Vec<_>>()), "the returned old proof is not <s, G>; {}", h.desc) }
            Err(e) => return fail(format!("{}/rejected", nm), format!("honest proof rejected: {}; {}", e, h.desc)),
        }
        Ok(true)
    });
    let nm = format!("{}.altered", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let h0 = honest_proof::<C, I>(r); let mut h = h0.clone();
        let what = mutate::<C>(r, &mut h);
        if what.is_empty() || what.contains("negated") && format!("{:?} {:?} {:?}", h.proof, h.vk.c_constants, h.vk.c_s_sigmas) == format!("{:?} {:?} {:?}", h0.proof, h0.vk.c_constants, h0.vk.c_s_sigmas) { return Ok(false); }
        let g = coin(r, 6);
        let inp = format!("{}; {}", what, h.desc); note(inp.clone());
        let got = trap(|| verify_proof::<C, I>(&h.pis, &h.proof, &h.old, &h.vk, g).is_ok());
        ck!(format!("{}/accepted", nm), got != Ok(true), "accepted after: {}", inp);
        Ok(true)
    });
    let nm = format!("{}.folded_generator", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        // halo_g + d H with z2 - d z1 satisfies the opening equation, so that only the check of halo_g can reject it
        let mut h = honest_proof::<C, I>(r);
        let d: S<C> = ofu(r.gen_range(1, 1 << 60)); let pedersen_h: AffinePoint<C> = blake_hash_usize_to_curve(h.vk.degree);
        h.proof.halo_g = mk_a::<C>(&radd::<C>(aff_of(&h.proof.halo_g), rmul::<C>(&val(&d), aff_of(&pedersen_h))));
        h.proof.schnorr_proof.z2 = h.proof.schnorr_proof.z2 - d * h.proof.schnorr_proof.z1;
        let inp = format!("halo_g moved by {:?} H and z2 adjusted; {}", d, h.desc); note(inp.clone());
        let g = coin(r, 2);
        let got = trap(|| verify_proof::<C, I>(&h.pis, &h.proof, &h.old, &h.vk, g).is_ok());
        ck!(format!("{}/accepted", nm), got == Ok(!g), "verify_g {} gives {:?}; {}", g, got, inp);
        Ok(true)
    });
    let nm = format!("{}.same_rows", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        // two circuits that differ only in the number of declared public inputs within one row
        let n = r.gen_range(1, 6); let m = r.gen_range(n + 1, 10);
        let mk = |r: &mut R, n: usize| { let mut b = B::<C>::new(128); let ps = b.add_public_inputs(n); let pis: Vec<S<C>> = (0..n).map(|_| ofu(r.gen_range(1, 1000))).collect(); let c = b.build(); let mut w = PartialWitness::new(); for (t, v) in ps.iter().zip(&pis) { w.set_target(*t, *v); } let wit = c.generate_witness(w); let p = trap(|| c.generate_proof::<I>(&wit, &[], true)); (c.to_vk(), p, pis) };
        let (vk, _, _) = mk(r, n); let (vk2, p, pis) = mk(r, m);
        if vk.degree != vk2.degree { return Ok(false); }
        let p = match p { Ok(Ok(p)) => p, _ => return Ok(false) };
        let inp = format!("proof for {} public inputs {:?} against the key for {}", m, pis, n); note(inp.clone());
        ck!(format!("{}/accepted", nm), trap(|| verify_proof::<C, I>(&pis, &p, &[], &vk, true).is_ok()) != Ok(true), "{}", inp);
        Ok(true)
    });
}
fn mutate<C: HaloCurve + Crv>(r: &mut R, h: &mut Hp<C>) -> String where S<C>: Fld {
    let g = C::GENERATOR_AFFINE;
    let mode = r.gen_range(0, 3);
    let mut mp = |p: &mut AffinePoint<C>| -> &'static str { match mode { 0 => { *p = (p.to_projective() + g).to_affine(); "moved" } 1 => { p.y = p.y + one::<C::BaseField>(); "off the curve" } _ => { *p = -*p; "negated" } } };
    let p = &mut h.proof;
    let k = r.gen_range(0, 17);
    macro_rules! pick { ($v:expr) => {{ let n = $v.len(); if n == 0 { return String::new(); } r.gen_range(0, n) }} }
    match k {
        0 => { let i = pick!(p.c_wires); format!("c_wires[{}] {}", i, mp(&mut p.c_wires[i])) }
        1 => format!("c_plonk_z {}", mp(&mut p.c_plonk_z)),
        2 => { let i = pick!(p.c_plonk_t); format!("c_plonk_t[{}] {}", i, mp(&mut p.c_plonk_t[i])) }
        3 => format!("c_pis_quotient {}", mp(&mut p.c_pis_quotient)),
        4 => { let i = pick!(p.halo_l); format!("halo_l[{}] {}", i, mp(&mut p.halo_l[i])) }
        5 => { let i = pick!(p.halo_r); format!("halo_r[{}] {}", i, mp(&mut p.halo_r[i])) }
        6 => format!("halo_g {}", mp(&mut p.halo_g)),
        7 => match r.gen_range(0, 3) { 0 => format!("schnorr r {}", mp(&mut p.schnorr_proof.r)), 1 => { p.schnorr_proof.z1 = p.schnorr_proof.z1 + one(); "z1 + 1".into() } _ => { p.schnorr_proof.z2 = p.schnorr_proof.z2 + one(); "z2 + 1".into() } },
        8 | 9 | 10 => {
            let s = r.gen_range(0, 3); let o = match s { 0 => &mut p.o_local, 1 => &mut p.o_right, _ => &mut p.o_below };
            let f = r.gen_range(0, 7);
            let (n, x): (&str, &mut S<C>) = match f { 0 => { let i = r.gen_range(0, o.o_constants.len()); ("o_constants", &mut o.o_constants[i]) } 1 => { let i = r.gen_range(0, o.o_plonk_sigmas.len()); ("o_plonk_sigmas", &mut o.o_plonk_sigmas[i]) } 2 => { let i = r.gen_range(0, o.o_wires.len()); ("o_wires", &mut o.o_wires[i]) } 3 => ("o_plonk_z", &mut o.o_plonk_z), 4 => { let i = r.gen_range(0, o.o_plonk_t.len()); ("o_plonk_t", &mut o.o_plonk_t[i]) } 5 => { if o.o_old_proofs.is_empty() { return String::new(); } ("o_old_proofs", &mut o.o_old_proofs[0]) } _ => ("o_pi_quotient", &mut o.o_pi_quotient) };
            *x = *x + one(); format!("{} of set {} + 1", n, s)
        }
        11 => {
            // the flattened openings stay the same, the boundary between two fields moves
            let s = r.gen_range(0, 3); let o = match s { 0 => &mut p.o_local, 1 => &mut p.o_right, _ => &mut p.o_below };
            match r.gen_range(0, 3) { 0 => { let x = o.o_constants.pop().unwrap(); o.o_plonk_sigmas.insert(0, x); } 1 => { let x = o.o_plonk_sigmas.pop().unwrap(); o.o_wires.insert(0, x); } _ => { let x = o.o_plonk_sigmas.remove(0); o.o_constants.push(x); } }
            format!("shape of opening set {}: boundary moved", s)
        }
        12 => match r.gen_range(0, 6) {
            0 => { p.c_wires.pop(); "c_wires shortened".into() } 1 => { p.c_plonk_t.pop(); "c_plonk_t shortened".into() } 2 => { p.c_plonk_t.push(C::GENERATOR_AFFINE); "c_plonk_t lengthened".into() }
            3 => { p.halo_l.pop(); p.halo_r.pop(); "halo_l and halo_r shortened".into() } 4 => { p.halo_l.push(g); p.halo_r.push(g); "halo_l and halo_r lengthened".into() }
            _ => { let o = match r.gen_range(0, 3) { 0 => &mut p.o_local, 1 => &mut p.o_right, _ => &mut p.o_below }; o.o_plonk_t.push(zero()); "o_plonk_t lengthened".into() }
        },
        13 => { if h.pis.is_empty() { h.pis.push(zero()); return "a public input appended".into(); } match r.gen_range(0, 4) {
            0 => { let i = pick!(h.pis); h.pis[i] = h.pis[i] + one(); format!("public input {} + 1", i) } 1 => { h.pis.push(zero()); "a zero public input appended".into() } 2 => { h.pis.pop(); "a public input dropped".into() }
            _ => { let i = pick!(h.pis); let j = pick!(h.pis); if h.pis[i] == h.pis[j] { return String::new(); } h.pis.swap(i, j); "public inputs swapped".into() } } }
        14 => { let vk = &mut h.vk; match r.gen_range(0, 5) {
            0 => { let i = r.gen_range(0, vk.c_constants.len()); format!("vk.c_constants[{}] {}", i, mp(&mut vk.c_constants[i])) } 1 => { let i = r.gen_range(0, vk.c_s_sigmas.len()); format!("vk.c_s_sigmas[{}] {}", i, mp(&mut vk.c_s_sigmas[i])) }
            2 => { vk.degree *= 2; vk.fft_precomputation = None; vk.pedersen_g_msm_precomputation = None; "vk.degree doubled".into() } 3 => { vk.num_public_inputs += 1; "vk.num_public_inputs + 1".into() }
            _ => { if h.pis.iter().all(|x| x.is_zero()) { return String::new(); } vk.num_gates_without_pis += 1; "vk.num_gates_without_pis + 1".into() } } }
        15 => { if h.old.is_empty() { return String::new(); } let i = r.gen_range(0, h.old.len()); match r.gen_range(0, 4) { 0 => { h.old.remove(i); format!("old proof {} dropped", i) } 1 => { let j = r.gen_range(0, h.old[i].halo_us.len()); h.old[i].halo_us[j] = h.old[i].halo_us[j] + one(); format!("old proof {} challenge {} + 1", i, j) } 2 => { h.old.swap(0, 1); "old proofs swapped".into() } _ => format!("old proof {} point {}", i, mp(&mut h.old[i].halo_g)) } }
        _ => { let i = r.gen_range(0, p.c_wires.len()); let j = r.gen_range(0, p.c_wires.len()); if p.c_wires[i] == p.c_wires[j] { return String::new(); } p.c_wires.swap(i, j); "wire commitments swapped".into() }
    }
}

// ---------------------------------------------------------------------------------------------- C32
pub fn c32(v: &mut Vec<Case>) { c32c::<Tweedledee>(v); c32c::<Vesta>(v); }
fn tbl<F: Fld>(r: &mut R, n: usize) -> Vec<F> { let mut t: Vec<F> = vec![]; while t.len() < n { let x: F = match r.gen_range(0, 4) { 0 => F::ZERO, 1 | 2 => ofu(r.gen_range(1, 20)), _ => elem(r) }; if !t.contains(&x) || coin(r, 6) { t.push(x); } } if t.iter().all(|x| x.is_zero()) { t[0] = one(); } t }
fn c32c<C: HaloCurve + Crv>(v: &mut Vec<Case>) where S<C>: Fld {
    use plookup::{plookup::prove, verifier::verify};
    let nm = format!("{}.lookup", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let t: Vec<S<C>> = { let n = r.gen_range(1, 9); tbl(r, n) }; let f: Vec<S<C>> = (0..r.gen_range(1, 9)).map(|_| t[r.gen_range(0, t.len())]).collect();
        let inp = format!("f {:?} t {:?}", f, t); note(inp.clone());
        // openings that do not fit the other field are out of scope (documented in the code)
        let mut pf = match trap(|| prove::<C>(&f, &t)) { Ok(Ok(p)) => p, Ok(Err(_)) => return Ok(false), Err(m) if m.contains("fit in both fields") => return Ok(false), Err(m) => return fail(format!("{}/prover_panic", nm), format!("{}; {}", m, inp)) };
        match verify::<C>(&t, &pf) { Ok(()) => {}, Err(e) => return fail(format!("{}/honest", nm), format!("honest proof rejected: {}; {}", e, inp)) }
        let g = C::GENERATOR_AFFINE; let mv = |p: &mut AffinePoint<C>| *p = (p.to_projective() + g).to_affine();
        let mut t2 = t.clone();
        let what = match r.gen_range(0, 13) {
            0 => { mv(&mut pf.c_f); "c_f" } 1 => { mv(&mut pf.c_t); "c_t" } 2 => { mv(&mut pf.c_h1); "c_h1" } 3 => { mv(&mut pf.c_h2); "c_h2" } 4 => { mv(&mut pf.c_z); "c_z" } 5 => { mv(&mut pf.c_quotient); "c_quotient" }
            6 => { let k = r.gen_range(0, 12); let o = &mut pf.openings; let x = match k { 0 => &mut o.f.local, 1 => &mut o.f.right, 2 => &mut o.t.local, 3 => &mut o.t.right, 4 => &mut o.h1.local, 5 => &mut o.h1.right, 6 => &mut o.h2.local, 7 => &mut o.h2.right, 8 => &mut o.z.local, 9 => &mut o.z.right, 10 => &mut o.quotient.local, _ => &mut o.quotient.right }; *x = *x + one(); "an opening" }
            7 => { let i = r.gen_range(0, t2.len()); t2[i] = t2[i] + one(); "a table entry" } 8 => { t2.push(ofu(777)); "a longer table" }
            9 => { mv(&mut pf.halo_proof.halo_g); "halo_g" } 10 => { let i = r.gen_range(0, pf.halo_proof.halo_l.len()); if coin(r, 2) { mv(&mut pf.halo_proof.halo_l[i]) } else { mv(&mut pf.halo_proof.halo_r[i]) } "halo_l or halo_r" }
            11 => { pf.halo_proof.schnorr_proof.z1 = pf.halo_proof.schnorr_proof.z1 + one(); "z1" } _ => { pf.n = if coin(r, 2) { pf.n * 2 + 1 } else { pf.n / 2 }; "n" }
        };
        ck!(format!("{}/altered", nm), trap(|| verify::<C>(&t2, &pf).is_ok()) != Ok(true), "accepted after changing {}; {}", what, inp);
        Ok(true)
    });
    let nm = format!("{}.not_in_table", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let t: Vec<S<C>> = { let n = r.gen_range(1, 9); tbl(r, n) }; let mut f: Vec<S<C>> = (0..r.gen_range(1, 9)).map(|_| t[r.gen_range(0, t.len())]).collect();
        let x: S<C> = if coin(r, 2) { zero() } else { ofu(r.gen_range(0, 30)) }; if t.contains(&x) { return Ok(false); }
        let i = r.gen_range(0, f.len()); f[i] = x;
        let inp = format!("f {:?} t {:?}", f, t); note(inp.clone());
        let got = trap(|| prove::<C>(&f, &t).map(|p| verify::<C>(&t, &p).is_ok()));
        if let Ok(Ok(true)) = got { return fail(format!("{}/accepted", nm), format!("{:?} is not in the table and a proof verifies; {}", x, inp)); }
        Ok(true)
    });
    let nm = format!("{}.table", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let rows = r.gen_range(1, 6); let mut tb: Vec<[S<C>; 3]> = vec![];
        while tb.len() < rows { let a: [S<C>; 3] = [ofu(r.gen_range(0, 5)), ofu(r.gen_range(0, 5)), ofu(r.gen_range(0, 5))]; if (!tb.contains(&a) || coin(r, 4)) && (tb.len() > 0 || a[0].is_nonzero()) { tb.push(a); } }
        let t = plookup::table::Table::<S<C>, 3>(tb.clone());
        let pick: Vec<[S<C>; 3]> = (0..r.gen_range(1, 5)).map(|_| tb[r.gen_range(0, rows)]).collect();
        let inp = format!("table {:?} rows {:?}", tb, pick); note(inp.clone());
        let pf = if coin(r, 2) { t.prove_row::<C>(&plookup::table::Table(pick.clone())) } else { let c = |j: usize| pick.iter().map(|a| a[j]).collect::<Vec<_>>(); t.prove_column::<C>(&[c(0), c(1), c(2)]) };
        let pf = match pf { Ok(p) => p, Err(_) => return Ok(false) };
        if let Err(e) = t.verify(&pf) { return fail(format!("{}/honest", nm), format!("honest proof rejected: {}; {}", e, inp)); }
        let mut tb2 = tb.clone(); tb2[r.gen_range(0, rows)][r.gen_range(0, 3)] = ofu(9);
        ck!(format!("{}/other", nm), trap(|| plookup::table::Table::<S<C>, 3>(tb2).verify(&pf).is_ok()) != Ok(true), "accepted for another table; {}", inp);
        // a tuple that mixes two rows is no row
        let mut bad = pick.clone(); let k = r.gen_range(0, bad.len()); bad[k] = [ofu(r.gen_range(0, 5)), ofu(r.gen_range(0, 5)), ofu(r.gen_range(0, 5))];
        if tb.contains(&bad[k]) { return Ok(true); }
        let got = trap(|| t.prove_row::<C>(&plookup::table::Table(bad.clone())).map(|p| t.verify(&p).is_ok()));
        if let Ok(Ok(true)) = got { return fail(format!("{}/accepted", nm), format!("row {:?} is not in the table; {}", bad[k], inp)); }
        Ok(true)
    });
}

// ---------------------------------------------------------------------------------------------- C33
pub fn c33(v: &mut Vec<Case>) { all_curves!(c33c, v); all_fields!(c33f, v); }
fn c33f<F: Fld>(v: &mut Vec<Case>) {
    let nm = format!("{}.blake_field", F::NAME);
    rnd(v, &nm.clone(), move |r, _| {
        let x: F = elem(r); let i: u8 = r.gen(); let inp = format!("iteration {} seed {:?}", i, x); note(inp.clone());
        let a = blake_field::<F>(i, x); let b = blake_field::<F>(i, x);
        ck!(format!("{}/deterministic", nm), a == b, "{:?} {:?}; {}", a, b, inp);
        ck!(format!("{}/canonical", nm), canon(&a.0), "{:?}; {}", a, inp);
        let c = blake_field::<F>(i.wrapping_add(1 + r.gen_range(0, 255)), x);
        ck!(format!("{}/counter", nm), a.0 != c.0, "two counters give {:?}; {}", a, inp);
        let d = blake_field::<F>(i, x + one());
        ck!(format!("{}/seed", nm), a.0 != d.0, "two seeds give {:?}; {}", a, inp);
        Ok(true)
    });
}
fn c33c<C: Crv>(v: &mut Vec<Case>) where C::BaseField: Fld {
    let nm = format!("{}.hash", C::CN);
    rnd(v, &nm.clone(), move |r, _| {
        let x: C::BaseField = elem(r); let n: usize = match r.gen_range(0, 3) { 0 => r.gen_range(0, 20), 1 => r.gen::<u32>() as usize, _ => r.gen::<usize>() };
        let inp = format!("seed {:?} integer {}", x, n); note(inp.clone());
        let nf: C::BaseField = ofu(n as u64);
        let mut all = vec![("blake", x, blake_hash_base_field_to_curve::<C>(x), blake_hash_base_field_to_curve::<C>(x)), ("blake_usize", nf, blake_hash_usize_to_curve::<C>(n), blake_hash_base_field_to_curve::<C>(nf))];
        if coin(r, 4) { all.push(("rescue", x, hash_base_field_to_curve::<C>(x, 128), hash_base_field_to_curve::<C>(x, 128))); all.push(("rescue_usize", nf, hash_usize_to_curve::<C>(n, 128), hash_base_field_to_curve::<C>(nf, 128))); let u = n as u32; all.push(("rescue_u32", ofu(u as u64), hash_u32_to_curve::<C>(u, 128), hash_usize_to_curve::<C>(u as usize, 128))); }
        for (k, _, p, q) in &all {
            ck!(format!("{}/{}_valid", nm, k), !p.zero && on::<C>(&aff_of(p)) && canon(&p.x) && canon(&p.y), "{:?}; {}", p, inp);
            ck!(format!("{}/{}_deterministic", nm, k), p == q, "{:?} and {:?}; {}", p, q, inp);
        }
        ck!(format!("{}/distinct", nm), x == nf || all[0].2 != all[1].2, "seeds {:?} and {} give the same point", x, n);
        // the definition: first counter whose x is on the curve, sign from the hash
        let mut i = 0u8; let want = loop { let (a, s) = blake_field::<C::BaseField>(i, x); let rhs = a * a * a + C::A * a + C::B; if let Some(y) = rhs.square_root() { break (a, if s { zero::<C::BaseField>() - y } else { y }); } i += 1; };
        ck!(format!("{}/blake_definition", nm), aff_of(&all[0].2) == Some(want), "{:?}, expected {:?}; {}", all[0].2, want, inp);
        if all.len() > 2 {
            let mut i = 0u64; let want = loop { let o = rescue_sponge(vec![x, ofu::<C::BaseField>(i)], 2, 128); let a = o[0]; let rhs = a * a * a + C::A * a + C::B; if let Some(y) = rhs.square_root() { break (a, if val(&o[1]) & BigUint::from(1u32) == BigUint::from(1u32) { zero::<C::BaseField>() - y } else { y }); } i += 1; };
            ck!(format!("{}/rescue_definition", nm), aff_of(&all[2].2) == Some(want), "{:?}, expected {:?}; {}", all[2].2, want, inp);
        }
        Ok(true)
    });
}
