//! C17-C20: gates. `honest` writes down the relation each gate stands for, independently of the constraints.
use crate::circ::{Ran, B, S, T};
use crate::curve::*;
use crate::fw::*;
use crate::gen::*;
use plonky::*;
use rand::Rng;

pub type Rows<F> = [Vec<F>; 4]; // constants after the prefix, local, right, below
/// (row, wire) with row 1 = local, 2 = right, 3 = below
type Pos = (usize, usize);
pub struct Hon<F> { rows: Rows<F>, ins: Vec<Pos>, outs: Vec<Pos> }

fn wires<F: Fld>(r: &mut R, n: usize) -> Vec<F> { (0..n).map(|_| elem(r)).collect() }
fn nz<F: Fld>(r: &mut R) -> F { loop { let x: F = if coin(r, 3) { ofu(r.gen_range(1, 5)) } else { elem(r) }; if x.is_nonzero() { return x; } } }
fn pt<I: Crv>(r: &mut R) -> (I::BaseField, I::BaseField) { loop { if let Some(p) = rpoint::<I>(r) { return p; } } }
fn bit<F: Field>(b: bool) -> F { if b { F::ONE } else { F::ZERO } }

fn honest<C: HaloCurve, I: HaloCurve<BaseField = S<C>> + Crv>(g: &str, r: &mut R) -> Option<Hon<S<C>>> where S<C>: Fld {
    let (k, mut l, mut rt, mut b) = (wires::<S<C>>(r, 6), wires::<S<C>>(r, 9), wires::<S<C>>(r, 9), wires::<S<C>>(r, 9));
    let two = <S<C> as Field>::TWO; let four = <S<C> as Field>::FOUR; let zero = <S<C> as Field>::ZERO; let one = <S<C> as Field>::ONE;
    let mds = crate::poly::mds::<S<C>>(4);
    let (ins, outs): (Vec<Pos>, Vec<Pos>) = match g {
        "Arithmetic" => { l[3] = k[0] * l[0] * l[1] + k[1] * l[2]; (vec![(1, 0), (1, 1), (1, 2)], vec![(1, 3)]) }
        "Constant" => { l[0] = k[0]; (vec![], vec![(1, 0)]) }
        "PublicInput" => { for i in 0..3 { rt[i] = l[6 + i]; } (vec![(1, 6), (1, 7), (1, 8)], vec![(2, 0), (2, 1), (2, 2)]) }
        "Buffer" => (vec![], vec![]),
        "Base4Sum" => {
            let mut acc = l[0];
            for i in 2..9 { l[i] = ofu(r.gen_range(0, 4)); acc = four * acc + l[i]; }
            l[1] = acc; (vec![], vec![(1, 1)])
        }
        "CurveAdd" => {
            let (p, q) = (pt::<I>(r), pt::<I>(r)); if p.0 == q.0 { return None; }
            let t = coin(r, 2);
            l[0] = p.0; l[1] = p.1; l[4] = q.0; l[5] = q.1; l[6] = bit(t); l[3] = two * l[2] + l[6];
            let s = if t { radd::<I>(Some(p), Some(q)).unwrap() } else { p };
            l[7] = inv(p.0 - q.0); l[8] = (p.1 - q.1) * l[7]; rt[0] = s.0; rt[1] = s.1;
            (vec![(1, 0), (1, 1), (1, 2), (1, 4), (1, 5), (1, 6)], vec![(1, 3), (2, 0), (2, 1)])
        }
        "CurveDbl" => {
            let p = pt::<I>(r); let d = radd::<I>(Some(p), Some(p))?;
            l[0] = p.0; l[1] = p.1; l[2] = d.0; l[3] = d.1; l[4] = inv(p.1 + p.1); l[5] = (p.0 * p.0 + p.0 * p.0 + p.0 * p.0 + I::A) * l[4];
            (vec![(1, 0), (1, 1)], vec![(1, 2), (1, 3)])
        }
        "CurveEndo" => {
            let (p, q) = (pt::<I>(r), pt::<I>(r)); let (b0, b1) = (coin(r, 2), coin(r, 2));
            let z = <I as HaloCurve>::ZETA;
            let s = (if b1 { z * q.0 } else { q.0 }, if b0 { q.1 } else { zero - q.1 });
            if s.0 == p.0 { return None; }
            let t = radd::<I>(Some(p), Some(s)).unwrap();
            l[0] = p.0; l[1] = p.1; l[4] = q.0; l[5] = q.1; l[6] = bit(b0); l[7] = bit(b1); l[8] = inv(p.0 - s.0);
            rt[0] = t.0; rt[1] = t.1;
            let limb = (if b1 { z } else { one }) * (if b0 { one } else { zero - one });
            b[2] = four * l[2] + two * l[7] + l[6]; b[3] = two * l[3] + limb;
            (vec![(1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)], vec![(2, 0), (2, 1), (3, 2), (3, 3)])
        }
        "RescueA" => {
            for i in 0..4 { let y = l[4 + i]; l[i] = y * y * y * y * y; }
            for i in 0..4 { rt[i] = k[i]; for j in 0..4 { rt[i] = rt[i] + mds[i][j] * l[4 + j]; } }
            ((0..4).map(|i| (1, i)).collect(), (0..4).map(|i| (1, 4 + i)).chain((0..4).map(|i| (2, i))).collect())
        }
        "RescueB" => {
            for i in 0..4 { rt[i] = k[i]; for j in 0..4 { let y = l[j]; rt[i] = rt[i] + mds[i][j] * y * y * y * y * y; } }
            ((0..4).map(|i| (1, i)).collect(), (0..4).map(|i| (2, i)).collect())
        }
        _ => unreachable!(),
    };
    Some(Hon { rows: [k, l, rt, b], ins, outs })
}

macro_rules! gates {
    ($m:ident, $C:ident, $I:ident, $v:expr) => {
        $m!($v, "CurveAdd", CurveAddGate::<$C, $I>, $C, $I); $m!($v, "CurveDbl", CurveDblGate::<$C, $I>, $C, $I); $m!($v, "CurveEndo", CurveEndoGate::<$C, $I>, $C, $I);
        $m!($v, "Base4Sum", Base4SumGate::<$C>, $C, $I); $m!($v, "PublicInput", PublicInputGate::<$C>, $C, $I); $m!($v, "Buffer", BufferGate::<$C>, $C, $I);
        $m!($v, "Constant", ConstantGate::<$C>, $C, $I); $m!($v, "Arithmetic", ArithmeticGate::<$C>, $C, $I);
        $m!($v, "RescueA", RescueStepAGate::<$C>, $C, $I); $m!($v, "RescueB", RescueStepBGate::<$C>, $C, $I);
    };
}
macro_rules! prefix { ($t:ty, $C:ident) => { <$t as Gate<$C>>::PREFIX.to_vec() } }
/// constants of a row: prefix bits, then the given values
fn consts<F: Fld>(pre: &[bool], k: &[F]) -> Vec<F> { let mut c: Vec<F> = pre.iter().map(|&b| bit(b)).collect(); c.extend_from_slice(k); c.truncate(6); c }
fn show<F: Field>(x: &[Vec<F>]) -> String { format!("constants {:?} local {:?} right {:?} below {:?}", x[0], x[1], x[2], x[3]) }

macro_rules! m17 { ($v:expr, $n:expr, $t:ty, $C:ident, $I:ident) => {{
    let nm = format!("{}.{}", $n, <$I as Crv>::CN);
    rnd($v, &nm.clone(), move |r, _| {
        type F = S<$C>;
        let mut w: [Vec<F>; 4] = [wires(r, 6), wires(r, 9), wires(r, 9), wires(r, 9)];
        if coin(r, 3) { for x in w.iter_mut() { for y in x.iter_mut() { *y = ofu(r.gen_range(0, 4)); } } }
        let inp = show(&w); note(inp.clone());
        let mut b = B::<$C>::new(128);
        let ts: Vec<Vec<T<$C>>> = w.iter().map(|x| b.add_virtual_targets(x.len())).collect();
        let u = <$t as Gate<$C>>::evaluate_unfiltered_recursively(&mut b, &ts[0], &ts[1], &ts[2], &ts[3]);
        let f = <$t as Gate<$C>>::evaluate_filtered_recursively(&mut b, &ts[0], &ts[1], &ts[2], &ts[3]);
        let given: Vec<_> = ts.iter().flatten().cloned().zip(w.iter().flatten().cloned()).collect();
        let run = Ran::new(b, &given);
        let (nu, nf) = (<$t as Gate<$C>>::evaluate_unfiltered(&w[0], &w[1], &w[2], &w[3]), <$t as Gate<$C>>::evaluate_filtered(&w[0], &w[1], &w[2], &w[3]));
        ck!(format!("{}/count", nm), nu.len() == u.len() && nf.len() == f.len(), "{} native and {} recursive constraints", nu.len(), u.len());
        for i in 0..nu.len() {
            ck!(format!("{}/unfiltered", nm), run.get(u[i]) == nu[i], "constraint {}: native {:?}, in circuit {:?}; {}", i, nu[i], run.get(u[i]), inp);
            ck!(format!("{}/filtered", nm), run.get(f[i]) == nf[i], "filtered constraint {}: native {:?}, in circuit {:?}; {}", i, nf[i], run.get(f[i]), inp);
        }
        Ok(true)
    });
}}; }
macro_rules! m18 { ($v:expr, $n:expr, $t:ty, $C:ident, $I:ident) => {{
    let nm = format!("{}.{}", $n, <$I as Crv>::CN);
    rnd($v, &nm.clone(), move |r, _| {
        let h = match honest::<$C, $I>($n, r) { Some(h) => h, None => return Ok(false) };
        let pre = prefix!($t, $C);
        let w: [Vec<S<$C>>; 4] = [consts(&pre, &h.rows[0]), h.rows[1].clone(), h.rows[2].clone(), h.rows[3].clone()];
        let ev = |w: &[Vec<S<$C>>; 4]| <$t as Gate<$C>>::evaluate_unfiltered(&w[0], &w[1], &w[2], &w[3]);
        let inp = show(&w); note(inp.clone());
        if let Some(i) = ev(&w).iter().position(|x| x.is_nonzero()) { return fail(format!("{}/rejects", nm), format!("constraint {} rejects a satisfying row: {}", i, inp)); }
        for &(a, i) in h.outs.iter().chain(h.ins.iter().filter(|_| $n != "CurveAdd" && $n != "Arithmetic" && $n != "CurveDbl")) {
            if h.outs.contains(&(a, i)) || coin(r, 4) {
                let mut x = w.clone(); x[a][i] = x[a][i] + nz::<S<$C>>(r);
                // for inputs: another input with the same outputs breaks the relation of the injective gates only
                if !h.outs.contains(&(a, i)) && !($n == "RescueA" || $n == "PublicInput") { continue; }
                ck!(format!("{}/accepts", nm), ev(&x).iter().any(|c| c.is_nonzero()), "wire {:?} changed to {:?} and every constraint still vanishes; honest row {}", (a, i), x[a][i], inp);
            }
        }
        // values that are no bits / base-4 digits, everything else adapted
        let digits: Vec<(usize, u64)> = match $n { "CurveAdd" => vec![(6, 2)], "CurveEndo" => vec![(6, 2), (7, 2)], "Base4Sum" => (2..9).map(|i| (i, 4)).collect(), _ => vec![] };
        for (i, m) in digits {
            let mut x = w.clone(); let d = if coin(r, 2) { ofu(m + r.gen_range(0, 3)) } else { loop { let e: S<$C> = elem(r); if val(&e) >= m.into() { break e; } } };
            x[1][i] = d;
            if $n == "Base4Sum" { let mut acc = x[1][0]; for j in 2..9 { acc = acc + acc; acc = acc + acc; acc = acc + x[1][j]; } x[1][1] = acc; }
            if $n == "CurveAdd" { x[1][3] = x[1][2] + x[1][2] + d; }
            if $n == "CurveEndo" { let a = x[1][2] + x[1][2]; x[3][2] = a + a + x[1][7] + x[1][7] + x[1][6]; }
            ck!(format!("{}/digit", nm), ev(&x).iter().any(|c| c.is_nonzero()), "wire {} = {:?} is admitted; row {}", i, d, show(&x));
        }
        Ok(true)
    });
}}; }
macro_rules! m19 { ($v:expr, $n:expr, $t:ty, $C:ident, $I:ident) => {{
    let nm = format!("{}.{}", $n, <$I as Crv>::CN);
    rnd($v, &nm.clone(), move |r, _| {
        if $n == "Base4Sum" || $n == "Buffer" { return Ok(false); }
        let h = match honest::<$C, $I>($n, r) { Some(h) => h, None => return Ok(false) };
        let mut b = B::<$C>::new(128);
        let at = b.num_gates();
        let np = 6 - prefix!($t, $C).len();
        let used: usize = match $n { "Arithmetic" => 2, "Constant" => 1, "RescueA" | "RescueB" => 4, _ => 0 };
        assert!(used <= np);
        b.add_gate(<$t>::new(at), h.rows[0][..used].to_vec());
        for i in 1..70 { b.add_gate(BufferGate::<$C>::new(at + i), vec![]); }
        let t = |p: Pos| Target::Wire(Wire { gate: at + match p.0 { 1 => 0, 2 => 1, _ => 65 }, input: p.1 });
        let given: Vec<_> = h.ins.iter().map(|&p| (t(p), h.rows[p.0][p.1])).collect();
        let inp = show(&h.rows); note(inp.clone());
        let run = Ran::new(b, &given);
        for &p in &h.outs { ck!(format!("{}/value", nm), run.get(t(p)) == h.rows[p.0][p.1], "wire {:?} is {:?}, expected {:?}; {}", p, run.get(t(p)), h.rows[p.0][p.1], inp); }
        if let Some(m) = run.satisfied::<$I>() { return fail(format!("{}/unsatisfied", nm), format!("{}; {}", m, inp)); }
        Ok(true)
    });
}}; }
macro_rules! m20 { ($v:expr, $n:expr, $t:ty, $C:ident, $I:ident) => {{
    let nm = format!("{}.{}", $n, <$I as Crv>::CN);
    rnd($v, &nm.clone(), move |r, _| {
        type F = S<$C>;
        let pre = prefix!($t, $C);
        let k: Vec<F> = (0..6).map(|_| match r.gen_range(0, 3) { 0 => bit::<F>(false), 1 => bit::<F>(true), _ => elem(r) }).collect();
        let w: [Vec<F>; 4] = [consts(&pre, &k), wires(r, 9), wires(r, 9), wires(r, 9)];
        let inp = show(&w); note(inp.clone());
        let all = evaluate_all_constraints::<$C, $I>(&w[0], &w[1], &w[2], &w[3]);
        let own = <$t as Gate<$C>>::evaluate_unfiltered(&w[0], &w[1], &w[2], &w[3]);
        ck!(format!("{}/len", nm), all.len() >= own.len(), "{}", inp);
        for i in 0..all.len() {
            let e = own.get(i).cloned().unwrap_or(bit(false));
            ck!(format!("{}/selected", nm), all[i] == e, "constraint {} of the row is {:?}, the gate's own constraint is {:?}; {}", i, all[i], e, inp);
        }
        // arbitrary constants: the filter is the product over the prefix
        let x: [Vec<F>; 4] = [k, w[1].clone(), w[2].clone(), w[3].clone()];
        let mut filt: F = bit(true); for (i, &p) in pre.iter().enumerate() { filt = filt * if p { x[0][i] } else { bit::<F>(true) - x[0][i] }; }
        let fl = <$t as Gate<$C>>::evaluate_filtered(&x[0], &x[1], &x[2], &x[3]); let un = <$t as Gate<$C>>::evaluate_unfiltered(&x[0], &x[1], &x[2], &x[3]);
        for i in 0..un.len() { ck!(format!("{}/filter", nm), fl[i] == filt * un[i], "filtered constraint {}: {:?}; {}", i, fl[i], show(&x)); }
        // the builder writes the prefix
        let mut b = B::<$C>::new(128);
        let at = b.num_gates();
        let n = r.gen_range(0, 6 - pre.len() + 1);
        let given: Vec<F> = wires(r, n);
        b.add_gate(<$t>::new(at), given.clone());
        let c = b.build();
        let mut want = consts(&pre, &given); want.resize(6, bit(false));
        ck!(format!("{}/builder", nm), c.gate_constants[at][..pre.len() + n] == want[..pre.len() + n], "constants of the row {:?}, expected {:?}", c.gate_constants[at], want);
        Ok(true)
    });
}}; }
macro_rules! pairs { ($m:ident, $v:expr) => {{
    { type C1 = Tweedledee; type I1 = Tweedledum; gates!($m, C1, I1, $v); }
    { type C1 = Vesta; type I1 = Pallas; gates!($m, C1, I1, $v); }
}}; }
pub fn c17(v: &mut Vec<Case>) { pairs!(m17, v) }
pub fn c18(v: &mut Vec<Case>) { pairs!(m18, v) }
pub fn c19(v: &mut Vec<Case>) { pairs!(m19, v) }
pub fn c20(v: &mut Vec<Case>) { pairs!(m20, v) }
