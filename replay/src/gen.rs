//! Input generators and reference arithmetic on integers.
use crate::fw::*;
use num::{BigUint, One, Zero, ToPrimitive};
use plonky::*;
use rand::{Rng, RngCore};

pub trait Fld: Field {
    const N: usize;
    const NAME: &'static str;
    fn raw(l: &[u64]) -> Self;
    fn limbs(&self) -> Vec<u64>;
    fn p() -> BigUint;
    fn r() -> BigUint { BigUint::one() << (64 * Self::N) }
}
pub fn big(s: &str) -> BigUint { BigUint::parse_bytes(s.as_bytes(), 16).unwrap() }
macro_rules! fld {
    ($t:ident, $n:expr, $p:expr) => {
        impl Fld for $t {
            const N: usize = $n;
            const NAME: &'static str = stringify!($t);
            fn raw(l: &[u64]) -> Self { let mut a = [0u64; $n]; a.copy_from_slice(l); $t { limbs: a } }
            fn limbs(&self) -> Vec<u64> { self.limbs.to_vec() }
            fn p() -> BigUint { big($p) }
        }
    };
}
fld!(TweedledeeBase, 4, "40000000000000000000000000000000038aa127696286c9842cafd400000001");
fld!(TweedledumBase, 4, "40000000000000000000000000000000038aa1276c3f59b9a14064e200000001");
fld!(PallasBase, 4, "40000000000000000000000000000000224698fc094cf91b992d30ed00000001");
fld!(VestaBase, 4, "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001");
fld!(Bls12377Scalar, 4, "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001");
fld!(Bls12377Base, 6, "1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001");

#[macro_export]
macro_rules! all_fields {
    ($f:ident, $($a:expr),*) => {
        $f::<plonky::TweedledeeBase>($($a),*); $f::<plonky::TweedledumBase>($($a),*); $f::<plonky::PallasBase>($($a),*);
        $f::<plonky::VestaBase>($($a),*); $f::<plonky::Bls12377Scalar>($($a),*); $f::<plonky::Bls12377Base>($($a),*);
    };
}
pub fn to_big(l: &[u64]) -> BigUint {
    let mut r = BigUint::zero();
    for &x in l.iter().rev() { r = (r << 64) + x; }
    r
}
pub fn to_limbs(x: &BigUint, n: usize) -> Vec<u64> {
    let mut x = x.clone(); let m = (BigUint::one() << 64) - 1u32;
    (0..n).map(|_| { let l = (&x & &m).to_u64().unwrap(); x >>= 64; l }).collect()
}
/// edge-heavy integer below p
pub fn int_below(r: &mut R, p: &BigUint, n: usize) -> BigUint {
    let x = match r.gen_range(0, 12) {
        0 => BigUint::from(r.gen_range(0u64, 6)),
        1 => p - 1u32 - r.gen_range(0u64, 6),
        2 => BigUint::one() << r.gen_range(0, 64 * n),
        3 => (BigUint::one() << r.gen_range(0, 64 * n)) - 1u32,
        4 => p >> r.gen_range(0, 64 * n),
        5 => (p >> 1) + r.gen_range(0u64, 3),
        6 | 7 | 8 => {
            // limbs from a small alphabet
            let l: Vec<u64> = (0..n).map(|_| match r.gen_range(0, 6) { 0 => 0, 1 => u64::max_value(), 2 => 1, 3 => 1 << 63, 4 => u64::max_value() - 1, _ => r.next_u64() }).collect();
            to_big(&l)
        }
        9 => {
            // limbs of p, one changed by a little
            let mut l = to_limbs(p, n); let i = r.gen_range(0, n);
            l[i] = if coin(r, 2) { l[i].wrapping_sub(r.gen_range(0, 3)) } else { l[i].wrapping_add(r.gen_range(0, 3)) };
            to_big(&l)
        }
        _ => { let l: Vec<u64> = (0..n).map(|_| r.next_u64()).collect(); to_big(&l) }
    };
    x % p
}
/// an element whose stored limbs (Montgomery form) follow the edge distribution, or whose canonical value does
pub fn elem<F: Fld>(r: &mut R) -> F {
    let p = F::p();
    let x = int_below(r, &p, F::N);
    if coin(r, 2) { F::raw(&to_limbs(&x, F::N)) } else { F::raw(&to_limbs(&(x * F::r() % p), F::N)) }
}
pub fn unif<F: Fld>(r: &mut R) -> F {
    let l: Vec<u64> = (0..F::N).map(|_| r.next_u64()).collect();
    F::raw(&to_limbs(&(to_big(&l) % F::p()), F::N))
}
/// the integer an element denotes, from its stored limbs alone
pub fn val<F: Fld>(x: &F) -> BigUint {
    let p = F::p();
    let rinv = F::r().modpow(&(&p - 2u32), &p);
    to_big(&x.limbs()) * rinv % p
}
pub fn canon<F: Fld>(x: &F) -> bool { to_big(&x.limbs()) < F::p() }
/// the element denoting an integer, built without the library
pub fn of<F: Fld>(x: &BigUint) -> F { let p = F::p(); F::raw(&to_limbs(&(x % &p * F::r() % &p), F::N)) }
pub fn ofu<F: Fld>(x: u64) -> F { of::<F>(&BigUint::from(x)) }
pub fn neg_mod(x: &BigUint, p: &BigUint) -> BigUint { if x.is_zero() { x.clone() } else { p - x } }
pub fn inv_mod(x: &BigUint, p: &BigUint) -> BigUint { x.modpow(&(p - 2u32), p) }
