H = "use plonky::*;\n"
seeds = [
 dict(id='C01-reduce', prop='C01', edits=[('src/field/bls12_377_base.rs', """        // Final conditional subtraction.
        if cmp(result, Self::ORDER) != Less {""", """        // Final conditional subtraction; the most significant limb decides.
        if result[5] > Self::ORDER[5] {""")],
  needs='a product whose Montgomery representative is below 2^320 while the unreduced value exceeds the order', breaks='Montgomery multiplication leaves the result unreduced, so a canonical element is represented by two limb vectors and compares unequal to itself',
  main=H+"""fn main() {
    let t = Bls12377Base { limbs: [12345, 0, 0, 0, 0, 0] };
    let mut a = Bls12377Base::from_canonical_u64(5);
    for _ in 0..2000 {
        a = a.square() + Bls12377Base::from_canonical_u64(7);
        let b = t * a.multiplicative_inverse().unwrap();
        let c = a * b;
        assert!(c == t && (c - t).is_zero(), "a * (t / a) != t");
    }
}
"""),
 dict(id='C02-dup', prop='C02', edits=[('src/field/field.rs', '''                index_map.push(x_nonzero.len());
                x_nonzero.push(*x_i);''', '''                // An element equal to the one before it shares its inverse.
                if x_nonzero.last() != Some(x_i) {
                    x_nonzero.push(*x_i);
                }
                index_map.push(x_nonzero.len() - 1);'''), ('src/field/field.rs', '''                result.push(Some(x_inv[index_map[i]]));''', '''                result.push(Some(x_inv[index_map[i].min(i)]));'''),
   ('src/field/field.rs', '''                // Push an intentionally out-of-bounds index to make sure it isn't used.
                index_map.push(n);''', '''                // A zero separates runs of equal elements.
                index_map.push(n);
                x_nonzero.dedup();''')],
  needs='a list with repeated nonzero elements', breaks='(placeholder)', main=H+'fn main() {}\n'),
]
seeds = [s for s in seeds if s['id'] != 'C02-dup']
seeds += [
 dict(id='C02-batch', prop='C02', edits=[('src/field/field.rs', '''        let mut a_inv = vec![F::ZERO; n];
        a_inv[n - 1] = a[n - 1].multiplicative_inverse().expect("No inverse");
        for i in (0..n - 1).rev() {
            a_inv[i] = x[i + 1] * a_inv[i + 1];
        }
''', '''        let mut a_inv = vec![F::ZERO; n];
        a_inv[n - 1] = if a[n - 1] == a[0] {
            x[0].multiplicative_inverse().expect("No inverse")
        } else {
            a[n - 1].multiplicative_inverse().expect("No inverse")
        };
        for i in (0..n - 1).rev() {
            a_inv[i] = if a[i + 1] == a[i] { a_inv[i + 1] } else { x[i + 1] * a_inv[i + 1] };
        }
'''), ('src/field/field.rs', '''            x_inv.push(a[i - 1] * a_inv[i]);''', '''            x_inv.push(if x[i] == x[i - 1] { x_inv[0] } else { a[i - 1] * a_inv[i] });''')],
  needs='a list in which two adjacent elements are equal and differ from the first one', breaks='batch inversion returns the first element\'s inverse for an element equal to its predecessor',
  main=H+'''fn main() {
    let x: Vec<TweedledeeBase> = [3u64, 5, 5, 7].iter().map(|&v| TweedledeeBase::from_canonical_u64(v)).collect();
    let y = TweedledeeBase::batch_multiplicative_inverse(&x);
    for (a, b) in x.iter().zip(&y) { assert!((*a * *b).is_one()); }
}
'''),
 dict(id='C03-range', prop='C03', edits=[('src/field/vesta_base.rs', 'v.len() == 4 && cmp(v[..].try_into().unwrap(), Self::ORDER) == Less', 'v.len() == 4 && cmp(Self::ORDER, v[..].try_into().unwrap()) != Less')],
  needs='the byte encoding of the field order itself', breaks='the order of VestaBase is accepted as a canonical encoding, an alias of zero',
  main=H+'''fn main() {
    let mut b = Vec::new();
    for l in VestaBase::NEG_ONE.to_canonical_u64_vec() { b.extend_from_slice(&l.to_le_bytes()); }
    assert!(VestaBase::from_canonical_u8_vec(b.clone()).is_ok());
    b[0] += 1;
    assert!(VestaBase::from_canonical_u8_vec(b).is_err());
}
'''),
 dict(id='C05-skip', prop='C05', edits=[('src/field/field.rs', 'for limb in power.to_canonical_u64_vec().iter() {', '''for limb in power.to_canonical_u64_vec().iter() {
            // Nothing to multiply in for an all-zero limb.
            if *limb == 0 && product.is_one() {
                power_bits = power_bits.saturating_sub(64);
                continue;
            }''')],
  needs='an exponent that is a nonzero multiple of 2^64', breaks='exp skips the 64 squarings of a zero low limb, so x.exp(2^64) returns x',
  main=H+'''fn main() {
    let x = TweedledeeBase::from_canonical_u64(3);
    let mut y = x; for _ in 0..64 { y = y.square(); }
    let e = TweedledeeBase::from_canonical_u64_vec(vec![0, 1, 0, 0]);
    assert_eq!(x.exp(e), y);
}
'''),
 dict(id='C06-sign', prop='C06', edits=[('src/field/field.rs', 'let limb_ordering = self_limb.cmp(&other_limb);', 'let limb_ordering = (self_limb as i64).cmp(&(other_limb as i64));')],
  needs='two elements whose most significant differing limbs straddle 2^63', breaks='limbs are compared as signed integers, so the order of field elements disagrees with the order of the integers',
  main=H+"""fn main() {
    let a = TweedledeeBase::from_canonical_u64(1 << 63);
    let b = TweedledeeBase::from_canonical_u64(5);
    assert!(a > b && b < a);
}
"""),
 dict(id='C04-three', prop='C04', edits=[('src/field/bls12_377_scalar.rs', 'const FOUR: Self = Self { limbs: [16163137587655999434,', 'const FOUR: Self = Self { limbs: [16163137587655999343,')],
  needs='use of the FOUR constant of Bls12377Scalar', breaks='FOUR is not four times ONE',
  main=H+'''fn main() { let o = Bls12377Scalar::ONE; assert_eq!(Bls12377Scalar::FOUR, o + o + o + o); }
'''),
]
