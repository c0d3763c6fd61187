SEEDS = [
dict(id="rot-negative-wrap", property="C16", needs="a query with a negative rotation read in the row domain at a row where it wraps around the start",
     breaks="a query with rotation -r at row i < r reads row n-(r-i)-1 instead of n-(r-i)",
     edits=[("src/oracles/traits.rs", """                    let move_from_end =
                        (rotation.degree - omega_index) % domain_size;
                    evals[domain_size - move_from_end]""", """                    let last_row = domain_size - 1;
                    let move_from_end =
                        (rotation.degree - omega_index) % domain_size;
                    evals[last_row - move_from_end]""")],
     demo="""use crate::oracles::rotation::{Rotation, Sign};
use crate::oracles::traits::Instantiable;
use crate::oracles::witness::WitnessProverOracle;
use ark_bls12_381::Fr as F;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};

#[test]
fn negative_rotation_wraps() {
    let n = 8usize;
    let domain = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let evals: Vec<F> = (0..n as u64).map(|i| F::from(100 + i)).collect();
    let poly = DensePolynomial::from_coefficients_slice(&domain.ifft(&evals));
    let o = WitnessProverOracle::new("a", poly, &evals, false);
    for r in 1..4usize {
        for i in 0..n {
            let v = o.query_at_omega_in_original_domain(i, Rotation::new(r, Sign::Minus));
            assert_eq!(v, evals[(i + n - r) % n]);
        }
    }
}
"""),
dict(id="fs-partial-state", property="C23", needs="two histories whose transcript states share their first 16 bytes",
     breaks="absorbing chains only half of the previous transcript state",
     edits=[("src/rng.rs", "bytes.extend_from_slice(&self.seed);", "bytes.extend_from_slice(&self.seed[..16]);")],
     demo="""use crate::rng::{FiatShamirRng, SimpleHashFiatShamirRng};
use ark_std::rand::RngCore;
use blake2::{Blake2s, Digest};
use rand_chacha::ChaChaRng;
use rand_chacha::rand_core::SeedableRng;

#[test]
fn absorb_chains_whole_state() {
    let mut fs = SimpleHashFiatShamirRng::<Blake2s, ChaChaRng>::initialize(&7u64);
    fs.absorb(&9u64);
    let s0 = Blake2s::digest(&7u64.to_le_bytes());
    let mut inp = 9u64.to_le_bytes().to_vec();
    inp.extend_from_slice(&s0);
    let s1 = Blake2s::digest(&inp);
    let mut seed = [0u8; 32];
    seed.copy_from_slice(&s1);
    let mut r = ChaChaRng::from_seed(seed);
    assert_eq!(fs.next_u64(), r.next_u64());
}
"""),
dict(id="delta-extra-root", property="C18", needs="an accumulator step of four, which the gate must refuse",
     breaks="the Delta gate accepts 4 as a two-bit limb",
     edits=[("src/vo/precompiled/logic.rs", """                (e.clone() - const_3)
                    * (e.clone() - const_2)""", """                let const_4: VirtualExpression<F> =
                    VirtualExpression::Constant(F::from(4u32));
                (e.clone() - const_4)
                    * (e.clone() - const_3)
                    * (e.clone() - const_2)""")],
     demo="""use crate::oracles::query::OracleType;
use crate::oracles::rotation::Rotation;
use crate::vo::precompiled::logic::Delta;
use crate::vo::precompiled::PrecompiledVO;
use crate::vo::query::VirtualQuery;
use crate::vo::virtual_expression::VirtualExpression as V;
use ark_bls12_381::Fr as F;
use ark_ff::{One, Zero};

fn ev(e: &V<F>, q: &dyn Fn(&VirtualQuery) -> F) -> F {
    match e {
        V::Constant(c) => *c,
        V::Oracle(x) => q(x),
        V::Negated(a) => -ev(a, q),
        V::Sum(a, b) => ev(a, q) + ev(b, q),
        V::Product(a, b) => ev(a, q) * ev(b, q),
        V::Scaled(a, k) => ev(a, q) * k,
    }
}

#[test]
fn delta_accepts_only_two_bits() {
    let (e, _) = <Delta as PrecompiledVO<F>>::get_expr_and_queries();
    for a in 0u64..5 {
        for d in 0u64..10 {
            let v = ev(&e, &|q| match q.oracle_type {
                OracleType::Fixed => F::zero(),
                _ => if q.rotation == Rotation::next() { F::from(4 * a + d) } else { F::from(a) },
            });
            assert_eq!(v.is_zero(), d < 4, "limb {}", d);
        }
    }
    let _ = F::one();
}
"""),
dict(id="stale-extension", property="C21", needs="the same fixed oracle extended twice, over domains of different size",
     breaks="extended values of a fixed oracle are kept from an earlier, different extended domain",
     edits=[("src/oracles/fixed.rs", """        self.evals_at_coset_of_extended_domain =
            Some(extended_domain.coset_fft(&self.poly));""", """        if self.evals_at_coset_of_extended_domain.is_none() {
            self.evals_at_coset_of_extended_domain =
                Some(extended_domain.coset_fft(&self.poly));
        }""")],
     demo="""use crate::oracles::fixed::FixedProverOracle;
use crate::oracles::traits::Instantiable;
use ark_bls12_381::Fr as F;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};

#[test]
fn extension_follows_domain() {
    let n = 4usize;
    let domain = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let evals: Vec<F> = (0..n as u64).map(|i| F::from(3 + i * i)).collect();
    let poly = DensePolynomial::from_coefficients_slice(&domain.ifft(&evals));
    let mut o = FixedProverOracle::new("a", poly.clone(), &evals);
    for k in [8usize, 16] {
        let ext = GeneralEvaluationDomain::<F>::new(k).unwrap();
        o.compute_extended_evals(&ext);
        assert_eq!(o.get_extended_coset_evals().unwrap(), &ext.coset_fft(&poly));
    }
}
"""),
dict(id="degree-scaled-zero", property="C15", needs="an expression scaled by zero",
     breaks="the degree of a zero-scaled expression is reported as zero, not as that of the expression",
     edits=[("src/vo/expression.rs", "            Expression::Scaled(expr, _) => expr.degree(oracle_fn),", """            Expression::Scaled(expr, f) => {
                if f.is_zero() {
                    return Ok(0);
                }
                expr.degree(oracle_fn)
            }""")],
     demo="""use crate::oracles::query::{OracleQuery, OracleType};
use crate::oracles::rotation::Rotation;
use crate::vo::expression::Expression;
use ark_bls12_381::Fr as F;
use ark_ff::Zero;

#[test]
fn degree_is_structural() {
    let q = OracleQuery { label: "a".to_string(), rotation: Rotation::curr(), oracle_type: OracleType::Witness };
    let a: Expression<F> = q.into();
    let e = (a.clone() * a.clone()) * F::zero();
    assert_eq!(e.degree(&|_| Ok(7)).unwrap(), 14);
}
"""),
dict(id="neg-com-identity", property="C22", needs="a caller that negates a commitment",
     breaks="neg_com of a commitment is not its inverse",
     edits=[("src/commitment.rs", "c.0.mul(-E::Fr::one()).into()", "c.0.mul(E::Fr::one()).into()")],
     demo="""use crate::commitment::{HomomorphicCommitment, KZG10};
use ark_bls12_381::{Bls12_381, Fr as F, G1Affine};
use ark_ec::AffineCurve;
use ark_ff::UniformRand;
use ark_std::test_rng;

#[test]
fn negation_cancels() {
    type PC = KZG10<Bls12_381>;
    let mut rng = test_rng();
    let c = ark_poly_commit::kzg10::Commitment::<Bls12_381>(
        G1Affine::prime_subgroup_generator().mul(F::rand(&mut rng)).into());
    let n = <PC as HomomorphicCommitment<F>>::neg_com(&c);
    let s = <PC as HomomorphicCommitment<F>>::add(&c, &n);
    assert!(<PC as HomomorphicCommitment<F>>::is_zero(&s));
}
"""),
]
