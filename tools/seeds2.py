import os
E2E = open("/verif/tools/e2e.rs").read()
FSLINE = [l for l in E2E.splitlines() if "pub type FS" in l][0]


def with_fs(body):
    return E2E.replace(FSLINE, "    pub type FS = super::TestFs;") + body


GATES = """
// w0 * w1 = w2 on every row
fn mul_case(n: usize, u: usize) -> Case {
    let (a, b, c) = (w(0, 0), w(1, 0), w(2, 0));
    let a_v: Vec<F> = (0..n as i64).map(|i| f(3 * i + 2)).collect();
    let b_v: Vec<F> = (0..n as i64).map(|i| f(i * i + 5)).collect();
    let c_v: Vec<F> = a_v.iter().zip(b_v.iter()).map(|(x, y)| *x * y).collect();
    Case { n, u, wit: vec![("a", a_v, false), ("b", b_v, false), ("c", c_v, false)],
           gates: vec![(e(&a) * e(&b) - e(&c), vec![a, b, c])], ..Default::default() }
}
"""
LOOK = """
// mul_case with a lookup of column `l` into table `t`
fn lookup_case(n: usize, u: usize) -> Case {
    let mut c = mul_case(n, u);
    c.wit.push(("l", pad(&[1, 2, 2, 3, 1, 1], n), false));
    c.table.push(("t", pad(&[1, 2, 3, 4, 5, 6], n)));
    for i in 6..u { c.wit[3].1[i] = f(2); c.table[0].1[i] = f(i as i64 + 1); }
    let l = w(3, 0);
    c.lookups.push((vec![e(&l)], vec![l], vec![fx(0, 0)]));
    c
}
"""
FSREC = """
use crate::rng::FiatShamirRng;
use ark_ff::ToBytes;
use ark_std::rand::RngCore;
thread_local! { static LOG: std::cell::RefCell<Vec<Option<Vec<u8>>>> = Default::default(); }
fn log(x: Option<Vec<u8>>) { LOG.with(|l| l.borrow_mut().push(x)) }
fn take_log() -> Vec<Option<Vec<u8>>> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
// records absorbed messages (Some) and drawn words (None)
pub struct TestFs(SimpleHashFiatShamirRng<blake2::Blake2s, ChaChaRng>);
impl RngCore for TestFs {
    fn next_u32(&mut self) -> u32 { log(None); self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { log(None); self.0.next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { log(None); self.0.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> { log(None); self.0.try_fill_bytes(d) }
}
impl FiatShamirRng for TestFs {
    fn initialize<'a, T: 'a + ToBytes>(i: &'a T) -> Self { TestFs(FiatShamirRng::initialize(i)) }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, i: &'a T) {
        let mut b = vec![]; i.write(&mut b).unwrap(); log(Some(b)); self.0.absorb(i)
    }
}
"""
FSCONST = """
use crate::rng::FiatShamirRng;
use ark_ff::ToBytes;
use ark_std::rand::RngCore;
// the k-th challenge drawn is CH[k]: theta, beta, gamma, alpha, xi, x1, x2, x3, x4
pub const CH: [u64; 9] = [11, 13, 17, 0, 23, 29, 31, 37, 41];
pub struct TestFs(usize);
impl RngCore for TestFs {
    fn next_u32(&mut self) -> u32 { unreachable!() }
    fn next_u64(&mut self) -> u64 {
        let (k, limb) = (self.0 / 4, self.0 % 4);
        self.0 += 1;
        if limb == 0 { CH[k % 9] } else { 0 }
    }
    fn fill_bytes(&mut self, _: &mut [u8]) { unreachable!() }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), ark_std::rand::Error> { unreachable!() }
}
impl FiatShamirRng for TestFs {
    fn initialize<'a, T: 'a + ToBytes>(_: &'a T) -> Self { TestFs(0) }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, _: &'a T) {}
}
// the field element the generator yields for a word
fn ch(k: usize) -> F { let mut r = TestFs(4 * k); F::rand(&mut r) }
"""
SEEDS = [
dict(id="ord-narrow-key", property="C32", needs="two rotations in one direction whose distances differ by a multiple of 2^16",
     breaks="rotations are ordered by a key that keeps 16 bits of the distance, so far apart rotations compare as equal",
     edits=[("src/oracles/rotation.rs", """#[derive(PartialEq, PartialOrd, Eq, Ord, Clone, Copy, Debug)]
pub struct Rotation {
    pub(crate) degree: usize,
    pub(crate) sign: Sign,
}
""", """#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct Rotation {
    pub(crate) degree: usize,
    pub(crate) sign: Sign,
}

impl Rotation {
    // compact key: distance, then direction
    fn sort_key(&self) -> u32 {
        ((self.degree as u32) << 16) | (self.sign == Sign::Minus) as u32
    }
}

impl Ord for Rotation {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.sort_key().cmp(&other.sort_key())
    }
}

impl PartialOrd for Rotation {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
""")],
     demo="""use crate::oracles::rotation::{Rotation, Sign};
use std::cmp::Ordering;
use std::collections::BTreeSet;

#[test]
fn distances_order_rotations() {
    let d = [0usize, 1, 2, 255, 256, 65535, 65536, 65537, 1 << 20];
    for (i, a) in d.iter().enumerate() {
        for (j, b) in d.iter().enumerate() {
            for (s, t) in [(Sign::Plus, Sign::Plus), (Sign::Minus, Sign::Minus), (Sign::Plus, Sign::Minus)] {
                let (x, y) = (Rotation::new(*a, s), Rotation::new(*b, t));
                assert_eq!(x == y, i == j && s == t);
                assert_eq!(x.cmp(&y) == Ordering::Equal, i == j && s == t);
            }
        }
    }
    assert_eq!(d.iter().map(|x| Rotation::new(*x, Sign::Plus)).collect::<BTreeSet<_>>().len(), d.len());
}
"""),
dict(id="permute-missing-value", property="C28", needs="an input value that does not occur in the table",
     breaks="an input value missing from the table is written into the permuted table instead of being refused",
     edits=[("src/lookup/permute.rs", """            if let Some(cnt) = table_element_counts.get_mut(&a_prime_i) {
                *cnt -= 1;
            } else {
                panic!("Element {} not found in table", a_prime_i)
            }
""", """            if let Some(cnt) = table_element_counts.get_mut(&a_prime_i) {
                *cnt -= 1;
            }
"""), ("src/lookup/permute.rs", """            let index_to_assign = unassigned_indices.pop().unwrap();
            permuted_table[index_to_assign] = el;
""", """            if let Some(index_to_assign) = unassigned_indices.pop() {
                permuted_table[index_to_assign] = el;
            }
""")],
     demo="""use crate::lookup::permute::permute_for_lookup;
use ark_bls12_381::Fr as F;

fn v(x: &[u64]) -> Vec<F> { x.iter().map(|y| F::from(*y)).collect() }

#[test]
fn missing_value_is_refused() {
    for (a, s) in [(v(&[1, 1, 9, 2]), v(&[1, 2, 3, 4])), (v(&[7, 7, 7, 7]), v(&[1, 2, 3, 4])), (v(&[1, 1, 1, 2]), v(&[1, 3, 3, 3]))] {
        let r = std::panic::catch_unwind(|| permute_for_lookup(&a, &s));
        assert!(r.is_err());
    }
    let (a, s) = permute_for_lookup(&v(&[2, 1, 2, 2]), &v(&[1, 2, 3, 4]));
    assert_eq!(a, v(&[1, 2, 2, 2]));
    let mut t = s.clone();
    t.sort();
    assert_eq!(t, v(&[1, 2, 3, 4]));
}
"""),
dict(id="qblind-unopened", property="C04", needs="a proof whose claimed row-selector value is not the committed one; the prover, the verifier and the randomness list each leave the selector out",
     breaks="the row selector's claimed evaluation is no longer part of the batched opening",
     edits=[("src/turbo_plonk.rs", """            .chain(preprocessed.permutation_oracles.iter())
            .chain(iter::once(&preprocessed.q_blind))
            .map(|o| o as &dyn Instantiable<F>)
""", """            .chain(preprocessed.permutation_oracles.iter())
            .map(|o| o as &dyn Instantiable<F>)
"""), ("src/turbo_plonk.rs", """                .chain(preprocessed.permutation_oracles.iter())
                .chain(iter::once(&preprocessed.q_blind))
                .map(|o| o as &dyn CommittedOracle<F, PC>)
""", """                .chain(preprocessed.permutation_oracles.iter())
                .map(|o| o as &dyn CommittedOracle<F, PC>)
"""), ("src/turbo_plonk.rs", "use std::iter::{self, successors};", "use std::iter::successors;"),
     ("src/data_structures.rs", """                    + table_oracles.len()
                    + 1 // for q_blind
""", """                    + table_oracles.len()
""")],
     demo=E2E + GATES + """
#[test]
fn selector_is_opened() {
    assert_eq!(mul_case(8, 5).run(), Ok(true));
    let r = mul_case(8, 5).run_full(|_| {}, |pre| {
        let c = pre.q_blind.commitment.unwrap();
        pre.q_blind.commitment = Some(PC::add(&c, &c));
    }, None);
    assert_eq!(r, Ok(false));
}
"""),
dict(id="lookup-z-late", property="C02", needs="a circuit with a lookup; the order differs only in the transcript",
     breaks="the separation challenge is drawn before the lookup aggregation commitments are absorbed (on both sides)",
     edits=[("src/turbo_plonk.rs", """        fs_rng.absorb(&to_bytes![lookup_z_commitments].unwrap());

        // --------------------------------------------------------------------

        // --------------------------------------------------------------------
        // Quotient round

        let (verifier_first_msg, verifier_state) =
            PIOPforPolyIdentity::<F, PC>::verifier_first_round(
                verifier_state,
                &mut fs_rng,
            );
""", """        // --------------------------------------------------------------------

        // --------------------------------------------------------------------
        // Quotient round

        let (verifier_first_msg, verifier_state) =
            PIOPforPolyIdentity::<F, PC>::verifier_first_round(
                verifier_state,
                &mut fs_rng,
            );

        fs_rng.absorb(&to_bytes![lookup_z_commitments].unwrap());
"""), ("src/turbo_plonk.rs", """        fs_rng.absorb(&to_bytes![&proof.lookup_z_commitments].unwrap());

        let (verifier_first_msg, verifier_state) =
            PIOPforPolyIdentity::<F, PC>::verifier_first_round(
                verifier_state,
                &mut fs_rng,
            );
""", """        let (verifier_first_msg, verifier_state) =
            PIOPforPolyIdentity::<F, PC>::verifier_first_round(
                verifier_state,
                &mut fs_rng,
            );

        fs_rng.absorb(&to_bytes![&proof.lookup_z_commitments].unwrap());
""")],
     demo=with_fs(FSREC + GATES + LOOK + """
#[test]
fn lookup_aggregation_precedes_alpha() {
    let mut z = vec![];
    let c = lookup_case(8, 5);
    let r = c.run_with(|p| {
        ark_ff::ToBytes::write(&p.lookup_z_commitments, &mut z).unwrap();
    });
    assert_eq!(r, Ok(true));
    let l = take_log();
    // the messages absorbed before each group of draws
    let at = l.iter().position(|x| matches!(x, Some(b) if !z.is_empty() && b.windows(z.len()).any(|y| y == &z[..]))).expect("absorbed");
    // theta, beta, gamma: three draws of field elements come before it, alpha comes after
    let mut groups = 0;
    let mut prev = false;
    for x in &l[..at] { let d = x.is_none(); if d && !prev { groups += 1; } prev = d; }
    assert_eq!(groups, 2, "only the lookup and permutation challenges precede the lookup aggregation commitments");
}
""")),
dict(id="stale-eval", property="C27", needs="two verifications with the same key and oracles whose proofs share all commitments but not the evaluations",
     breaks="an evaluation left in a witness oracle by an earlier verification at the same point is kept",
     edits=[("src/oracles/witness.rs", """        let _ = self.evals_at_challenges.insert(challenge, eval);
""", """        self.evals_at_challenges.entry(challenge).or_insert(eval);
""")],
     demo=E2E + GATES + """
#[test]
fn earlier_verification_leaves_nothing() {
    fn bad(p: &mut TPProof<F, PC>) { p.witness_evals[0] += F::one(); }
    assert_eq!(mul_case(8, 5).run(), Ok(true));
    assert_eq!(mul_case(8, 5).run_full(|_| {}, |_| {}, Some(bad)), Ok(true));
}
"""),
dict(id="quotient-zero-chunk", property="C24", needs="a quotient one of whose inner chunks is zero",
     breaks="zero chunks of the quotient are left out, so the later chunks are recombined with the wrong power",
     edits=[("src/piop/prover.rs", """            .chunks(state.domain.size())
            .enumerate()
            .map(|(i, chunk)| {
                let poly""", """            .chunks(state.domain.size())
            .filter(|chunk| chunk.iter().any(|c| !c.is_zero()))
            .enumerate()
            .map(|(i, chunk)| {
                let poly""")],
     demo=E2E + """
#[test]
fn zero_low_chunk() {
    // w(X) = X: w^8 - w^4 = (X^4 - 1) * X^4 on a domain of four rows
    let n = 4;
    let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let x: Vec<F> = d.elements().collect();
    let q = w(0, 0);
    let x2 = || e(&q) * e(&q);
    let x4 = || x2() * x2();
    let c = Case { n, u: 2, wit: vec![("x", x, false)], gates: vec![(x4() * x4() - x4(), vec![q.clone()])], ..Default::default() };
    let mut chunks = 0;
    assert_eq!(c.run_with(|p| chunks = p.quotient_chunk_commitments.len()), Ok(true));
    assert!(chunks >= 2);
}
"""),
dict(id="alpha-shared", property="C11", needs="permuted columns whose first aggregation constraint is violated together with the last gate",
     breaks="the first permutation constraint is multiplied by the same power of alpha as the last gate (on both sides)",
     edits=[("src/piop/prover.rs", """        let permutation_begin_with =
            *powers_of_alpha.last().unwrap() * verifier_msg.alpha;
""", """        let permutation_begin_with = *powers_of_alpha.last().unwrap();
"""), ("src/turbo_plonk.rs", """        let permutation_begin_with =
            *powers_of_alpha.last().unwrap() * verifier_first_msg.alpha;
""", """        let permutation_begin_with = *powers_of_alpha.last().unwrap();
""")],
     demo=with_fs(FSCONST + GATES + """
#[test]
fn permutation_has_its_own_powers() {
    // with alpha = 0 only the first gate is left in the identity
    let mut c = mul_case(8, 5);
    for col in c.wit.iter_mut() { col.2 = true; }
    c.wit[1].1[1] = c.wit[0].1[2];
    c.wit[2].1[1] = c.wit[0].1[1] * c.wit[1].1[1];
    c.copies = vec![((0, 2), (1, 1)), ((1, 1), (0, 2))];
    let (alpha, xi) = (ch(3), ch(4));
    assert!(alpha.is_zero());
    let mut evals = (vec![], vec![]);
    assert_eq!(c.run_with(|p| evals = (p.witness_evals.clone(), p.quotient_chunks_evals.clone())), Ok(true));
    let (we, qe) = evals;
    let xn = xi.pow([8u64]);
    let mut q = F::zero();
    let mut pw = F::one();
    for v in qe { q += pw * v; pw *= xn; }
    assert_eq!(we[0] * we[1] - we[2], q * (xn - F::one()));
}
""")),
dict(id="mock-last-row", property="C25", needs="an assignment that violates a gate only in the last row of the domain",
     breaks="the mock prover never looks at the last row",
     edits=[("src/mock_prover.rs", """        for (row_n, omega) in omegas.iter().enumerate() {
            for (vo_index, vo) in vos.iter().enumerate() {
                let vo_evaluation = evaluate_vo(vo, *omega);

                if vo_evaluation != F::zero() {
                    panic!""", """        // consecutive rows
        for (row_n, rows) in omegas.windows(2).enumerate() {
            for (vo_index, vo) in vos.iter().enumerate() {
                let vo_evaluation = evaluate_vo(vo, rows[0]);

                if vo_evaluation != F::zero() {
                    panic!""")],
     demo=E2E.replace("turbo_plonk::TurboPlonk,", "turbo_plonk::TurboPlonk, mock_prover::MockProver,").replace(
         "let mut proof = Pil::prove(", "let _ = MockProver::<F, PC, FS>::prove(&pk, &pp, &mut wit, &mut ins, &vos, n, &mut rng).map_err(|_| \"mock\".to_string())?;\n            let mut proof = Pil::prove(") + GATES + """
#[test]
fn every_row_is_looked_at() {
    assert_eq!(mul_case(8, 5).run(), Ok(true));
    for row in 0..8 {
        let r = std::panic::catch_unwind(|| {
            let mut c = mul_case(8, 5);
            c.wit[2].1[row] += F::one();
            c.unchecked = 8 - row; // the real prover does not object
            c.unchecked = c.unchecked.min(7);
            c.run()
        });
        assert!(match r { Err(_) => true, Ok(Err(m)) => m == "mock", Ok(_) => false }, "row {}", row);
    }
}
"""),
dict(id="sigma-sorted", property="C20", needs="more than ten permuted columns (sigma_10 sorts before sigma_2)",
     breaks="the prover orders the permutation columns by label while the verifier and the separators keep the declared order",
     edits=[("src/data_structures.rs", """        let permutation_oracles = &mut permutation_oracles.to_vec();
""", """        let permutation_oracles = &mut permutation_oracles.to_vec();
        permutation_oracles.sort_by_key(|oracle| oracle.get_label());
""")],
     demo=E2E + """
#[test]
fn permutation_columns_keep_their_order() {
    let n = 8;
    let u = 5;
    for cols in [3usize, 12] {
        let names = ["a", "b", "c", "d", "e", "g", "h", "i", "j", "k", "l", "m"];
        let mut c = Case { n, u, ..Default::default() };
        for k in 0..cols {
            let v: Vec<F> = (0..n as i64).map(|i| f(i * i + 11 * k as i64 + 1)).collect();
            c.wit.push((names[k], v, true));
        }
        let p: Vec<F> = (0..n).map(|i| c.wit[0].1[i] * c.wit[1].1[i]).collect();
        c.wit[2].1 = p;
        let (x, y, z) = (w(0, 0), w(1, 0), w(2, 0));
        c.gates.push((e(&x) * e(&y) - e(&z), vec![x, y, z]));
        for k in 3..cols { // keep every permuted column queried at the current row
            let (x, y) = (w(k, 0), w(0, 0));
            c.gates.push(((e(&x) - e(&x)) * e(&y), vec![x, y]));
        }
        let r = std::panic::catch_unwind(|| c.run());
        assert_eq!(r.ok(), Some(Ok(true)), "{} columns", cols);
    }
}
"""),
dict(id="table-query-dedup", property="C17", needs="one lookup that uses the same table column at two rotations",
     breaks="the second query of a table column in one lookup is dropped",
     edits=[("src/vo/generic_lookup_vo.rs", """                    table_oracles[query.index]
                        .register_rotation(query.rotation);
                    table_queries.push(OracleQuery {
                        label: table_oracles[query.index].get_label().clone(),
                        rotation: query.rotation,
                        oracle_type: OracleType::Fixed,
                    })
""", """                    let label = table_oracles[query.index].get_label();
                    table_oracles[query.index]
                        .register_rotation(query.rotation);
                    if !table_queries.iter().any(|q| q.label == label) {
                        table_queries.push(OracleQuery {
                            label,
                            rotation: query.rotation,
                            oracle_type: OracleType::Fixed,
                        })
                    }
""")],
     demo=E2E + """
#[test]
fn table_column_at_two_rotations() {
    let n = 8;
    let mut wit = [WitnessProverOracle::<F>::new("a", DensePolynomial::zero(), &[], false)];
    let mut ins: [InstanceProverOracle<F>; 0] = [];
    let mut fix: [FixedProverOracle<F>; 0] = [];
    let mut tab = [FixedProverOracle::<F> { label: "t".into(), poly: DensePolynomial::zero(), evals: vec![F::zero(); n],
        evals_at_coset_of_extended_domain: None, queried_rotations: Default::default() }];
    let (q, r) = (w(0, 0), w(0, 1));
    let mut l = GenericLookupVO::<F>::init((vec![e(&q), e(&r)], vec![q, r], vec![fx(0, 0), fx(0, 1)]));
    l.configure(&mut wit, &mut ins, &mut fix, &mut tab).unwrap();
    let t = l.get_table_queries().unwrap();
    assert_eq!(t.len(), 2);
    assert!(t[0].rotation == Rotation::curr() && t[1].rotation == Rotation::next());
}
"""),
dict(id="zh-by-degree", property="C19", needs="a vanishing polynomial of full degree that is not X^n - 1",
     breaks="the stored inverses are those of X^n - 1 for every vanishing polynomial of degree n",
     edits=[("src/indexer.rs", """        } else if vanish_dense == z_h {
""", """        } else if z_h.degree() == vanish_dense.degree() {
""")],
     demo=E2E + GATES + """
use crate::vo::generic_vo::GenericVO as G;
#[test]
fn inverses_are_of_the_given_polynomial() {
    let n = 4;
    let mut rng = test_rng();
    let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let srs = Pil::universal_setup(n - 1, &mut rng).unwrap();
    let (_, pcvk) = Pil::prepare_keys(&srs).unwrap();
    let mut wit = [WitnessProverOracle::<F>::new("a", DensePolynomial::zero(), &[], false)];
    let mut ins: [InstanceProverOracle<F>; 0] = [];
    let mut fix: [FixedProverOracle<F>; 0] = [];
    let q = w(0, 0);
    let mut g = G::<F>::init((e(&q) * e(&q) * e(&q) * e(&q), vec![q]));
    g.configure(&mut wit, &mut ins, &mut fix);
    let vos: Vec<&dyn VirtualOracle<F>> = vec![&g];
    for c in [1i64, 16] {
        let mut zh = vec![F::zero(); n + 1];
        zh[n] = F::one();
        zh[0] = -f(c);
        let zh = DensePolynomial::from_coefficients_vec(zh);
        let vk = Indexer::<F, PC>::index(&pcvk, &vos, vec![], &wit, &ins, &fix, d, &zh, PermutationInfo::empty(), 2).ok().unwrap();
        let ev = vk.index_info.extended_coset_domain.coset_fft(&zh);
        assert!(ev.len() > n);
        for (a, b) in ev.iter().zip(vk.zh_inverses_over_coset.iter()) { assert_eq!(*a * b, F::one()); }
    }
}
"""),
dict(id="f-not-hiding", property="C13", needs="two proofs of one statement from different prover randomness under the same challenges",
     breaks="the batched opening polynomial is committed without blinding",
     edits=[("src/multiproof/piop/prover.rs", """            None,
            Some(1), // we open in x3, so we blind once
""", """            None,
            None, // q_i-s are already blinded
""")],
     demo=with_fs(FSCONST + """
use crate::multiproof::piop::Multiopen;
#[test]
fn batched_opening_is_blinded() {
    let n = 8;
    let mut rng = test_rng();
    let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let srs = Pil::universal_setup(n - 1, &mut rng).unwrap();
    let (ck, _) = Pil::prepare_keys(&srs).unwrap();
    let v: Vec<F> = (0..n as i64).map(|i| f(i * i + 7)).collect();
    let mut o = WitnessProverOracle::new("a", interp(&d, &v), &v, false);
    o.register_rotation(Rotation::curr());
    let (_, rands) = PC::commit(&ck, &[o.to_labeled()], Some(&mut rng)).unwrap();
    let os: Vec<&dyn Instantiable<F>> = vec![&o];
    let mut run = || {
        let mut fs = <TestFs as FiatShamirRng>::initialize(&0u8);
        Multiopen::<F, PC, TestFs>::prove(&ck, &os, &rands, f(5), n, &mut fs, &mut rng).ok().unwrap().f_commit
    };
    let (a, b) = (run(), run());
    assert!(a != b);
}
""")),
dict(id="add-rand-empty", property="C22", needs="in-place addition onto empty randomness",
     breaks="adding in place onto empty randomness leaves it empty",
     edits=[("src/commitment.rs", """        a.blinding_polynomial += &b.blinding_polynomial
""", """        if a.is_hiding() {
            a.blinding_polynomial += &b.blinding_polynomial
        }
"""), ("src/commitment.rs", """    fn add_rands(
        a: &Self::Randomness,
        b: &Self::Randomness,
    ) -> Self::Randomness {
        a.clone() + b""", """    fn add_rands(
        a: &Self::Randomness,
        b: &Self::Randomness,
    ) -> Self::Randomness {
        a.clone() + b""")],
     demo="""use crate::commitment::{HomomorphicCommitment, KZG10};
use ark_bls12_381::{Bls12_381, Fr as F};
use ark_poly::{univariate::DensePolynomial, UVPolynomial};
use ark_poly_commit::PCRandomness;
type PC = KZG10<Bls12_381>;

#[test]
fn in_place_addition() {
    type R = <PC as ark_poly_commit::PolynomialCommitment<F, DensePolynomial<F>>>::Randomness;
    let mut r = R::empty();
    r.blinding_polynomial = DensePolynomial::from_coefficients_slice(&[F::from(3u64), F::from(4u64)]);
    for a in [R::empty(), r.clone()] {
        for b in [R::empty(), r.clone()] {
            let mut c = a.clone();
            PC::add_assign_rand(&mut c, &b);
            assert_eq!(c.blinding_polynomial, PC::add_rands(&a, &b).blinding_polynomial);
        }
    }
}
"""),
dict(id="low-degree-group", property="C12", needs="a group of columns of degree below its number of opening points (for example a constant column opened at two points), ahead of another group",
     breaks="the prover leaves zero group quotients out before numbering the groups, shifting the batching powers of the later ones",
     edits=[("src/multiproof/piop/prover.rs", """        let mut f_agg_poly = DensePolynomial::zero();
        for (i, f_i) in f_polys.iter().enumerate() {
""", """        let mut f_agg_poly = DensePolynomial::zero();
        // zero quotients contribute nothing
        for (i, f_i) in f_polys.iter().filter(|f_i| !f_i.is_zero()).enumerate()
        {
""")],
     demo=E2E + """
#[test]
fn constant_column_at_two_points() {
    let n = 8;
    for constant in [false, true] {
        // p is the only column opened at exactly {prev, curr}
        let (a, b, p, p1, a1) = (w(0, 0), w(1, 0), fx(0, 0), fx(0, 1), w(0, 2));
        let av: Vec<F> = (0..n as i64).map(|i| f(2 * i * i + 1)).collect();
        let pv: Vec<F> = (0..n as i64).map(|i| if constant { f(4) } else { f(i * i + 3) }).collect();
        let bv: Vec<F> = (0..n).map(|i| av[i] * pv[i] + pv[(i + 1) % n] + av[(i + 2) % n]).collect();
        let c = Case { n, u: 5, wit: vec![("a", av, false), ("b", bv, false)], fixed: vec![("p", pv)],
            gates: vec![(e(&a) * e(&p) + e(&p1) + e(&a1) - e(&b), vec![a, b, p, p1, a1])], ..Default::default() };
        assert_eq!(c.run(), Ok(true), "constant {}", constant);
    }
}
"""),
dict(id="agg-one-blinder", property="C10", needs="a lookup with more than one row beyond the usable ones",
     breaks="all rows of a lookup aggregation polynomial beyond the usable ones hold the same random value",
     edits=[("src/lookup/subset_equality.rs", """        let t = domain.size() - 1 - u;
        for _ in 0..t {
            z_evals.push(F::rand(zk_rng));
        }

        let poly""", """        let blinder = F::rand(zk_rng);
        z_evals.resize(domain.size(), blinder);

        let poly""")],
     demo=E2E + """
use crate::lookup::subset_equality::SubsetEqualityArgument;
#[test]
fn blinders_are_independent() {
    let n = 8;
    let u = 4;
    let mut rng = test_rng();
    let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let x = GeneralEvaluationDomain::<F>::new(4 * n).unwrap();
    let v: Vec<F> = (0..n as i64).map(|i| f(i + 1)).collect();
    let o = WitnessProverOracle::new("a", interp(&d, &v), &v, false);
    let z = SubsetEqualityArgument::construct_agg_poly(&(o.clone(), o.clone(), o.clone(), o), f(3), f(5), 0, u, &d, &x, &mut rng);
    let mut t: Vec<F> = z.evals()[u + 1..].to_vec();
    t.sort();
    t.dedup();
    assert_eq!(t.len(), n - u - 1);
}
"""),
dict(id="eval-default-zero", property="C21", needs="a query of a fixed column at a point for which no evaluation was registered",
     breaks="a missing evaluation of a fixed column reads as zero instead of an error",
     edits=[("src/oracles/fixed.rs", """    fn query(&self, challenge: &F) -> Result<F, Error> {
        match self.evals_at_challenges.get(challenge) {
            Some(eval) => Ok(*eval),
            None => Err(Error::MissingConcreteEval(self.label.clone())),
        }
    }
""", """    fn query(&self, challenge: &F) -> Result<F, Error> {
        if self.queried_rotations.is_empty() {
            return Err(Error::MissingConcreteEval(self.label.clone()));
        }
        Ok(self
            .evals_at_challenges
            .get(challenge)
            .copied()
            .unwrap_or_default())
    }
""")],
     demo=E2E + """
#[test]
fn missing_evaluation_is_an_error() {
    let mut o = FixedVerifierOracle::<F, PC>::new("q", None);
    o.register_rotation(Rotation::curr());
    assert!(o.query(&f(3)).is_err());
    o.register_eval_at_challenge(f(3), f(9));
    assert_eq!(o.query(&f(3)).ok(), Some(f(9)));
    assert!(o.query(&f(4)).is_err());
}
"""),
dict(id="uncompressed-mix", property="C26", needs="a proof serialized uncompressed",
     breaks="the multi-opening part is always written compressed, so an uncompressed proof cannot be read back",
     edits=[("src/multiproof/mod.rs", "#[derive(Clone, CanonicalSerialize, CanonicalDeserialize)]\npub struct Proof<", "#[derive(Clone, CanonicalDeserialize)]\npub struct Proof<"),
            ("src/multiproof/mod.rs", """pub struct Multiproof<
""", """impl<F: PrimeField, PC: HomomorphicCommitment<F>> CanonicalSerialize
    for Proof<F, PC>
{
    fn serialize<W: Write>(
        &self,
        mut writer: W,
    ) -> Result<(), SerializationError> {
        self.q_evals.serialize(&mut writer)?;
        self.f_commit.serialize(&mut writer)?;
        self.opening_proof.serialize(&mut writer)
    }

    fn serialized_size(&self) -> usize {
        self.q_evals.serialized_size()
            + self.f_commit.serialized_size()
            + self.opening_proof.serialized_size()
    }
}

pub struct Multiproof<
""")],
     demo=E2E + GATES + """
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
#[test]
fn uncompressed_round_trip() {
    let mut ok = false;
    assert_eq!(mul_case(8, 5).run_with(|p| {
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        p.serialize(&mut a).unwrap();
        assert_eq!(a.len(), p.serialized_size());
        p.serialize_uncompressed(&mut b).unwrap();
        let r = TPProof::<F, PC>::deserialize_uncompressed(&b[..]);
        if let Ok(q) = r { q.serialize(&mut c).unwrap(); ok = a == c; }
    }), Ok(true));
    assert!(ok);
}
"""),
dict(id="trim-degree", property="C33", needs="parameters whose number of powers is not a power of two",
     breaks="key preparation trims the parameters to a power of two of coefficients, so the top degrees of other parameters are lost",
     edits=[("src/turbo_plonk.rs", """            PC::trim(srs, srs.max_degree(), supported_hiding_bound, None)
""", """            PC::trim(
                srs,
                if (srs.max_degree() + 1).is_power_of_two() {
                    srs.max_degree()
                } else {
                    (srs.max_degree() + 1).next_power_of_two() / 2 - 1
                },
                supported_hiding_bound,
                None,
            )
""")],
     demo=E2E + """
#[test]
fn top_degree_is_supported() {
    for deg in [7usize, 8, 11, 15] {
        let mut rng = test_rng();
        let srs = Pil::universal_setup(deg, &mut rng).unwrap();
        let (ck, _) = Pil::prepare_keys(&srs).unwrap();
        let p = DensePolynomial::from_coefficients_vec(vec![F::one(); deg + 1]);
        assert!(PC::commit(&ck, &[LabeledPolynomial::new("p".into(), p, None, Some(1))], Some(&mut rng)).is_ok());
    }
}
"""),
dict(id="stat-missing", property="C34", needs="a proof of a circuit with copy constraints",
     breaks="the proof's summary does not count the evaluations of the permutation columns",
     edits=[("src/turbo_plonk.rs", """            + self.table_oracle_evals.len()
            + self.permutation_oracle_evals.len()
            + 1 // q_blind
""", """            + self.table_oracle_evals.len()
            + 1 // q_blind
""")],
     demo=E2E + GATES + """
use crate::Proof as _;
#[test]
fn summary_counts_everything() {
    let mut c = mul_case(8, 5);
    for col in c.wit.iter_mut() { col.2 = true; }
    let mut ok = false;
    assert_eq!(c.run_with(|p| {
        let n = p.witness_evals.len() + p.fixed_oracle_evals.len() + p.table_oracle_evals.len() + p.permutation_oracle_evals.len() + 1
            + p.lookup_evals.len() + p.lookup_z_evals.len() + p.z_evals.len() + p.quotient_chunks_evals.len() + p.multiopen_proof.q_evals.len();
        assert!(!p.permutation_oracle_evals.is_empty());
        ok = p.cumulative_info().contains(&format!("{} field elements", n));
    }), Ok(true));
    assert!(ok);
}
"""),
]
