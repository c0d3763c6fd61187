exec(open("/verif/tools/seeds4.py").read().split("\nSEEDS = [")[0])
MO = """
use crate::multiproof::{piop::Multiopen, Proof as MoProof};
use std::collections::{BTreeMap, BTreeSet};
// opens one column per list of rotations, `lie` changes the evaluations the verifier is given and `forge` the proof
fn opened(sets: &[Vec<i64>], lie: impl Fn(&mut Vec<BTreeMap<F, F>>, &dyn Fn(i64) -> F), forge: impl Fn(&mut MoProof<F, PC>)) -> bool {
    let n = 16;
    let mut rng = test_rng();
    let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let srs = Pil::universal_setup(n - 1, &mut rng).unwrap();
    let (ck, vk) = Pil::prepare_keys(&srs).unwrap();
    let ws: Vec<_> = sets.iter().enumerate().map(|(k, s)| {
        let v: Vec<F> = (0..n as i64).map(|i| f(i * i + 7 * i * k as i64 + 3)).collect();
        let mut o = WitnessProverOracle::new("a", interp(&d, &v), &v, false);
        for r in s { o.register_rotation(rot(*r)); }
        o
    }).collect();
    let lps: Vec<_> = ws.iter().map(|o| o.to_labeled()).collect();
    let (cs, rands) = PC::commit(&ck, &lps, Some(&mut rng)).unwrap();
    let os: Vec<&dyn Instantiable<F>> = ws.iter().map(|o| o as &dyn Instantiable<F>).collect();
    let x = f(12345);
    let mut proof = Multiopen::<F, PC, FS>::prove(&ck, &os, &rands, x, n, &mut FS::initialize(&0u8), &mut rng).ok().unwrap();
    forge(&mut proof);
    let pt = move |r: i64| x * d.element(r as usize);
    let mut evals: Vec<BTreeMap<F, F>> = ws.iter().zip(sets).map(|(o, s)|
        s.iter().map(|r| (pt(*r), o.polynomial().evaluate(&pt(*r)))).collect()).collect();
    lie(&mut evals, &pt);
    let vs: Vec<_> = sets.iter().zip(evals).zip(cs.iter()).map(|((s, e), c)| WitnessVerifierOracle::<F, PC> {
        label: "a".to_string(), queried_rotations: s.iter().map(|r| rot(*r)).collect::<BTreeSet<_>>(),
        evals_at_challenges: e, commitment: Some(*c.commitment()), should_permute: false }).collect();
    let vs: Vec<&dyn CommittedOracle<F, PC>> = vs.iter().map(|o| o as &dyn CommittedOracle<F, PC>).collect();
    Multiopen::<F, PC, FS>::verify(&vk, proof, &vs, x, n, &mut FS::initialize(&0u8)).is_ok()
}
"""
FS2 = "use crate::rng::FiatShamirRng;\n"
SEEDS = [
dict(id="empty-f-skips-check", property="C03", needs="a forged proof whose f commitment is the identity",
     breaks="a failed opening check is ignored when the batched quotient's commitment is the identity",
     edits=[("src/multiproof/piop/mod.rs", "        if !res {", "        if !res && !PC::is_zero(&proof.f_commit) {")],
     demo=E2E + GATES + """
#[test]
fn identity_commitment_is_no_excuse() {
    assert_eq!(mul_case(8, 5).run(), Ok(true));
    assert_eq!(mul_case(8, 5).run_with(|p| p.multiopen_proof.f_commit = PC::zero_comm()), Ok(false));
}
"""),
dict(id="x2-powers-capped", property="C12", needs="more than ten opening sets, and wrong evaluations in the last two that cancel",
     breaks="the opening sets from the tenth on share one power of x2, so their errors can cancel",
     edits=[("src/multiproof/piop/mod.rs", "final_poly_eval += x2_powers[i] * f_eval;", "final_poly_eval += x2_powers[i.min(9)] * f_eval;"),
            ("src/multiproof/piop/prover.rs", "f_agg_poly += &(f_i * x2_powers[i])", "f_agg_poly += &(f_i * x2_powers[i.min(9)])")],
     demo=E2E + FS2 + MO + """
#[test]
fn errors_of_two_sets_do_not_cancel() {
    let mut sets: Vec<Vec<i64>> = (0..10).map(|i| vec![i]).collect();
    sets.push(vec![9, 10]);
    assert!(opened(&sets, |_, _| (), |_| ()));
    assert!(!opened(&sets, |e, pt| {
        *e[9].get_mut(&pt(9)).unwrap() += f(1);
        *e[10].get_mut(&pt(9)).unwrap() -= pt(9) - pt(10);
    }, |_| ()));
}
"""),
dict(id="x1-powers-capped", property="C12", needs="more than twelve columns opened at the same points, and wrong evaluations of the last two that cancel",
     breaks="the columns of an opening set from the twelfth on share one power of x1, so their errors can cancel",
     edits=[("src/multiproof/piop/mod.rs", "q_i = PC::add(&q_i, &PC::scale_com(comm, x1_powers[i]));", "q_i = PC::add(&q_i, &PC::scale_com(comm, x1_powers[i.min(11)]));"),
            ("src/multiproof/piop/mod.rs", "evaluation += x1_powers[i]\n", "evaluation += x1_powers[i.min(11)]\n"),
            ("src/multiproof/piop/prover.rs", "q_i = q_i + oracle.polynomial() * x1_powers[i];", "q_i = q_i + oracle.polynomial() * x1_powers[i.min(11)];"),
            ("src/multiproof/piop/prover.rs", "x1_powers[i] * oracle", "x1_powers[i.min(11)] * oracle"),
            ("src/multiproof/piop/prover.rs", "&PC::scale_rand(rand, x1_powers[i]),", "&PC::scale_rand(rand, x1_powers[i.min(11)]),")],
     demo=E2E + FS2 + MO + """
#[test]
fn errors_of_two_columns_do_not_cancel() {
    let sets: Vec<Vec<i64>> = (0..13).map(|_| vec![0, 1]).collect();
    assert!(opened(&sets, |_, _| (), |_| ()));
    assert!(!opened(&sets, |e, pt| {
        *e[11].get_mut(&pt(0)).unwrap() += f(1);
        *e[12].get_mut(&pt(0)).unwrap() -= f(1);
    }, |_| ()));
}
"""),
dict(id="six-rotations", property="C04", needs="a column queried at seven or more rotations whose seventh evaluation is wrong",
     breaks="only the first six evaluations of a column enter the batched opening, the others may be anything",
     edits=[("src/multiproof/piop/mod.rs", "                    for rotation in rotations {\n", "                    for rotation in rotations.iter().take(6) {\n"),
            ("src/multiproof/piop/prover.rs", "                for rotation in rotations {\n", "                for rotation in rotations.iter().take(6) {\n")],
     demo=E2E + FS2 + MO + """
#[test]
fn the_seventh_evaluation_is_checked() {
    let sets = vec![vec![0], (0..8).collect()];
    assert!(opened(&sets, |_, _| (), |_| ()));
    assert!(!opened(&sets, |e, pt| *e[1].get_mut(&pt(7)).unwrap() += f(1), |_| ()));
}
"""),
dict(id="vanishing-large", property="C19", needs="a circuit of more than 2048 rows",
     breaks="the vanishing polynomial's values on the extended coset repeat with a period that large domains exceed",
     edits=[("src/util.rs", "group_gen.pow([poly_degree * i as u64, 0, 0, 0])", "group_gen.pow([(poly_degree * i as u64) % 4096, 0, 0, 0])")],
     demo="""
use crate::util::compute_vanishing_poly_over_coset;
use ark_bls12_381::Fr as F;
use ark_ff::{FftField, Field, One};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
#[test]
fn values_on_a_large_coset() {
    for k in [4u64, 10, 13] {
        let n = 1u64 << k;
        let d = GeneralEvaluationDomain::<F>::new(2 * n as usize).unwrap();
        let v = compute_vanishing_poly_over_coset(d, n);
        for i in [0usize, 1, 2, 5, 2 * n as usize - 1] {
            assert_eq!(v[i], (F::multiplicative_generator() * d.element(i)).pow([n]) - F::one());
        }
    }
}
"""),
]
