exec(open("/verif/tools/seeds2.py").read().split("SEEDS = [")[0])
PERM = """
// `cols` permuted columns, each starting with the same value in row 0 of all columns (a copy cycle over the columns)
fn perm_case(n: usize, u: usize, cols: usize) -> Case {
    let names = ["a", "b", "c", "d", "e", "g", "h", "i", "j", "k", "l", "m"];
    let mut c = Case { n, u, ..Default::default() };
    for k in 0..cols {
        let mut v: Vec<F> = (0..n as i64).map(|i| f(i * i + 11 * k as i64 + 1)).collect();
        v[0] = f(77);
        c.wit.push((names[k], v, true));
        c.copies.push(((k, 0), ((k + 1) % cols, 0)));
    }
    let p: Vec<F> = (0..n).map(|i| c.wit[0].1[i] * c.wit[1].1[i]).collect();
    c.wit.push(("p", p, false));
    let (x, y, z) = (w(0, 0), w(1, 0), w(cols, 0));
    c.gates.push((e(&x) * e(&y) - e(&z), vec![x, y, z]));
    for k in 2..cols {
        let (x, y) = (w(k, 0), w(0, 0));
        c.gates.push(((e(&x) - e(&x)) * e(&y), vec![x, y]));
    }
    c
}
"""
HONEST = """
fn honest(c: Case) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.run())).ok() == Some(Ok(true))
}
"""
SEEDS = [
dict(id="extra-eval-ignored", property="C14", needs="a proof that carries more claimed evaluations than the circuit queries",
     breaks="surplus claimed evaluations are ignored instead of being refused as malformed",
     edits=[("src/turbo_plonk.rs", "if query_set.len() != proof.witness_evals.len() {", "if query_set.len() > proof.witness_evals.len() {")],
     demo=with_fs(FSCONST + GATES + """
#[test]
fn surplus_evaluation_is_malformed() {
    assert_eq!(mul_case(8, 5).run(), Ok(true));
    assert_eq!(mul_case(8, 5).run_with(|p| p.witness_evals.push(f(9))), Ok(false));
    assert_eq!(mul_case(8, 5).run_with(|p| { p.witness_evals.pop(); }), Ok(false));
}
""")),
dict(id="fourth-lookup-column", property="C09", needs="a lookup of four or more columns whose fourth value is not in the table",
     breaks="only the first three columns of a lookup get a power of the compression challenge, on both sides",
     edits=[("src/lookup/mod.rs", "                .take(lookup_arith)\n", "                .take(std::cmp::min(lookup_arith, 3))\n", "all")],
     demo=E2E + GATES + HONEST + """
fn wide(n: usize, u: usize, cols: usize, bad: Option<usize>) -> Case {
    let mut c = mul_case(n, u);
    let labels = ["l0", "l1", "l2", "l3", "l4"];
    let tables = ["t0", "t1", "t2", "t3", "t4"];
    for k in 0..cols {
        let t: Vec<F> = (0..n as i64).map(|i| f(i * 7 + 100 * k as i64 + 3)).collect();
        let mut l = t.clone();
        l[..u].reverse();
        if bad == Some(k) { l[1] = f(-5); }
        c.wit.push((labels[k], l, false));
        c.table.push((tables[k], t));
    }
    let qs: Vec<_> = (0..cols).map(|k| w(3 + k, 0)).collect();
    c.lookups.push((qs.iter().map(|q| e(q)).collect(), qs, (0..cols).map(|k| fx(k, 0)).collect()));
    c
}

#[test]
fn every_column_is_looked_up() {
    for cols in [1, 2, 4, 5] {
        assert!(honest(wide(8, 5, cols, None)), "{} columns", cols);
        for bad in 0..cols { assert!(!honest(wide(8, 5, cols, Some(bad))), "{} columns, wrong value in {}", cols, bad); }
    }
}
"""),
dict(id="last-row-lagrange", property="C08", needs="a circuit without blinding rows (the last usable row is the last row of the domain)",
     breaks="without blinding rows the prover uses the first-row selector in place of the last-row selector",
     edits=[("src/piop/prover.rs", "let lu_coset_evals = vk.index_info.extended_coset_domain.coset_fft(&lu);",
             "let lu_coset_evals = if vk.index_info.permutation_argument.usable_rows + 1 == domain_size { l0_coset_evals.clone() } else { vk.index_info.extended_coset_domain.coset_fft(&lu) };")],
     demo=E2E + GATES + LOOK + HONEST + """
#[test]
fn lookup_without_blinding_rows() {
    assert!(honest(lookup_case(8, 6)));
    assert!(honest(lookup_case(8, 7)));
    assert!(honest(lookup_case(16, 15)));
}
"""),
dict(id="group-limit", property="C12", needs="oracles opened at more than three different sets of points",
     breaks="the prover aggregates only the first three opening groups",
     edits=[("src/multiproof/piop/prover.rs", "for (i, f_i) in f_polys.iter().enumerate() {", "for (i, f_i) in f_polys.iter().enumerate().filter(|(i, _)| *i < 3) {")],
     demo=E2E + HONEST + """
// k columns opened at k different sets of points
fn rots(n: usize, k: usize) -> Case {
    let labels = ["a", "b", "c", "d", "g", "h"];
    let mut c = Case { n, u: n - 3, ..Default::default() };
    let v: Vec<Vec<F>> = (0..k).map(|j| (0..n as i64).map(|i| f(i * i + 3 * j as i64 + 2)).collect()).collect();
    let p: Vec<F> = (0..n).map(|i| (1..k).fold(v[0][i], |x, j| x * v[j][(i + j) % n])).collect();
    for j in 0..k { c.wit.push((labels[j], v[j].clone(), false)); }
    c.wit.push(("p", p, false));
    let qs: Vec<_> = (0..k).map(|j| w(j, j as i64)).chain(std::iter::once(w(k, 0))).collect();
    let x = (1..k).fold(e(&qs[0]), |x, j| x * e(&qs[j])) - e(&qs[k]);
    c.gates.push((x, qs));
    c
}

#[test]
fn any_number_of_opening_groups() {
    for k in 2..=5 { assert!(honest(rots(8, k)), "{} groups", k); }
}
"""),
dict(id="zero-instance-skip", property="C02", needs="two public input columns of which one is zero, compared with the same values in the other column",
     breaks="zero public input columns are not absorbed, so the transcript no longer tells which column holds an input",
     edits=[("src/turbo_plonk.rs", "        for oracle in instance_oracles.iter() {\n            fs_rng.absorb", "        for oracle in instance_oracles.iter() {\n            if oracle.poly.coeffs.is_empty() {\n                continue;\n            }\n            fs_rng.absorb", "all")],
     demo=with_fs(FSREC + GATES + """
fn prefix(swap: bool) -> Vec<Vec<u8>> {
    let n = 8;
    let mut c = mul_case(n, 5);
    let (one, zero) = (vec![f(7); n], vec![F::zero(); n]);
    c.inst = vec![("x", if swap { zero.clone() } else { one.clone() }), ("y", if swap { one } else { zero })];
    let (x, y, a) = (inst(0, 0), inst(1, 0), w(0, 0));
    c.gates.push((e(&x) * e(&y) * e(&a), vec![x, y, a]));
    take_log();
    assert_eq!(c.run(), Ok(true));
    take_log().into_iter().take_while(|x| x.is_some()).map(|x| x.unwrap()).collect()
}

#[test]
fn columns_are_told_apart() {
    // everything absorbed before the first challenge, up to the witness commitments (fresh in every run)
    let (p, q) = (prefix(false), prefix(true));
    assert!(p[..p.len() - 1] != q[..q.len() - 1]);
}
""")),
dict(id="z-fixed-rng", property="C13", needs="comparing two proofs made with different randomness; the commitment still has a hiding bound and randomness",
     breaks="permutation aggregation commitments are blinded from a fixed seed instead of the caller's randomness",
     edits=[("src/turbo_plonk.rs", "PC::commit(&pk.committer_key, &z_polys_labeled, Some(zk_rng))", "PC::commit(\n                &pk.committer_key,\n                &z_polys_labeled,\n                Some(&mut ark_std::test_rng()),\n            )")],
     demo=with_fs("").replace("let mut proof = Pil::prove(&pk, &pp, &mut wit, &mut ins, &vos, n, &mut rng)", "let mut zk = super::zk_rng();\n            let mut proof = Pil::prove(&pk, &pp, &mut wit, &mut ins, &vos, n, &mut zk)") + FSCONST + PERM + """
thread_local! { static SEED: std::cell::Cell<u8> = Default::default(); }
fn zk_rng() -> ChaChaRng {
    use ark_std::rand::SeedableRng;
    ChaChaRng::from_seed([SEED.with(|s| s.get()); 32])
}
// permutation aggregation commitments of a circuit without blinding rows
fn commitments(seed: u8) -> Vec<<PC as PolynomialCommitment<F, DensePolynomial<F>>>::Commitment> {
    SEED.with(|s| s.set(seed));
    let mut out = vec![];
    let r = perm_case(8, 7, 3).run_with(|p| out = p.z_commitments.clone());
    assert_eq!(r, Ok(true));
    out
}

#[test]
fn commitments_depend_on_the_caller_s_randomness() {
    let (a, b) = (commitments(1), commitments(2));
    assert!(!a.is_empty() && a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) { assert!(x != y); }
    assert!(commitments(1) == a);
}
"""),
dict(id="empty-absorb", property="C23", needs="an absorbed message without any bytes",
     breaks="absorbing an empty message leaves the transcript state as it was",
     edits=[("src/rng.rs", "        bytes.extend_from_slice(&self.seed);", "        if bytes.is_empty() {\n            return;\n        }\n        bytes.extend_from_slice(&self.seed);")],
     demo="""use crate::rng::{FiatShamirRng, SimpleHashFiatShamirRng};
use ark_std::rand::RngCore;
use rand_chacha::ChaChaRng;
type Fs = SimpleHashFiatShamirRng<blake2::Blake2s, ChaChaRng>;

fn run(msgs: &[Vec<u8>]) -> u64 {
    let mut r = Fs::initialize(&vec![1u8, 2]);
    for m in msgs { r.absorb(m); }
    r.next_u64()
}

#[test]
fn message_boundaries_count() {
    let (a, e) = (vec![5u8; 32], vec![]);
    let runs = [vec![], vec![e.clone()], vec![a.clone()], vec![a.clone(), e.clone()], vec![e.clone(), a.clone()],
                vec![a.clone(), a.clone()], vec![vec![5u8; 64]], vec![e.clone(), e.clone()]];
    let out: Vec<u64> = runs.iter().map(|m| run(m)).collect();
    for i in 0..out.len() { for j in 0..i { assert_ne!(out[i], out[j], "{:?} {:?}", runs[i], runs[j]); } }
    assert_eq!(run(&runs[3]), out[3]);
}
"""),
dict(id="stale-config", property="C17", needs="a gate that is configured a second time, against other columns",
     breaks="a gate keeps the expression of its first configuration when it is configured again",
     edits=[("src/vo/generic_vo.rs", """        self.expression = Some(self.virtual_exp.to_expression(
            witness_oracles,
            instance_oracles,
            fixed_oracles,
        ));
""", """        if self.expression.is_none() {
            self.expression = Some(self.virtual_exp.to_expression(
                witness_oracles,
                instance_oracles,
                fixed_oracles,
            ));
        }
""")],
     demo=E2E + """
fn cols(labels: &[&'static str]) -> Vec<WitnessVerifierOracle<F, PC>> {
    labels.iter().map(|l| WitnessVerifierOracle::<F, PC> {
        label: l.to_string(), queried_rotations: Default::default(), should_permute: false,
        evals_at_challenges: Default::default(), commitment: None }).collect()
}
fn labels(v: &GenericVO<F>) -> Vec<String> {
    let mut out = vec![];
    let x = v.get_expression().unwrap();
    let r = std::cell::RefCell::new(&mut out);
    x.evaluate(&|_| (), &|q| r.borrow_mut().push(q.label.clone()), &|_| (), &|_, _| (), &|_, _| (), &|_, _| ());
    out
}

#[test]
fn configuring_again_uses_the_new_columns() {
    let (a, b) = (w(0, 0), w(1, 1));
    let mut v = GenericVO::<F>::init((e(&a) * e(&b), vec![a, b]));
    let (mut i, mut x): (Vec<InstanceVerifierOracle<F>>, Vec<FixedVerifierOracle<F, PC>>) = (vec![], vec![]);
    let mut first = cols(&["a", "b"]);
    v.configure(&mut first, &mut i, &mut x);
    assert_eq!(labels(&v), ["a", "b"]);
    let mut second = cols(&["c", "d"]);
    v.configure(&mut second, &mut i, &mut x);
    assert_eq!(labels(&v), ["c", "d"]);
    assert!(second[1].queried_rotations.contains(&rot(1)));
}
"""),
dict(id="lookup-fixed-degree", property="C19", needs="a lookup whose input multiplies several fixed columns",
     breaks="fixed columns count as degree one when the extended domain is sized for a lookup",
     edits=[("src/indexer.rs", "            degree.ok_or_else(|| match query.oracle_type {\n                OracleType::Witness => {\n                    PiopError::MissingWitnessOracle",
             "            let degree = degree.map(|d| match query.oracle_type {\n                OracleType::Fixed => 1,\n                _ => d,\n            });\n            degree.ok_or_else(|| match query.oracle_type {\n                OracleType::Witness => {\n                    PiopError::MissingWitnessOracle")],
     demo=E2E + GATES + LOOK + HONEST + """
// the lookup of lookup_case behind k selectors that are one on every row up to a factor
fn selected(n: usize, u: usize, k: usize) -> Case {
    let mut c = lookup_case(n, u);
    let names = ["f0", "f1", "f2", "f3"];
    let l = w(3, 0);
    let mut qs = vec![l.clone()];
    let mut x = e(&l);
    for j in 0..k {
        // f_2j * f_2j+1 = 1 on every row
        let v: Vec<F> = (0..n as i64).map(|i| { let z = f(i * i + 2 + (j / 2) as i64); if j % 2 == 0 { z } else { z.inverse().unwrap() } }).collect();
        c.fixed.push((names[j], v));
        let q = fx(j, 0);
        x = x * e(&q);
        qs.push(q);
    }
    c.lookups[0].0 = vec![x];
    c.lookups[0].1 = qs;
    c
}

#[test]
fn lookups_of_any_degree() {
    for k in [0, 2, 4] { assert!(honest(selected(8, 6, k)), "{} selectors", k); }
}
"""),
dict(id="qblind-keep", property="C27", needs="a rejected proof followed by an honest one at the same evaluation point",
     breaks="the row selector's evaluation of an earlier verification is kept",
     edits=[("src/turbo_plonk.rs", """        preprocessed.q_blind.register_eval_at_challenge(
            verifier_second_msg.xi,
            proof.q_blind_eval,
        );
""", """        if preprocessed.q_blind.query(&verifier_second_msg.xi).is_err() {
            preprocessed.q_blind.register_eval_at_challenge(
                verifier_second_msg.xi,
                proof.q_blind_eval,
            );
        }
""")],
     demo=with_fs(FSCONST + PERM + """
#[test]
fn an_earlier_verification_leaves_no_trace() {
    assert_eq!(perm_case(8, 5, 3).run(), Ok(true));
    let r = perm_case(8, 5, 3).run_full(|_| {}, |_| {}, Some(|p| p.q_blind_eval += f(1)));
    assert_eq!(r, Ok(true));
}
""")),
dict(id="x2-is-x1", property="C02", needs="oracles opened at two sets of points; both sides share the code, so honest proofs still verify",
     breaks="the batched opening combines oracles and groups with the same challenge",
     edits=[("src/multiproof/piop/verifier.rs", "let x2 = F::rand(rng);", "let x2 = x1;")],
     demo="""use crate::multiproof::piop::PIOP;
use ark_bls12_381::Fr as F;
use ark_std::test_rng;

#[test]
fn combination_challenges_differ() {
    let (_, m) = PIOP::<F>::verifier_first_round(PIOP::<F>::init_verifier(), &mut test_rng());
    assert_ne!(m.x1, m.x2);
}
"""),
dict(id="inst-prev", property="C05", needs="a gate that queries a public input column at another row",
     breaks="the verifier evaluates public input columns at the current row whatever the queried rotation",
     edits=[("src/turbo_plonk.rs", "                                    instance_oracles[*index].query(&challenge)\n", "                                    instance_oracles[*index]\n                                        .query(&verifier_second_msg.xi)\n")],
     demo=E2E + GATES + HONEST + """
#[test]
fn instance_columns_at_other_rows() {
    for r in [0, 1, -1, 2] {
        let n = 8;
        let mut c = mul_case(n, 5);
        let v: Vec<F> = (0..n as i64).map(|i| f(i * 5 + 1)).collect();
        let p: Vec<F> = (0..n as i64).map(|i| v[((i + r + n as i64) % n as i64) as usize] * c.wit[0].1[i as usize]).collect();
        c.inst = vec![("x", v)];
        c.wit.push(("p", p, false));
        let (x, a, y) = (inst(0, r), w(0, 0), w(3, 0));
        c.gates.push((e(&x) * e(&a) - e(&y), vec![x, a, y]));
        assert!(honest(c), "rotation {}", r);
    }
}
"""),
dict(id="mul-minus-one", property="C15", needs="a gate with an explicit constant factor minus one",
     breaks="multiplying by a constant of square one drops the factor",
     edits=[("src/vo/virtual_expression.rs", "        VirtualExpression::Product(Box::new(self), Box::new(rhs))", "        match rhs {\n            // neutral factor\n            VirtualExpression::Constant(c) if c.square() == F::one() => self,\n            rhs => VirtualExpression::Product(Box::new(self), Box::new(rhs)),\n        }")],
     demo=E2E + """
fn value(x: VE) -> F {
    let o: Vec<InstanceVerifierOracle<F>> = vec![InstanceVerifierOracle { label: "x".to_string(), poly: DensePolynomial::from_coefficients_slice(&[f(5)]), queried_rotations: Default::default() }];
    let x = x.to_expression(&o, &o, &o);
    x.evaluate(&|c| c, &|_| f(5), &|a: F| -a, &|a, b| a + b, &|a, b| a * b, &|a, b| a * b)
}

#[test]
fn constant_factors_count() {
    let q = inst(0, 0);
    for c in [-3i64, -1, 0, 1, 2] {
        assert_eq!(value(e(&q) * VE::Constant(f(c))), f(5 * c));
        assert_eq!(value(VE::Constant(f(c)) * e(&q)), f(5 * c));
        assert_eq!(value(e(&q) * f(c)), f(5 * c));
    }
}
"""),
dict(id="hide-constant-column", property="C13", needs="a witness column that is the same on every row",
     breaks="constant witness columns are committed without hiding",
     edits=[("src/oracles/witness.rs", "            Some(1), // blind for opening in x3 in multiproof", "            // blind for opening in x3 in multiproof\n            if self.poly.coeffs.len() > 1 { Some(1) } else { None },")],
     demo=E2E + """
#[test]
fn every_witness_column_is_hidden() {
    let d = GeneralEvaluationDomain::<F>::new(8).unwrap();
    for v in [vec![F::zero(); 8], vec![f(5); 8], (0..8).map(f).collect::<Vec<_>>()] {
        let o = WitnessProverOracle::new("w", interp(&d, &v), &v, false);
        assert!(o.to_labeled().hiding_bound().is_some());
    }
}
"""),
]
