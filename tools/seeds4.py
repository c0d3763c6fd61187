exec(open("/verif/tools/seeds3.py").read().split("\nSEEDS = [")[0])
STITCH = """
    for i in 0..agg_polys.len() - 1 {"""
SEEDS = [
dict(id="prover-zero-instance", property="C01", needs="an honest proof for a circuit with a public input column that is zero",
     breaks="the prover (and only the prover) does not absorb public input columns that are the zero polynomial",
     edits=[("src/turbo_plonk.rs", """            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
        }

        // compute extended evals of each oracle
""", """            if oracle.poly.coeffs.is_empty() {
                continue;
            }
            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
        }

        // compute extended evals of each oracle
""")],
     demo=E2E + GATES + HONEST + """
#[test]
fn zero_public_inputs() {
    for v in [vec![f(0); 8], vec![f(3); 8]] {
        let mut c = mul_case(8, 5);
        c.wit.push(("p", v.iter().zip(c.wit[0].1.iter()).map(|(x, y)| *x * *y).collect(), false));
        c.inst = vec![("x", v)];
        let (x, a, y) = (inst(0, 0), w(0, 0), w(3, 0));
        c.gates.push((e(&x) * e(&a) - e(&y), vec![x, a, y]));
        assert!(honest(c));
    }
}
"""),
dict(id="single-set-unchecked", property="C03", needs="a circuit whose queries are all at the current row (one opening set) and a forged opening proof",
     breaks="the batched opening is not enforced when all oracles are opened at the same point",
     edits=[("src/multiproof/piop/mod.rs", "        if !res {\n", "        // a single opening set needs no linking\n        if !res && x4_powers.len() > 1 {\n")],
     demo=E2E + GATES + """
#[test]
fn forged_opening_is_rejected() {
    assert_eq!(mul_case(8, 5).run(), Ok(true));
    assert_eq!(mul_case(8, 5).run_with(|p| p.multiopen_proof.opening_proof.w = Default::default()), Ok(false));
    assert_eq!(mul_case(8, 5).run_with(|p| p.multiopen_proof.f_commit = Default::default()), Ok(false));
}
"""),
dict(id="zero-column-skipped", property="C07", needs="a permuted column that is zero on every row, with copies between different rows",
     breaks="permuted columns that are zero contribute no factors to the grand product",
     edits=[("src/permutation/grand_product.rs", """                wi_evals.iter().zip(sigma_evals.iter()).zip(deltas.iter())
            {
                nom""", """                wi_evals.iter().zip(sigma_evals.iter()).zip(deltas.iter())
            {
                // nothing to permute
                if w_i.iter().all(|w| w.is_zero()) {
                    continue;
                }
                nom""")],
     demo=E2E + GATES + HONEST + """
#[test]
fn zero_columns_can_be_permuted() {
    for v in [0, 4] {
        let mut c = mul_case(8, 5);
        for l in ["p", "r"] { c.wit.push((l, vec![f(v); 8], true)); }
        for k in 0..2 { let (x, y) = (w(3 + k, 0), w(0, 0)); c.gates.push(((e(&x) - e(&x)) * e(&y), vec![x, y])); }
        c.copies = vec![((0, 1), (1, 2)), ((1, 2), (0, 1))];
        assert!(honest(c));
    }
}
"""),
dict(id="z-evals-by-formula", property="C29", needs="copy constraints over several chunks in a circuit with one usable row (the stitch point coincides with the next row)",
     breaks="the verifier expects three values per aggregation polynomial even where two of the points coincide",
     edits=[("src/turbo_plonk.rs", "        if z_query_set.len() != proof.z_evals.len() {", "        if (3 * num_of_z_polys).saturating_sub(1) != proof.z_evals.len() {")],
     demo=E2E + PERM + HONEST + """
#[test]
fn one_usable_row() {
    for u in [1, 2, 5] { for cols in [2, 5] { assert!(honest(perm_case(8, u, cols)), "u {} columns {}", u, cols); } }
}
"""),
dict(id="alpha-cycle", property="C11", needs="five or more gates, the fifth and the first violated with opposite values",
     breaks="powers of alpha repeat after the fourth gate, on both sides",
     edits=[("src/piop/prover.rs", "        .take(state.vos.len())\n", "        .take(state.vos.len().min(4))\n"),
            ("src/piop/prover.rs", "powers_of_alpha[vo_index] * vo_evaluation?", "powers_of_alpha[vo_index % powers_of_alpha.len()] * vo_evaluation?"),
            ("src/turbo_plonk.rs", "        })\n        .take(vos.len())\n", "        })\n        .take(vos.len().min(4))\n"),
            ("src/turbo_plonk.rs", "            quotient_eval += powers_of_alpha[vo_index] * vo_evaluation;", "            quotient_eval += powers_of_alpha[vo_index % powers_of_alpha.len()] * vo_evaluation;")],
     demo=E2E + GATES + HONEST + """
fn gates(k: usize, bad: Option<usize>) -> Case {
    let mut c = mul_case(8, 5);
    let (x, y, z) = (w(0, 0), w(1, 0), w(2, 0));
    let g = c.gates[0].clone();
    for _ in 1..k { c.gates.push(g.clone()); }
    if let Some(b) = bad {
        // gates 0 and b are off by the same amount with opposite signs
        c.gates[0] = (e(&x) * e(&y) - e(&z) + e(&x), vec![x.clone(), y.clone(), z.clone()]);
        c.gates[b] = (e(&x) * e(&y) - e(&z) - e(&x), vec![x, y, z]);
    }
    c
}

#[test]
fn every_gate_has_its_own_power() {
    for k in [2, 4, 5, 6, 9] {
        assert!(honest(gates(k, None)), "{} gates", k);
        for b in 1..k { assert!(!honest(gates(k, Some(b))), "{} gates, {} violated", k, b); }
    }
}
"""),
dict(id="gate-cap", property="C31", needs="more than six gates, one of the later ones violated",
     breaks="only the first six gates are combined, on both sides",
     edits=[("src/piop/prover.rs", "for (vo_index, vo) in state.vos.iter().enumerate() {", "for (vo_index, vo) in state.vos.iter().enumerate().take(6) {"),
            ("src/turbo_plonk.rs", "F::zero();\n        for (vo_index, vo) in vos.iter().enumerate() {", "F::zero();\n        for (vo_index, vo) in vos.iter().enumerate().take(6) {")],
     demo=E2E + GATES + HONEST + """
#[test]
fn every_gate_counts() {
    for k in [1, 2, 6, 7, 9] {
        for bad in 0..=k {
            let mut c = mul_case(8, 5);
            let (x, y, z) = (w(0, 0), w(1, 0), w(2, 0));
            let g = c.gates[0].clone();
            for _ in 1..k { c.gates.push(g.clone()); }
            if bad < k { c.gates[bad] = (e(&x) * e(&y) - e(&z) + e(&z), vec![x, y, z]); }
            assert_eq!(honest(c), bad == k, "{} gates, {} violated", k, bad);
        }
    }
}
"""),
dict(id="stitch-cap", property="C06", needs="copy constraints over six or more grand product chunks",
     breaks="only the first four pairs of neighbouring chunks are linked, on both sides",
     edits=[("src/permutation/mod.rs", "        for i in 0..agg_polys.len() - 1 {", "        for i in 0..std::cmp::min(agg_polys.len() - 1, 4) {", "all")],
     demo=E2E + """
#[test]
fn every_pair_of_chunks_is_linked() {
    use crate::permutation::PermutationArgument;
    for cols in 2..8usize {
        let pi = PermutationInfo { u: 5, deltas: (1..=cols as i64).map(f).collect() };
        let arg = PermutationArgument::<F>::new(2, &pi);
        let d = GeneralEvaluationDomain::<F>::new(8).unwrap();
        let x = f(1234567);
        let value = |bump: Option<usize>| {
            let fo = |l: String, v: i64| FixedVerifierOracle::<F, PC> { label: l, queried_rotations: Default::default(),
                evals_at_challenges: std::collections::BTreeMap::from([(x, f(v))]), commitment: None };
            let wo = |l: String, v: i64, b: bool| WitnessVerifierOracle::<F, PC> { label: l, queried_rotations: Default::default(), should_permute: false,
                evals_at_challenges: std::collections::BTreeMap::from([(x, f(v)), (x * d.element(1), f(v + 1)), (x * d.element(5), f(v + 2 + b as i64))]), commitment: None };
            let ws: Vec<_> = (0..cols).map(|i| wo(format!("w{}", i), 10 + i as i64, false)).collect();
            let zs: Vec<_> = (0..cols).map(|i| wo(format!("z{}", i), 50 + i as i64, bump == Some(i))).collect();
            let ss: Vec<_> = (0..cols).map(|i| fo(format!("s{}", i), 90 + i as i64)).collect();
            let wr: Vec<_> = ws.iter().collect();
            let al: Vec<F> = (1..=2 * cols as i64 + 1).map(|i| f(i * i + 7)).collect();
            arg.open_argument(f(3), f(4), &fo("q".to_string(), 6), &zs, &ss, &wr, f(8), f(9), &d, x, &al).ok().unwrap()
        };
        for i in 0..cols - 1 { assert_ne!(value(None), value(Some(i)), "{} chunks, chunk {} not linked", cols, i); }
    }
}
"""),
]
