exec(open("/verif/tools/seeds4.py").read().split("\nSEEDS = [")[0])
SEEDS = [
dict(id="hash-permute", property="C35", needs="two runs of the prover (or of permute_for_lookup) on one lookup whose table has several unused entries",
     breaks="the permuted table column, and so the proof, depends on the iteration order of a HashMap",
     edits=[("src/lookup/permute.rs", "use std::collections::BTreeMap;", "use std::collections::HashMap;"),
            ("src/lookup/permute.rs", "BTreeMap::<F, usize>::default()", "HashMap::<F, usize>::default()")],
     demo="""
use crate::lookup::permute::permute_for_lookup;
use ark_bls12_381::Fr as F;
#[test]
fn permuting_is_repeatable() {
    let a = vec![F::from(1u64); 24];
    let s: Vec<F> = (1..25u64).map(F::from).collect();
    let first = permute_for_lookup(&a, &s);
    for _ in 0..8 {
        assert_eq!(first, permute_for_lookup(&a, &s));
    }
}
"""),
dict(id="vanishing-memo", property="C35", needs="two circuits of different domain sizes indexed in one thread with extended domains of one size",
     breaks="evaluations of the vanishing polynomial are remembered per thread and extended-domain size, so the second index uses the first one's",
     edits=[("src/util.rs", """    let group_gen = domain.element(1);
""", """    thread_local! {
        static MEMO: std::cell::RefCell<
            BTreeMap<(std::any::TypeId, usize), Box<dyn std::any::Any>>,
        > = Default::default();
    }
    let key = (std::any::TypeId::of::<F>(), domain.size());
    let hit = MEMO.with(|m| {
        m.borrow()
            .get(&key)
            .and_then(|v| v.downcast_ref::<Vec<F>>())
            .cloned()
    });
    if let Some(v_h) = hit {
        return v_h;
    }
    let group_gen = domain.element(1);
"""), ("src/util.rs", """        .collect();
    v_h
""", """        .collect();
    MEMO.with(|m| m.borrow_mut().insert(key, Box::new(v_h.clone())));
    v_h
""")],
     demo="""
use crate::util::compute_vanishing_poly_over_coset;
use ark_bls12_381::Fr as F;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use std::thread::spawn;
fn at(degrees: Vec<u64>) -> Vec<F> {
    spawn(move || {
        let d = GeneralEvaluationDomain::<F>::new(32).unwrap();
        degrees.iter().map(|n| compute_vanishing_poly_over_coset(d, *n)).last().unwrap()
    }).join().unwrap()
}
#[test]
fn no_memory_of_earlier_circuits() {
    assert_eq!(at(vec![8]), at(vec![16, 8]));
}
"""),
]
