// end-to-end helper used by the demonstrations
#[allow(dead_code)]
#[allow(unused_imports)]
mod e2e {
    pub use crate::{
        commitment::{HomomorphicCommitment, KZG10},
        data_structures::*,
        error::Error,
        indexer::Indexer,
        oracles::{
            fixed::*, instance::*, query::*, rotation::{Rotation, Sign},
            traits::*, witness::*,
        },
        rng::SimpleHashFiatShamirRng,
        turbo_plonk::TurboPlonk,
        vo::{
            generic_lookup_vo::GenericLookupVO, generic_vo::GenericVO,
            query::VirtualQuery, virtual_expression::VirtualExpression,
            LookupVirtualOracle, VirtualOracle,
        },
        turbo_plonk::TPProof, Proof, PIL,
    };
    pub use ark_bls12_381::{Bls12_381, Fr as F};
    pub use ark_ff::{FftField, Field, One, PrimeField, UniformRand, Zero};
    pub use ark_poly::{
        univariate::DensePolynomial, EvaluationDomain,
        GeneralEvaluationDomain, Polynomial, UVPolynomial,
    };
    pub use ark_poly_commit::{LabeledPolynomial, PolynomialCommitment};
    pub use ark_std::test_rng;
    pub use rand_chacha::ChaChaRng;

    pub type PC = KZG10<Bls12_381>;
    pub type FS = SimpleHashFiatShamirRng<blake2::Blake2s, ChaChaRng>;
    pub type Pil = TurboPlonk<F, PC, FS>;
    pub type VE = VirtualExpression<F>;

    pub fn f(x: i64) -> F {
        if x < 0 { -F::from((-x) as u64) } else { F::from(x as u64) }
    }
    pub fn rot(r: i64) -> Rotation {
        if r == 0 { Rotation::curr() }
        else if r < 0 { Rotation::new((-r) as usize, Sign::Minus) }
        else { Rotation::new(r as usize, Sign::Plus) }
    }
    pub fn w(i: usize, r: i64) -> VirtualQuery { VirtualQuery::new(i, rot(r), OracleType::Witness) }
    pub fn inst(i: usize, r: i64) -> VirtualQuery { VirtualQuery::new(i, rot(r), OracleType::Instance) }
    pub fn fx(i: usize, r: i64) -> VirtualQuery { VirtualQuery::new(i, rot(r), OracleType::Fixed) }
    pub fn e(q: &VirtualQuery) -> VE { q.clone().into() }

    pub struct Case {
        pub n: usize,
        pub u: usize,
        pub wit: Vec<(&'static str, Vec<F>, bool)>,
        pub inst: Vec<(&'static str, Vec<F>)>,
        pub fixed: Vec<(&'static str, Vec<F>)>,
        pub table: Vec<(&'static str, Vec<F>)>,
        // copy[i][j] = (column among the permuted ones, row) that cell (i, j) maps to; identity where absent
        pub copies: Vec<((usize, usize), (usize, usize))>,
        pub gates: Vec<(VE, Vec<VirtualQuery>)>,
        pub lookups: Vec<(Vec<VE>, Vec<VirtualQuery>, Vec<VirtualQuery>)>,
        // rows left out of the vanishing polynomial, counted from the end
        pub unchecked: usize,
        // claimed instance of the verifier, when it differs
        pub claimed: Option<Vec<(&'static str, Vec<F>)>>,
    }
    impl Default for Case {
        fn default() -> Self {
            Case { n: 16, u: 10, wit: vec![], inst: vec![], fixed: vec![], table: vec![], copies: vec![],
                gates: vec![], lookups: vec![], unchecked: 0, claimed: None }
        }
    }

    pub fn interp(d: &GeneralEvaluationDomain<F>, v: &[F]) -> DensePolynomial<F> {
        DensePolynomial::from_coefficients_slice(&d.ifft(v))
    }
    // deterministic junk for rows nobody constrains
    pub fn pad(v: &[i64], n: usize) -> Vec<F> {
        let mut o: Vec<F> = v.iter().map(|x| f(*x)).collect();
        let mut x = f(77777);
        while o.len() < n { x = x * x + f(13); o.push(x); }
        o
    }
    pub fn zeros(v: &[i64], n: usize) -> Vec<F> {
        let mut o: Vec<F> = v.iter().map(|x| f(*x)).collect();
        o.resize(n, F::zero());
        o
    }

    impl Case {
        pub fn zh(&self, d: &GeneralEvaluationDomain<F>) -> DensePolynomial<F> {
            let mut z: DensePolynomial<F> = d.vanishing_polynomial().into();
            for i in 0..self.unchecked {
                z = &z / &DensePolynomial::from_coefficients_slice(&[-d.element(self.n - 1 - i), F::one()]);
            }
            z
        }
        pub fn run(&self) -> Result<bool, String> { self.run_with(|_| {}) }

        // Ok(accepted) or the error of the honest side
        pub fn run_with(&self, tamper: impl FnOnce(&mut TPProof<F, PC>)) -> Result<bool, String> {
            self.run_full(tamper, |_| {}, None)
        }

        // `before`: a tampered copy of the proof is verified first, with the same oracles and key
        pub fn run_full(&self, tamper: impl FnOnce(&mut TPProof<F, PC>),
                        pre: impl FnOnce(&mut VerifierPreprocessedInput<F, PC>),
                        before: Option<fn(&mut TPProof<F, PC>)>) -> Result<bool, String> {
            let n = self.n;
            let mut rng = test_rng();
            let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
            let srs = Pil::universal_setup(n - 1, &mut rng).unwrap();
            let (ck, pcvk) = Pil::prepare_keys(&srs).unwrap();
            let zh = self.zh(&d);
            let fo = |l: &str, v: &[F]| FixedProverOracle {
                label: l.to_string(), poly: interp(&d, v), evals: v.to_vec(),
                evals_at_coset_of_extended_domain: None, queried_rotations: Default::default() };
            let mut wit: Vec<_> = self.wit.iter().map(|(l, v, p)| WitnessProverOracle::new(*l, interp(&d, v), v, *p)).collect();
            let mut ins: Vec<_> = self.inst.iter().map(|(l, v)| InstanceProverOracle {
                label: l.to_string(), poly: interp(&d, v), evals: v.clone(),
                evals_at_coset_of_extended_domain: None, queried_rotations: Default::default() }).collect();
            let mut fix: Vec<_> = self.fixed.iter().map(|(l, v)| fo(l, v)).collect();
            let mut tab: Vec<_> = self.table.iter().map(|(l, v)| fo(l, v)).collect();
            let np = self.wit.iter().filter(|c| c.2).count();
            let deltas: Vec<F> = (0..np as u64).map(|i| F::multiplicative_generator().pow([i])).collect();
            let mut sig: Vec<Vec<F>> = (0..np).map(|c| (0..n).map(|r| deltas[c] * d.element(r)).collect()).collect();
            for ((c, r), (c2, r2)) in &self.copies { sig[*c][*r] = deltas[*c2] * d.element(*r2); }
            let sig: Vec<_> = sig.iter().enumerate().map(|(i, v)| fo(&format!("sigma_{}", i), v)).collect();
            let qb: Vec<F> = (0..n).map(|i| if i > self.u { F::one() } else { F::zero() }).collect();
            let qb = fo("q_blind", &qb);
            let pinfo = PermutationInfo { u: self.u, deltas: deltas.clone() };

            let mut gates: Vec<_> = self.gates.iter().map(|g| GenericVO::<F>::init(g.clone())).collect();
            for g in gates.iter_mut() { g.configure(&mut wit, &mut ins, &mut fix); }
            let mut lks: Vec<_> = self.lookups.iter().map(|g| GenericLookupVO::<F>::init(g.clone())).collect();
            for l in lks.iter_mut() { l.configure(&mut wit, &mut ins, &mut fix, &mut tab).map_err(|e| format!("{:?}", e))?; }
            let vos: Vec<&dyn VirtualOracle<F>> = gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect();
            let lv: Vec<&dyn LookupVirtualOracle<F>> = lks.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect();
            let vk = Indexer::<F, PC>::index(&pcvk, &vos, lv, &wit, &ins, &fix, d, &zh, pinfo.clone(), self.u)
                .map_err(|e| format!("index: {:?}", e))?;
            let pk = ProverKey::from_ck_and_vk(&ck, &vk);
            let pp = ProverPreprocessedInput::new(&fix, &sig, &tab, &qb, &vk.index_info);
            let mut proof = Pil::prove(&pk, &pp, &mut wit, &mut ins, &vos, n, &mut rng)
                .map_err(|e| format!("prove: {:?}", e))?;
            tamper(&mut proof);

            let vf = |o: &FixedProverOracle<F>| {
                let lp = LabeledPolynomial::new(o.label.clone(), o.poly.clone(), None, None);
                let (c, _) = PC::commit(&ck, &[lp], None).unwrap();
                FixedVerifierOracle::<F, PC> { label: o.label.clone(), queried_rotations: Default::default(),
                    evals_at_challenges: Default::default(), commitment: Some(*c[0].commitment()) }
            };
            let mut vwit: Vec<_> = self.wit.iter().map(|(l, _, p)| WitnessVerifierOracle::<F, PC> {
                label: l.to_string(), queried_rotations: Default::default(), should_permute: *p,
                evals_at_challenges: Default::default(), commitment: None }).collect();
            let mut vins: Vec<_> = self.claimed.as_ref().unwrap_or(&self.inst).iter().map(|(l, v)| InstanceVerifierOracle {
                label: l.to_string(), poly: interp(&d, v), queried_rotations: Default::default() }).collect();
            let mut vfix: Vec<_> = fix.iter().map(|o| vf(o)).collect();
            let mut vtab: Vec<_> = tab.iter().map(|o| vf(o)).collect();
            let vsig: Vec<_> = sig.iter().map(|o| vf(o)).collect();
            let vqb = vf(&qb);
            let mut gates: Vec<_> = self.gates.iter().map(|g| GenericVO::<F>::init(g.clone())).collect();
            for g in gates.iter_mut() { g.configure(&mut vwit, &mut vins, &mut vfix); }
            let mut lks: Vec<_> = self.lookups.iter().map(|g| GenericLookupVO::<F>::init(g.clone())).collect();
            for l in lks.iter_mut() { l.configure(&mut vwit, &mut vins, &mut vfix, &mut vtab).map_err(|e| format!("{:?}", e))?; }
            let vos: Vec<&dyn VirtualOracle<F>> = gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect();
            let lv: Vec<&dyn LookupVirtualOracle<F>> = lks.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect();
            let vk = Indexer::<F, PC>::index(&pcvk, &vos, lv, &vwit, &vins, &vfix, d, &zh, pinfo, self.u)
                .map_err(|e| format!("index: {:?}", e))?;
            let mut vpp = VerifierPreprocessedInput::new(vfix, vtab, vsig, vqb);
            pre(&mut vpp);
            if let Some(b) = before {
                use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
                let mut bytes = vec![];
                proof.serialize(&mut bytes).unwrap();
                let mut other = TPProof::<F, PC>::deserialize(&bytes[..]).unwrap();
                b(&mut other);
                let _ = Pil::verify(&vk, &mut vpp, other, &mut vwit, &mut vins, &vos, n, &zh);
            }
            let r = Pil::verify(&vk, &mut vpp, proof, &mut vwit, &mut vins, &vos, n, &zh);
            Ok(r.is_ok())
        }
    }
}
#[allow(unused_imports)]
use e2e::*;
