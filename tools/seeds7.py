exec(open("/verif/tools/seeds4.py").read().split("\nSEEDS = [")[0])
RN = """
use crate::rng::FiatShamirRng;
use ark_std::rand::RngCore;
"""
SEEDS = [
dict(id="xi-narrow", property="C02", needs="a prover that grinds: only the value of the evaluation challenge shows it",
     breaks="the evaluation challenge is made from 32 bits of the transcript, so a prover can find a polynomial that vanishes on all of them it needs",
     edits=[("src/piop/verifier.rs", "let xi = F::rand(rng);", "let xi = F::from(rng.next_u32());")],
     demo=E2E + RN + """
#[test]
fn demo() {
    let small: std::collections::BTreeSet<F> = (0..4u32).map(|i| {
        let mut fs = FS::initialize(&i);
        let (m, _) = crate::piop::PIOPforPolyIdentity::<F, PC>::verifier_second_round(
            crate::piop::PIOPforPolyIdentity::<F, PC>::init_verifier(), &mut fs);
        m.xi
    }).filter(|x| *x < F::from(1u128 << 64)).collect();
    assert!(small.is_empty());
}
"""),
dict(id="word-masked", property="C23", needs="a field whose sampling uses the low bits of a word, i.e. any, looked at word by word",
     breaks="64 bit words of the transcript generator carry 56 bits of the stream",
     edits=[("src/rng.rs", "        self.r.next_u64()", "        self.r.next_u64() & (u64::MAX >> 8)")],
     demo=E2E + RN + """
#[test]
fn demo() {
    let mut fs = FS::initialize(&1u8);
    let mut seen = 0u64;
    for _ in 0..64 { seen |= fs.next_u64(); }
    assert_eq!(seen >> 56, 0xff);
}
"""),
]
