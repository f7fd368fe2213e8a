//! C16: derived addresses against an independent derivation.
use {
    proptest::prelude::*,
    serde::{Deserialize, Serialize},
    sha2::{Digest, Sha256},
    solana_pubkey::Pubkey,
    spl_token_wrap as tw,
    twchain::{engine::*, vm::*},
};

/// The documented derivation: the first bump from 255 down whose hash is off the curve.
fn derive(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    for bump in (0..=255u8).rev() {
        let mut h = Sha256::new();
        for s in seeds {
            h.update(s);
        }
        h.update([bump]);
        h.update(program.as_ref());
        h.update(b"ProgramDerivedAddress");
        let x: [u8; 32] = h.finalize().into();
        if off_curve(&x) {
            return Pubkey::new_from_array(x);
        }
    }
    panic!("no bump")
}
fn off_curve(x: &[u8; 32]) -> bool {
    curve25519_dalek::edwards::CompressedEdwardsY(*x).decompress().is_none()
}
fn bump_of(seeds: &[&[u8]], program: &Pubkey, got: &Pubkey) -> u8 {
    (0..=255u8)
        .rev()
        .find(|b| {
            let mut h = Sha256::new();
            for s in seeds {
                h.update(s);
            }
            h.update([*b]);
            h.update(program.as_ref());
            h.update(b"ProgramDerivedAddress");
            let x: [u8; 32] = h.finalize().into();
            x == got.to_bytes()
        })
        .unwrap_or(0)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AddrCase {
    pub umint: [u8; 32],
    pub umint2: [u8; 32],
    pub uprog: [u8; 32],
    pub wprog: [u8; 32],
    pub deployment: [u8; 32],
}
pub struct C16;

fn any_key() -> BoxedStrategy<[u8; 32]> {
    prop_oneof![
        5 => any::<[u8; 32]>(),
        2 => prop::sample::select(vec![SPL, T22, TW, SYS, MPL, ATA, NATIVE, NATIVE22, RENT]).prop_map(|k| k.to_bytes()),
        1 => Just([0xff; 32]),
        1 => any::<u8>().prop_map(|b| [b; 32]),
    ]
    .boxed()
}

impl Prop for C16 {
    type Case = AddrCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "some derivation in the case needs a bump below 255, or the deployment is not the default one"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["SHA-256 (sha2) and point decompression (curve25519-dalek) are right", "collisions are looked for among the generated inputs of one case only"]
    }
    fn deployments(&self) -> Vec<Deployment> {
        vec![]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 1_500_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<AddrCase> {
        let near = (any_key(), 0usize..32, 1u8..=255).prop_map(|(k, i, x)| {
            let mut j = k;
            j[i] ^= x;
            (k, j)
        });
        let two = prop_oneof![1 => (any_key(), any_key()), 1 => near];
        let prog = || prop_oneof![4 => prop::sample::select(vec![SPL, T22]).prop_map(|k| k.to_bytes()), 1 => any_key()];
        (two, prog(), prog(), prop_oneof![1 => Just(TW.to_bytes()), 3 => any_key()])
            .prop_map(|((umint, umint2), uprog, wprog, deployment)| AddrCase { umint, umint2, uprog, wprog, deployment })
            .boxed()
    }
    fn run(&self, _: &mut [Vm], c: &AddrCase, st: &mut Stats) -> Result<(), Violation> {
        let k = |x: &[u8; 32]| Pubkey::new_from_array(*x);
        let (up, wp, dep) = (k(&c.uprog), k(&c.wprog), k(&c.deployment));
        let mut seen: Vec<(String, Pubkey)> = vec![];
        if tw::id() != TW {
            return viol("program-id", format!("the program id is {}", tw::id()));
        }
        for u in [k(&c.umint), k(&c.umint2)] {
            for p in [TW, dep] {
                let wm = derive(&[b"mint", u.as_ref(), wp.as_ref()], &p);
                let wa = derive(&[b"authority", wm.as_ref()], &p);
                let bp = derive(&[b"backpointer", wm.as_ref()], &p);
                let cp = derive(&[b"canonical_pointer", u.as_ref()], &p);
                let es = derive(&[wa.as_ref(), up.as_ref(), u.as_ref()], &ATA);
                let mut checks = vec![
                    ("wrapped mint", wm, tw::get_wrapped_mint_address_for_program(&u, &wp, &p)),
                    ("authority", wa, tw::get_wrapped_mint_authority_for_program(&wm, &p)),
                    ("backpointer", bp, tw::get_wrapped_mint_backpointer_address_for_program(&wm, &p)),
                    ("canonical pointer", cp, tw::get_canonical_pointer_address_for_program(&u, &p)),
                    ("escrow", es, tw::get_escrow_address_for_program(&u, &up, &wp, &p)),
                ];
                if p == TW {
                    checks.extend([
                        ("wrapped mint (default)", wm, tw::get_wrapped_mint_address(&u, &wp)),
                        ("authority (default)", wa, tw::get_wrapped_mint_authority(&wm)),
                        ("backpointer (default)", bp, tw::get_wrapped_mint_backpointer_address(&wm)),
                        ("canonical pointer (default)", cp, tw::get_canonical_pointer_address(&u)),
                        ("escrow (default)", es, tw::get_escrow_address(&u, &up, &wp)),
                    ]);
                }
                // the same functions with unrelated keys as the wrapped mint
                checks.push(("authority of any key", derive(&[b"authority", u.as_ref()], &p), tw::get_wrapped_mint_authority_for_program(&u, &p)));
                checks.push(("backpointer of any key", derive(&[b"backpointer", u.as_ref()], &p), tw::get_wrapped_mint_backpointer_address_for_program(&u, &p)));
                for (what, want, got) in &checks {
                    if want != got {
                        return viol("address", format!("{what} of mint {u}, token programs {up}/{wp}, deployment {p}: {got}, documented {want}"));
                    }
                    if !off_curve(&got.to_bytes()) {
                        return viol("on-curve", format!("{what} {got} is on the curve"));
                    }
                }
                if bump_of(&[b"mint", u.as_ref(), wp.as_ref()], &p, &wm) < 255 || p != TW {
                    st.nontrivial = true;
                }
                for (what, _, got) in checks.iter().take(5) {
                    let tag = format!("{what} of {u} in {p}");
                    if let Some((t, _)) = seen.iter().find(|(t, x)| x == got && *t != tag) {
                        return viol("collision", format!("{t} and {tag} are both {got}"));
                    }
                    seen.push((tag, *got));
                }
            }
        }
        // the two token programs give different wrapped mints
        let (a, b) = (tw::get_wrapped_mint_address(&k(&c.umint), &SPL), tw::get_wrapped_mint_address(&k(&c.umint), &T22));
        if a == b {
            return viol("collision", format!("both token programs share the wrapped mint {a}"));
        }
        st.hit(if dep == TW { "default deployment" } else { "another deployment" });
        Ok(())
    }
}
