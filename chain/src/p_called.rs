//! C28: called by another program, everything is as when it is sent.
use {
    crate::{arena::*, engine::*, lab::*, p_hostile::*, vm::*, world::*},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_instruction::Instruction,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub kind: Kind,
    pub pair: u8,
    pub who: u8,
    pub amount: u32,
    pub muts: Vec<Mutation>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CalledCase {
    /// a history; every instruction for the program is also called
    History(LabCase),
    /// lists of instructions, each list carried out by one caller
    Lists(Vec<Vec<Step>>),
}
pub struct C28;

impl Prop for C28 {
    type Case = CalledCase;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "at least one accepted instruction was compared with the same one called by another program, or a list of at least two was carried out by one caller"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["calls that run out of compute units, call depth or account infos, which the caller uses some of, are not compared"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 16_000 } else { 600_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<CalledCase> {
        let k = if t == Tier::Quick { 1 } else { 2 };
        let m = prop_oneof![
            6 => Just(vec![]),
            2 => vec(mutation(), 1),
        ];
        let step = (prop::sample::select(KINDS.to_vec()), any::<u8>(), 0u8..2, prop_oneof![4 => 1u32..50_000, 1 => any::<u32>()], m)
            .prop_map(|(kind, pair, who, amount, muts)| Step { kind, pair, who, amount, muts });
        let pairs = prop_oneof![3 => Just(None), 2 => any::<u8>().prop_map(Some)];
        // often all of a list is about one pair
        let list = (pairs, vec(step, 1..5)).prop_map(|(p, mut l)| {
            if let Some(p) = p {
                l.iter_mut().for_each(|s| s.pair = p);
            }
            l
        });
        prop_oneof![
            2 => lab_case(Focus::History, 16 * k).prop_map(CalledCase::History),
            2 => lab_case(Focus::Hook, 12 * k).prop_map(CalledCase::History),
            2 => lab_case(Focus::Auth, 12 * k).prop_map(CalledCase::History),
            6 => vec(list, 1..5 * k).prop_map(CalledCase::Lists),
        ]
        .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &CalledCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        vm.with_proxy();
        match c {
            CalledCase::History(c) => {
                let mut l = Lab::new(vm, &c.spec);
                vm.mirror = true;
                for (i, op) in c.ops.iter().enumerate() {
                    run_op(&mut l, vm, op, i, &mut Stats::default());
                    if let Some(d) = vm.mirrored.differs.take() {
                        return viol("called", format!("step {i} {op:?}: {d}"));
                    }
                }
                st.nontrivial = vm.mirrored.accepted > 0;
            }
            CalledCase::Lists(lists) => {
                let a = arena(vm);
                let mut w = a.w.clone();
                for list in lists {
                    let ixs: Vec<Instruction> = list
                        .iter()
                        .map(|s| {
                            let mut ix = genuine(&a, s.kind, s.pair as usize, s.who as usize, s.amount as u64);
                            s.muts.iter().for_each(|m| mutate(&a, &mut ix, m));
                            ix
                        })
                        .collect();
                    if ixs.iter().any(|ix| ix.accounts.iter().any(|m| m.pubkey == PROXY)) {
                        continue; // nothing calls back into what called it
                    }
                    let before = w.clone();
                    let mut b = w.clone();
                    let call = by_proxy(vm, &ixs);
                    let called = b.exec_all(vm, &[call]);
                    let logs = tail_logs(vm);
                    let direct = w.exec_all(vm, &ixs);
                    let genuine = list.iter().all(|s| s.muts.is_empty());
                    let mut wallets = before.clone();
                    for ix in &ixs {
                        wallets = wallets.bare(ix).unwrap_or(wallets);
                    }
                    if genuine && wallets != before {
                        let got = wallets.exec_all(vm, &ixs);
                        w.compare_bare(vm, &direct, &wallets, &got, || format!("{list:?}: {ixs:?}"));
                    }
                    compare_called(vm, &w, &direct, &b, &called, || format!("{list:?}: {ixs:?}; called: {logs}"));
                    if let Some(d) = vm.mirrored.differs.take() {
                        return viol("called", d);
                    }
                    st.nontrivial |= direct.is_ok();
                    st.hit(format!("list of {}: {}", ixs.len(), if direct.is_ok() { "carried out" } else { "undone" }));
                }
            }
        }
        let n = |x: u64, s: &str, st: &mut Stats| {
            if x > 0 {
                *st.classes.entry(s.into()).or_default() += x;
            }
        };
        n(vm.mirrored.accepted, "accepted both ways", st);
        n(vm.mirrored.refused, "refused both ways", st);
        n(vm.mirrored.wallets, "compared with a wallet in place of a program's address", st);
        n(vm.mirrored.skipped, "not compared: a limit was reached", st);
        Ok(())
    }
}
