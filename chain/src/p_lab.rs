//! C01-C05, C19, C20: histories over the lab.
use crate::{engine::*, lab::*, tok, vm::*, world::*};
use proptest::prelude::*;

pub struct LabProp {
    pub id: &'static str,
}

fn slack_check(l: &Lab, ev: &Event, slack: &mut [i128]) -> Result<(), Violation> {
    for i in 0..l.pairs.len() {
        let now = l.escrow_minus_supply(i);
        if now < 0 {
            return viol("under-backed", format!("step {} {:?}: pair {i} supply exceeds escrow by {}", ev.step, ev.op, -now));
        }
        if now != slack[i] {
            // direct burns and direct deposits only ever add to the cushion
            let direct = match ev.op {
                Op::Burn { .. } | Op::Donate { .. } | Op::Transfer { .. } => true,
                Op::Unwrap { .. } | Op::Free { .. } => ev.to_escrow.map(|e| l.pairs[e].p.escrow == l.pairs[i].p.escrow).unwrap_or(false),
                _ => false,
            };
            if !direct || now < slack[i] {
                return viol(
                    "cushion-changed",
                    format!("step {} {:?}: pair {i} escrow minus supply went from {} to {now}", ev.step, ev.op, slack[i]),
                );
            }
            slack[i] = now;
        }
    }
    Ok(())
}

fn isolation(l: &Lab, ev: &Event) -> Result<(), Violation> {
    if let Some(m) = &ev.mixed_accepted {
        return viol("mixed-accepted", format!("step {}: {m} was accepted", ev.step));
    }
    let program_op = ev.kind > 0
        || matches!(ev.op, Op::CreateAgain { .. } | Op::CloseStuck { .. } | Op::Sync { .. } | Op::SetPointer { .. } | Op::Mix { .. });
    if !program_op {
        return Ok(());
    }
    for (j, q) in l.pairs.iter().enumerate() {
        if ev.pair == Some(j) && ev.kind > 0 {
            continue;
        }
        let mut keys = vec![q.p.wmint, q.p.backptr, q.p.escrow, canonical_pointer(&q.p.umint), metaplex_pda(&q.p.wmint)];
        if ev.pair == Some(j) {
            keys = vec![q.p.backptr, q.p.escrow];
        }
        for k in keys {
            if ev.to_escrow.map(|e| l.pairs[e].p.escrow == k).unwrap_or(false) {
                continue;
            }
            if let Op::SetPointer { tok, .. } = ev.op {
                if k == canonical_pointer(&l.toks[l.ti(*tok)].mint) {
                    continue;
                }
            }
            // a chain: the other pair wraps this pair's wrapped mint
            if let Some(pi) = ev.pair {
                if ev.kind > 0 && k == l.pairs[pi].p.wmint {
                    continue;
                }
            }
            if ev.before.a.get(&k) != l.w.a.get(&k) {
                return viol(
                    "other-pair-touched",
                    format!("step {} {:?}: account {} of pair {j} changed: {} -> {}", ev.step, ev.op, short(&k), descr(ev.before.a.get(&k)), descr(l.w.a.get(&k))),
                );
            }
        }
    }
    Ok(())
}

fn hook_rule(l: &Lab, ev: &Event) -> Result<(), Violation> {
    let (Some(pi), Some(out)) = (ev.pair, &ev.out) else { return Ok(()) };
    let Some((n, sum)) = ev.hook else { return Ok(()) };
    let m = l.toks[l.pairs[pi].u].mint;
    if ev.to_escrow.map(|e| l.pairs[e].p.escrow == l.pairs[pi].p.escrow).unwrap_or(false) {
        return Ok(()); // Token-2022 runs no hook for a transfer of an account to itself
    }
    let what = if ev.kind == 1 { "wrap" } else { "unwrap" };
    if out.ok && n != 1 {
        return viol("hook-count", format!("step {} {:?}: the hook ran {n} times during an accepted {what}", ev.step, ev.op));
    }
    if out.ok && sum != out.amount {
        return viol("hook-amount", format!("step {}: the hook saw {sum} for a {what} of {}", ev.step, out.amount));
    }
    if !out.ok && n != 0 {
        return viol("hook-refused-count", format!("step {}: a refused {what} left {n} hook invocations", ev.step));
    }
    let d = ev.before.data(&hook_record(&m));
    if out.ok && d[16] == 1 {
        return viol("hook-ignored", format!("step {}: {what} accepted although the hook refuses", ev.step));
    }
    if let Some((_, _, privileged, who)) = hook_count(&l.w, &m) {
        if privileged != 0 {
            return viol("hook-privilege", format!("step {}: the hook was handed a signer or an extra writable account", ev.step));
        }
        if out.ok && ev.kind == 2 && who != l.pairs[pi].p.wauth {
            return viol("hook-authority", format!("step {}: release authority seen by the hook is {who}", ev.step));
        }
    }
    match &out.verdict {
        Verdict::Refused(m) => viol("hook-refused", format!("step {} {:?}: {what} of a hooked mint {m}", ev.step, ev.op)),
        Verdict::Unjustified(m) => viol("hook-unjustified", format!("step {} {:?}: {what} of a hooked mint accepted although {m}", ev.step, ev.op)),
        Verdict::Differs(m) => viol("hook-differs", format!("step {} {:?}: {m}", ev.step, ev.op)),
        _ => Ok(()),
    }
}

/// A wrap's or unwrap's allowance and authority bookkeeping.
fn auth_rule(l: &Lab, ev: &Event) -> Result<(), Violation> {
    let (Some(pi), Some(out)) = (ev.pair, &ev.out) else { return Ok(()) };
    let what = if ev.kind == 1 { "wrap" } else { "unwrap" };
    let (auth, u) = match ev.op {
        Op::Wrap { auth, u, .. } => (auth, *u),
        Op::Unwrap { auth, u, .. } => (auth, *u),
        _ => {
            return match &out.verdict {
                Verdict::Unjustified(m) => viol("unjustified", format!("step {} {:?}: {what} accepted although {m}", ev.step, ev.op)),
                Verdict::Differs(m) => viol("differs", format!("step {} {:?}: {m}", ev.step, ev.op)),
                Verdict::Refused(m) => viol("authority-refused", format!("step {} {:?}: {what} {m}", ev.step, ev.op)),
                _ => Ok(()),
            }
        }
    };
    let t = if ev.kind == 1 { l.pairs[pi].u } else { l.pairs[pi].w };
    let u = (u % 4) as usize;
    let src = holder_acct(t, u);
    if out.ok {
        let (b, a) = (tok::acct(ev.before.data(&src)).unwrap(), tok::acct(l.w.data(&src)));
        let Some(a) = a else { return Ok(()) };
        if b.amount.checked_sub(out.amount) != Some(a.amount) {
            // a wrap between a holder's own accounts never touches the source twice
            return viol("debit", format!("step {} {:?}: source went from {} to {}", ev.step, ev.op, b.amount, a.amount));
        }
        let by_delegate = matches!(auth, Auth::Delegate | Auth::DelegateSigners(_)) && b.delegate.is_some();
        let stranger_is_delegate = match auth {
            Auth::Stranger(3) => b.delegate == Some(multisig_key(&l.toks[t].prog)),
            Auth::Stranger(i) if *i < 3 => b.delegate == Some(stranger_user(*i, u)),
            _ => false,
        };
        if by_delegate && b.delegate != Some(l.owner_key(t, u)) {
            if b.delegated < out.amount {
                return viol("allowance-exceeded", format!("step {} {:?}: allowance {} but {} moved", ev.step, ev.op, b.delegated, out.amount));
            }
            if a.delegated != b.delegated - out.amount {
                return viol("allowance-accounting", format!("step {} {:?}: allowance {} -> {} for {}", ev.step, ev.op, b.delegated, a.delegated, out.amount));
            }
        }
        let strangers = matches!(auth, Auth::Stranger(i) if !(u == 3 && *i == 3)) && !stranger_is_delegate;
        if strangers {
            return viol("stranger", format!("step {} {:?}: {what} by a stranger was accepted", ev.step, ev.op));
        }
        if *auth == Auth::Unsigned {
            return viol("unsigned", format!("step {} {:?}: {what} without the owner's signature was accepted", ev.step, ev.op));
        }
        if let (Auth::Signers(v), 3) = (auth, u) {
            let mut d: Vec<u8> = v.iter().copied().filter(|i| (*i as usize) < l.members.len()).collect();
            d.sort();
            d.dedup();
            if d.len() < l.m {
                return viol("too-few-signers", format!("step {} {:?}: {} of {} needed members signed", ev.step, ev.op, d.len(), l.m));
            }
        }
    }
    match &out.verdict {
        Verdict::Unjustified(m) => viol("unjustified", format!("step {} {:?}: {what} accepted although {m}", ev.step, ev.op)),
        Verdict::Refused(m) if !matches!(auth, Auth::Owner) || u == 3 => {
            viol("authority-refused", format!("step {} {:?}: {what} by a sufficient authority {m}", ev.step, ev.op))
        }
        _ => Ok(()),
    }
}

impl Prop for LabProp {
    type Case = LabCase;
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        match self.id {
            "C01" => "a history with at least two accepted wraps and one accepted unwrap",
            "C02" => "at least one accepted wrap whose result was compared account by account",
            "C03" => "at least one accepted unwrap whose result was compared account by account",
            "C04" => "at least one accepted wrap, and the final redemption of every holder's wrapped tokens",
            "C05" => "at least one wrap or unwrap by anything other than a plain owner signature",
            "C19" => "at least two pairs, with accepted wraps or unwraps on one while the others were watched",
            _ => "at least one accepted wrap or unwrap of a hooked mint with the hook's record compared",
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the token programs, the associated-token program and the VM (mollusk-svm) behave as on chain; they are the oracle",
            "single-instruction transactions; signatures are represented by signer flags",
            "mints with a permanent delegate are left out of histories",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        let q = match self.id {
            "C01" => 7000,
            "C02" => 20000,
            "C03" => 20000,
            "C04" => 12000,
            "C05" => 20000,
            "C19" => 6000,
            _ => 16000,
        };
        if tier == Tier::Quick {
            q
        } else {
            q * 40
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<LabCase> {
        let k = if tier == Tier::Quick { 1 } else { 2 };
        match self.id {
            "C01" => lab_case(Focus::History, 40 * k),
            "C02" => lab_case(Focus::Wrap, 12 * k),
            "C03" => lab_case(Focus::Unwrap, 16 * k),
            "C04" => lab_case(Focus::Redeem, 20 * k),
            "C05" => lab_case(Focus::Auth, 16 * k),
            "C19" => lab_case(Focus::Isolation, 40 * k),
            _ => lab_case(Focus::Hook, 16 * k),
        }
    }
    fn run(&self, vms: &mut [Vm], case: &LabCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let mut l = Lab::new(vm, &case.spec);
        for (k, n) in exts_class(&l) {
            *st.classes.entry(k).or_default() += n;
        }
        let mut slack: Vec<i128> = (0..l.pairs.len()).map(|i| l.escrow_minus_supply(i)).collect();
        let (mut wraps, mut unwraps, mut special, mut hooked) = (0, 0, 0, 0);
        for (step, op) in case.ops.iter().enumerate() {
            let ev = run_op(&mut l, vm, op, step, st);
            if ev.kind == 1 && ev.tw_ok {
                wraps += 1;
            }
            if ev.kind == 2 && ev.tw_ok {
                unwraps += 1;
            }
            if ev.kind > 0 && ev.auth_class != "owner" {
                special += 1;
            }
            if ev.hook.is_some() && ev.tw_ok {
                hooked += 1;
            }
            if ev.kind > 0 && matches!(self.id, "C05" | "C20") {
                st.hit(format!("{} {}: {}", if ev.kind == 1 { "wrap" } else { "unwrap" }, ev.auth_class, if ev.tw_ok { "accepted" } else { "refused" }));
            }
            match self.id {
                "C01" => {
                    if !ev.tw_ok && (ev.kind > 0 || matches!(op, Op::CreateAgain { .. } | Op::CloseStuck { .. } | Op::Sync { .. } | Op::SetPointer { .. } | Op::Mix { .. })) {
                        if let Some(d) = ev.before.diff(&l.w, &[]) {
                            return viol("refused-but-changed", format!("step {step} {op:?}: {d}"));
                        }
                    }
                    slack_check(&l, &ev, &mut slack)?
                }
                "C02" | "C03" => {
                    let k = if self.id == "C02" { 1 } else { 2 };
                    if let (Some(o), true) = (&ev.out, ev.kind == k) {
                        match &o.verdict {
                            Verdict::Differs(m) => viol("differs", format!("step {step} {op:?} (amount {}): {m}", o.amount))?,
                            Verdict::Unjustified(m) => viol("unjustified", format!("step {step} {op:?} (amount {}): accepted although {m}", o.amount))?,
                            _ => {}
                        }
                    }
                }
                "C04" => {
                    if let Some(Outcome { verdict: Verdict::Refused(m), amount, .. }) = &ev.out {
                        // members listed without signing are not "the right accounts"
                        viol("refused", format!("step {step} {op:?} (amount {amount}): {m}"))?
                    }
                }
                "C05" => auth_rule(&l, &ev)?,
                "C19" => isolation(&l, &ev)?,
                _ => hook_rule(&l, &ev)?,
            }
        }
        if matches!(self.id, "C04" | "C19" | "C01") {
            let before: Vec<i128> = (0..l.pairs.len()).map(|i| l.escrow_minus_supply(i)).collect();
            match liquidate(&mut l, vm, &case.liq, st) {
                Ok(()) => {}
                Err(v) if self.id == "C04" || (self.id == "C19" && v.sig == "redemption-refused") => return Err(v),
                Err(_) => {}
            }
            for (i, b) in before.iter().enumerate() {
                let e = l.escrow_minus_supply(i);
                if e != *b && self.id == "C01" {
                    return viol("cushion-changed", format!("final redemption: pair {i} escrow minus supply went from {b} to {e}"));
                }
                // every holder has redeemed, so only wrapped tokens locked in other escrows remain,
                // and those at the program's own address
                let (w, n) = (l.pairs[i].w, l.pairs.len());
                let held: u64 = l.pairs.iter().filter(|q| q.p.umint == l.pairs[i].p.wmint).map(|q| l.w.amount(&q.p.escrow)).sum::<u64>()
                    + (0..n).map(|q| l.w.amount(&pda_held(w, q))).sum::<u64>();
                if self.id != "C01" && l.w.supply(&l.pairs[i].p.wmint) != held {
                    return viol("not-fully-redeemed", format!("pair {i}: supply {} after everyone redeemed, {held} held by other pairs", l.w.supply(&l.pairs[i].p.wmint)));
                }
            }
        }
        st.nontrivial = match self.id {
            "C01" => wraps >= 2 && unwraps >= 1,
            "C02" => wraps >= 1,
            "C03" => unwraps >= 1,
            "C04" => wraps >= 1,
            "C05" => special >= 1,
            "C19" => l.pairs.len() >= 2 && wraps >= 1,
            _ => hooked >= 1,
        };
        st.note = Some(format!("{wraps} wraps and {unwraps} unwraps accepted over {} pairs", l.pairs.len()));
        Ok(())
    }
}
