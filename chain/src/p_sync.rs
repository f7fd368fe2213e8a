//! C10, C11: metadata sync mirrors the source.
use {
    crate::{engine::*, lab::tail_logs, meta::*, tok, vm::*, world::*},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_instruction::error::InstructionError,
    solana_pubkey::Pubkey,
    std::collections::BTreeMap,
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// write metadata at a place: 0 the mint itself, 1 its Metaplex address, 2 an external program's account
    Edit { at: u8, meta: Meta },
    /// change a part of what is there
    Tweak { at: u8, what: u8, meta: Meta },
    Point { at: u8 },
    Sync { twice: bool },
    Dust { which: u8, amount: u32 },
    /// a creator signs the wrapped mint's record
    Sign { who: u8 },
    /// the wrapped record's collection gets verified
    Verify,
    /// a holder of wrapped tokens marks the primary sale on the record, or uses one of its uses
    Held { used: bool },
    Erase { at: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SyncCase {
    /// unwrapped mint: 0 SPL Token, 1 Token-2022 with a metadata pointer, 2 without
    pub kind: u8,
    pub start: u8,
    pub steps: Vec<Step>,
    /// lamports of the payer beyond need (C11)
    pub payer: u64,
    pub big: bool,
}
pub fn sync_case(to_spl: bool, n: usize) -> BoxedStrategy<SyncCase> {
    let bad = if to_spl { 1 } else { 0 };
    // 3: where the pointer points now
    let at = || prop_oneof![6 => Just(3u8), 1 => Just(0u8), 1 => Just(1), 1 => Just(2)];
    let start = || prop_oneof![3 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8)];
    (any::<bool>().prop_flat_map(move |big| {
        let (max, nf) = if big { (200usize, 12usize) } else { (40, 7) };
        let step = prop_oneof![
            3 => (at(), meta(bad, max, nf)).prop_map(|(at, meta)| Step::Edit { at, meta }),
            4 => (at(), any::<u8>(), meta(bad, max, nf)).prop_map(|(at, what, meta)| Step::Tweak { at, what, meta }),
            1 => start().prop_map(|at| Step::Point { at }),
            6 => prop::bool::weighted(0.3).prop_map(|twice| Step::Sync { twice }),
            1 => (0u8..3, 1u32..1_000_000).prop_map(|(which, amount)| Step::Dust { which, amount }),
            if to_spl { 1 } else { 0 } => (0u8..5).prop_map(|who| Step::Sign { who }),
            if to_spl { 1 } else { 0 } => Just(Step::Verify),
            if to_spl { 1 } else { 0 } => prop::bool::weighted(0.25).prop_map(|used| Step::Held { used }),
            1 => (0u8..8).prop_map(|at| Step::Erase { at }),
        ];
        (Just(big), vec(step, 1..n), meta(0, max, nf))
    }),
    prop_oneof![1 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)], start(), prop_oneof![6 => Just(10_000_000_000u64), 1 => 0u64..40_000_000])
        .prop_map(|((big, mut steps, first), kind, start, payer)| {
            steps.insert(0, Step::Edit { at: start, meta: first });
            SyncCase { kind, start, steps, payer, big }
        })
        .boxed()
}

pub struct SyncLab {
    pub w: World,
    pub p: Pair,
    pub kind: u8,
    /// where the mint says its metadata is
    pub at: u8,
    pub places: [Option<Meta>; 3],
    pub ext: Pubkey,
}
impl SyncLab {
    pub fn new(vm: &mut Vm, kind: u8, start: u8, to_spl: bool) -> SyncLab {
        let mut w = World::default();
        let umint = key("unwrapped", 900);
        let ext = key("external-metadata", 0);
        let t22 = kind > 0;
        let cfg = MintCfg { t22, native: false, decimals: 6, freeze: true, ext: if kind == 1 { xb::META_POINTER } else { 0 }, fees: vec![] };
        let start = if kind == 1 { start % 3 } else { 1 };
        let addr = [umint, metaplex_pda(&umint), ext][start as usize];
        create_mint(&mut w, vm, umint, &cfg, Some(addr));
        let p = Pair::new(umint, cfg.prog(), if to_spl { SPL } else { T22 });
        create_pair(&mut w, vm, &p);
        SyncLab { w, p, kind, at: start, places: [None, None, None], ext }
    }
    pub fn place(&self, i: u8) -> Pubkey {
        [self.p.umint, metaplex_pda(&self.p.umint), self.ext][i as usize % 3]
    }
    pub fn write(&mut self, vm: &mut Vm, at: u8, m: Meta) {
        // an SPL Token mint has only its Metaplex address; without a pointer there is no place on the mint
        let at = if self.kind != 1 { 1 } else if at > 2 { self.at } else { at };
        let mut m = m;
        if at < 2 {
            m.again.clear();
        }
        match at {
            0 => set_self_meta(&mut self.w, vm, self.p.umint, &m),
            1 => {
                if self.w.data(&self.place(1)).len() > 600 && m.extra.pad == 0 {
                    m.extra.pad = 2;
                }
                let d = m.mpx_bytes(&self.p.umint);
                self.w.put(self.place(1), MPL, vm.rent(d.len()) * 2, d);
            }
            _ => {
                let mut d = vec![0u8];
                let b = loop {
                    let b = m.t22_bytes(&admin_key(), &self.p.umint);
                    if b.len() <= 1024 {
                        break b;
                    }
                    // return data holds no more than 1024 bytes
                    if m.fields.pop().is_none() {
                        m.name = String::new();
                        m.uri = String::new();
                        m.symbol = String::new();
                    }
                };
                d.extend(b);
                self.w.put(self.ext, MOCK_META, vm.rent(d.len()), d);
            }
        }
        self.places[at as usize] = Some(m);
    }
    pub fn erase(&mut self, vm: &mut Vm, at: u8) {
        match at {
            1 => {
                self.w.a.remove(&self.place(1));
                self.places[1] = None;
            }
            2 => {
                self.w.put(self.ext, MOCK_META, vm.rent(1), vec![1]);
                self.places[2] = None;
            }
            _ => {}
        }
    }
    pub fn point(&mut self, vm: &mut Vm, at: u8) {
        if self.kind == 1 {
            let a = self.place(at);
            let ix = spl_token_2022_interface::extension::metadata_pointer::instruction::update(&T22, &self.p.umint, &admin_key(), &[], Some(a)).unwrap();
            self.w.must(vm, &ix);
            self.at = at % 3;
        }
    }
    pub fn source(&self) -> Option<&Meta> {
        self.places[self.at as usize].as_ref()
    }
    pub fn extra_accounts(&self) -> Vec<Pubkey> {
        match self.at {
            0 => vec![],
            1 => vec![self.place(1)],
            _ => vec![self.ext, MOCK_META],
        }
    }
    fn tweak(&self, at: u8, what: u8, new: &Meta) -> Option<(u8, Meta)> {
        let at = if self.kind != 1 { 1 } else if at > 2 { self.at } else { at };
        let mut m = self.places[at as usize].clone()?;
        let text = |old: &mut String, new: &String| *old = nudge(old, new, what / 12);
        match what % 12 {
            0 => text(&mut m.name, &new.name),
            1 => text(&mut m.symbol, &new.symbol),
            2 => text(&mut m.uri, &new.uri),
            3 => m.fields.extend(new.fields.iter().take(1).cloned()),
            4 => {
                m.fields.pop();
            }
            5 => {
                if let (Some(a), Some(b)) = (m.fields.first_mut(), new.fields.first()) {
                    if what % 24 < 12 { text(&mut a.1, &b.1) } else { text(&mut a.0, &b.0) }
                }
            }
            6 if what / 12 > 15 => {
                if let Some(Fld::Good(v, _)) = &mut m.special.creators {
                    v.reverse();
                }
            }
            6 => m.special.creators = new.special.creators.clone(),
            7 => m.special.fee = new.special.fee.clone(),
            8 => m.special.collection = new.special.collection.clone(),
            9 => m.special.uses = new.special.uses.clone(),
            10 => {
                let pad = m.extra.pad;
                m.extra = new.extra.clone();
                m.extra.pad = pad;
            }
            _ => m.fields = new.fields.clone(),
        }
        // the keys that mean something belong to `special`
        for (k, _) in m.fields.iter_mut() {
            if ["seller_fee_basis_points", "creators", "collection", "uses"].contains(&k.as_str()) {
                k.push('s');
            }
        }
        Some((at, m))
    }
    /// Steps other than syncs.
    pub fn apply(&mut self, vm: &mut Vm, s: &Step) {
        match s {
            Step::Edit { at, meta } => self.write(vm, *at, meta.clone()),
            Step::Tweak { at, what, meta } => {
                if let Some((at, m)) = self.tweak(*at, *what, meta) {
                    self.write(vm, at, m);
                }
            }
            Step::Point { at } => self.point(vm, *at),
            Step::Dust { which, amount } => {
                let k = [self.p.wmint, self.p.wauth, metaplex_pda(&self.p.wmint)][*which as usize % 3];
                self.w.fund(k, *amount as u64);
            }
            Step::Erase { at } => self.erase(vm, *at),
            Step::Sign { who } => {
                let k = metaplex_pda(&self.p.wmint);
                let ix = mpl_token_metadata::instructions::SignMetadata { metadata: k, creator: creator_key(*who) }.instruction();
                let _ = self.w.exec(vm, &ix);
            }
            Step::Verify => {
                let k = metaplex_pda(&self.p.wmint);
                if let Some(a) = self.w.a.get_mut(&k) {
                    if let Some(o) = collection_offset(&a.data) {
                        a.data[o] = 1;
                    }
                }
            }
            Step::Held { used } => {
                let (holder, account, metadata) = (key("holder", 0), key("holder-tokens", 0), metaplex_pda(&self.p.wmint));
                let mut d = vec![0u8; 165];
                d[..32].copy_from_slice(self.p.wmint.as_ref());
                d[32..64].copy_from_slice(holder.as_ref());
                d[64] = 1;
                d[108] = 1;
                self.w.put(account, SPL, vm.rent(165), d);
                use mpl_token_metadata::instructions::{UpdatePrimarySaleHappenedViaToken, Utilize, UtilizeInstructionArgs};
                let ix = if *used {
                    Utilize {
                        metadata, token_account: account, mint: self.p.wmint, use_authority: holder, owner: holder, token_program: SPL,
                        ata_program: ATA, system_program: SYS, rent: solana_sdk_ids::sysvar::rent::id(), use_authority_record: None, burner: None,
                    }
                    .instruction(UtilizeInstructionArgs { number_of_uses: 1 })
                } else {
                    UpdatePrimarySaleHappenedViaToken { metadata, owner: holder, token: account }.instruction()
                };
                let _ = self.w.exec(vm, &ix);
            }
            Step::Sync { .. } => {}
        }
    }
}
/// Offset of the verified flag of a record's collection.
fn collection_offset(d: &[u8]) -> Option<usize> {
    let r = read_mpx(d)?;
    let c = r.collection?;
    let mut pat = vec![1u8, c.0 as u8];
    pat.extend_from_slice(c.1.as_ref());
    d.windows(pat.len()).position(|x| x == pat).map(|i| i + 1)
}

/// Mostly another text, otherwise one that differs little from the old one.
fn nudge(old: &str, new: &str, how: u8) -> String {
    let swap = |c: char| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let c: Vec<char> = old.chars().collect();
    let n = c.len().saturating_sub(1);
    match how {
        10 => c.iter().map(|c| swap(*c)).collect(),
        11 => c.iter().take(1).map(|c| swap(*c)).chain(c.iter().skip(1).copied()).collect(),
        12 => format!("{old} "),
        13 => format!(" {old}"),
        14 => c[..n].iter().collect(),
        15 => c.iter().skip(1).collect(),
        16 => format!("{old}{}", new.chars().next().unwrap_or('a')),
        17 => c.iter().rev().collect(),
        18 => String::new(),
        19 => old.trim().to_string(),
        20 => c[..n].iter().copied().chain(new.chars().take(1)).collect(),
        21 => new.chars().cycle().take(c.len().min(40)).collect(),
        _ => new.to_string(),
    }
}
/// The wrapped mint's metadata against the source's.
pub fn check_mirror(got: &T22Meta, p: &Pair, m: &Meta, from_mpx: bool) -> Result<(), Violation> {
    // on chain, Metaplex pads strings with NULs, which belong to them
    let [name, symbol, uri] = if from_mpx { m.strings() } else { [m.name.clone(), m.symbol.clone(), m.uri.clone()] };
    for (what, a, b) in [("name", &got.name, &name), ("symbol", &got.symbol, &symbol), ("uri", &got.uri, &uri)] {
        if a != b {
            return viol("base-field", format!("{what} is {a:?}, the source says {b:?}"));
        }
    }
    let want: BTreeMap<String, Want> = if from_mpx {
        m.mpx_fields()
    } else {
        // of a key named more than once the last value counts
        m.ext_fields().into_iter().map(|(k, v)| (k, Want::Text(v))).collect()
    };
    let mut seen = BTreeMap::new();
    for (k, v) in &got.fields {
        if seen.insert(k.clone(), v.clone()).is_some() {
            return viol("duplicate-key", format!("field {k:?} appears twice"));
        }
        match want.get(k) {
            None => return viol("stale-field", format!("field {k:?} = {v:?} is not in the source")),
            Some(x) if !x.fits(v) => return viol("wrong-field", format!("field {k:?} is {v:?}, expected {x:?}")),
            _ => {}
        }
    }
    if let Some(k) = want.keys().find(|k| !seen.contains_key(*k)) {
        return viol("missing-field", format!("field {k:?} of the source is missing"));
    }
    if got.authority != p.wauth {
        return viol("update-authority", format!("update authority {}", got.authority));
    }
    if got.mint != p.wmint {
        return viol("metadata-mint", format!("metadata names mint {}", got.mint));
    }
    Ok(())
}
/// Everything on the wrapped mint but its metadata.
fn rest(d: &[u8]) -> (Vec<u8>, Vec<(u16, Vec<u8>)>) {
    let mut t = tok::tlv(d);
    t.retain(|e| e.0 != 19);
    t.sort();
    (d[..d.len().min(166)].to_vec(), t)
}

pub struct C10;
impl Prop for C10 {
    type Case = SyncCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "at least two syncs succeeded with a source change between them"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["success is demanded up to 8 additional fields (of a Metaplex record: as many as it has, if no more than 16 fields are to be written or removed) and 700 bytes of metadata before and after; larger ones may exhaust the VM's heap or budget"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 1_000_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<SyncCase> {
        sync_case(false, if t == Tier::Quick { 14 } else { 30 })
    }
    fn run(&self, vms: &mut [Vm], c: &SyncCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let mut l = SyncLab::new(vm, c.kind, c.start, false);
        l.w.fund(l.p.wmint, 50_000_000_000);
        let blank = l.w.data(&l.p.wmint).to_vec();
        let (mut syncs, mut changed, mut edited) = (0, 0, false);
        for (i, s) in c.steps.iter().enumerate() {
            let Step::Sync { twice } = s else {
                l.apply(vm, s);
                edited = true;
                continue;
            };
            let before = l.w.clone();
            let r = l.w.exec(vm, &ix_sync22(&l.p, &l.extra_accounts()));
            let from_mpx = l.at == 1;
            let prior = tok::ext(before.data(&l.p.wmint), 19).and_then(|b| read_t22_meta(&b));
            let Some(m) = l.source().cloned() else {
                if r.is_ok() {
                    return viol("sync-from-nothing", format!("step {i}: a sync succeeded although the source does not exist"));
                }
                if let Some(d) = before.diff(&l.w, &[]) {
                    return viol("refused-but-changed", d);
                }
                st.hit("no source: refused");
                continue;
            };
            match r {
                Err(e) => {
                    let src = m.t22_bytes(&admin_key(), &l.p.umint).len();
                    let size = src.max(prior.as_ref().map(|p| p.fields.iter().map(|(a, b)| 8 + a.len() + b.len()).sum::<usize>() + p.name.len() + p.uri.len() + p.symbol.len() + 80).unwrap_or(0));
                    let n = m.ext_fields().len().max(prior.as_ref().map(|p| p.fields.len()).unwrap_or(0));
                    let keys: Vec<String> = if from_mpx { m.mpx_fields().into_keys().collect() } else { m.ext_fields().into_iter().map(|f| f.0).collect() };
                    let stale = prior.as_ref().map(|p| p.fields.iter().filter(|f| !keys.contains(&f.0)).count()).unwrap_or(0);
                    let limit = size <= 700 && keys.len() + stale <= 16 && (from_mpx || n <= 8);
                    let resource = matches!(e, InstructionError::ProgramFailedToComplete | InstructionError::ComputationalBudgetExceeded);
                    if limit || !resource {
                        return viol("refused", format!("step {i}: sync refused: {e:?} ({n} fields, {size} bytes): {}", tail_logs(vm)));
                    }
                    st.hit(format!("large: {e:?}"));
                    if let Some(d) = before.diff(&l.w, &[]) {
                        return viol("refused-but-changed", d);
                    }
                }
                Ok(()) => {
                    st.hit(["synced from the mint itself", "synced from Metaplex", "synced from an external program"][l.at as usize]);
                    st.hit(if prior.is_none() { "initialised" } else { "updated" });
                    let Some(got) = tok::ext(l.w.data(&l.p.wmint), 19).and_then(|b| read_t22_meta(&b)) else {
                        return viol("no-metadata", format!("step {i}: the wrapped mint has no readable metadata"));
                    };
                    check_mirror(&got, &l.p, &m, from_mpx).map_err(|v| Violation { sig: v.sig, msg: format!("step {i}: {}", v.msg) })?;
                    if rest(before.data(&l.p.wmint)) != rest(l.w.data(&l.p.wmint)) {
                        return viol("mint-touched", format!("step {i}: something besides the metadata changed on the wrapped mint"));
                    }
                    if before.lamports(&l.p.wmint) != l.w.lamports(&l.p.wmint) {
                        return viol("lamports", format!("step {i}: lamports of the wrapped mint changed"));
                    }
                    if let Some(d) = before.diff(&l.w, &[l.p.wmint]) {
                        return viol("side-effect", format!("step {i}: {d}"));
                    }
                    if l.at == 2 && m.repeats() {
                        // what an ambiguous source comes out as does not depend on what was there before
                        st.hit("a key named more than once");
                        let mut fresh = before.clone();
                        fresh.a.get_mut(&l.p.wmint).unwrap().data = blank.clone();
                        if fresh.exec(vm, &ix_sync22(&l.p, &l.extra_accounts())).is_ok() {
                            let f = tok::ext(fresh.data(&l.p.wmint), 19).and_then(|b| read_t22_meta(&b)).map(|m| m.fields).unwrap_or_default();
                            if f.len() != got.fields.len() || !f.iter().all(|x| got.fields.contains(x)) {
                                return viol("depends-on-history", format!("step {i}: fields {:?}, but {f:?} when synced for the first time", got.fields));
                            }
                        }
                    }
                    if let Some(p) = &prior {
                        for (k, _) in &p.fields {
                            if !got.fields.iter().any(|(j, _)| j == k) {
                                st.hit("stale field removed");
                            }
                        }
                        for (k, v) in &got.fields {
                            match p.fields.iter().find(|(j, _)| j == k) {
                                None => st.hit("field added"),
                                Some((_, o)) if o != v => st.hit("field changed"),
                                _ => {}
                            }
                        }
                    }
                    syncs += 1;
                    if edited && syncs > 1 {
                        changed += 1;
                    }
                    edited = false;
                    if *twice {
                        let once = l.w.clone();
                        if let Err(e) = l.w.exec(vm, &ix_sync22(&l.p, &l.extra_accounts())) {
                            return viol("resync-refused", format!("step {i}: syncing again was refused: {e:?}"));
                        }
                        if let Some(d) = once.diff(&l.w, &[]) {
                            return viol("not-idempotent", format!("step {i}: syncing again changed {d}"));
                        }
                    }
                }
            }
        }
        st.nontrivial = changed > 0;
        Ok(())
    }
}

const KEEP_CREATORS: bool = true;
pub struct C11;
impl Prop for C11 {
    type Case = SyncCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "at least one sync created or updated the record and every sync was compared with Metaplex executed directly"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["what Metaplex accepts from the wrapped mint's authority is decided by executing Metaplex itself"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 1_000_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<SyncCase> {
        sync_case(true, if t == Tier::Quick { 14 } else { 30 })
    }
    fn run(&self, vms: &mut [Vm], c: &SyncCase, st: &mut Stats) -> Result<(), Violation> {
        use mpl_token_metadata::instructions::*;
        let vm = &mut vms[0];
        let mut l = SyncLab::new(vm, c.kind, c.start, true);
        l.w.fund(l.p.wauth, c.payer);
        let rec = metaplex_pda(&l.p.wmint);
        let mut done = 0;
        for (i, s) in c.steps.iter().enumerate() {
            let Step::Sync { twice } = s else {
                l.apply(vm, s);
                continue;
            };
            for round in 0..1 + *twice as usize {
                let before = l.w.clone();
                let r = l.w.exec(vm, &ix_sync_spl(&l.p, &l.extra_accounts()));
                let logs = tail_logs(vm);
                let src = l.source().cloned();
                let from_mpx = l.at == 1;
                let Some(m) = src else {
                    if r.is_ok() {
                        return viol("sync-from-nothing", format!("step {i}: a sync succeeded although the source does not exist"));
                    }
                    if let Some(d) = before.diff(&l.w, &[]) {
                        return viol("refused-but-changed", d);
                    }
                    continue;
                };
                if !from_mpx && m.special.malformed() {
                    if r.is_ok() {
                        return viol("malformed-accepted", format!("step {i}: malformed fields were accepted: {:?}", m.special.render()));
                    }
                    if let Some(d) = before.diff(&l.w, &[]) {
                        return viol("refused-but-changed", d);
                    }
                    st.hit("malformed: refused");
                    continue;
                }
                // Metaplex itself, signed by the program's address
                let mut data = m.data_v2(from_mpx);
                let mut direct = before.clone();
                let exists = !before.data(&rec).is_empty();
                // nothing is verified by the program: what the record's creators and
                // collection authority verified themselves stays, the rest is unverified
                let old = read_mpx(before.data(&rec));
                if let Some(c) = &mut data.collection {
                    c.verified = old.as_ref().and_then(|o| o.collection).map(|o| o.0 && o.1 == c.key).unwrap_or(false);
                }
                for c in data.creators.iter_mut().flatten() {
                    c.verified = KEEP_CREATORS && old.as_ref().and_then(|o| o.creators.clone()).unwrap_or_default().iter().any(|o| o.1 && o.0 == c.address);
                }
                let ix = if exists {
                    UpdateMetadataAccountV2 { metadata: rec, update_authority: l.p.wauth }.instruction(UpdateMetadataAccountV2InstructionArgs {
                        data: Some(data.clone()),
                        new_update_authority: None,
                        primary_sale_happened: None,
                        is_mutable: None,
                    })
                } else {
                    let mut ix = ix_metaplex_create(l.p.wmint, l.p.wauth, l.p.wauth, l.p.wauth, data.clone());
                    for a in ix.accounts.iter_mut() {
                        if a.pubkey == l.p.wauth {
                            a.is_signer = true;
                            a.is_writable = true;
                        }
                    }
                    ix
                };
                let d = direct.exec(vm, &ix);
                let dl = tail_logs(vm);
                match (r, d) {
                    (Ok(()), Ok(())) => {
                        done += 1;
                        st.hit(if exists { "record updated" } else { "record created" });
                        st.hit(["from the mint itself", "from Metaplex", "from an external program"][l.at as usize]);
                        if let Some(x) = direct.diff(&l.w, &[]) {
                            return viol("differs", format!("step {i}: Metaplex directly: {x}"));
                        }
                        let Some(g) = read_mpx(l.w.data(&rec)) else { return viol("unreadable", format!("step {i}: no readable record")) };
                        let want = (
                            m.name.trim_end_matches('\0').to_string(), m.symbol.trim_end_matches('\0').to_string(), m.uri.trim_end_matches('\0').to_string(),
                            data.seller_fee_basis_points,
                        );
                        if (g.name.clone(), g.symbol.clone(), g.uri.clone(), g.fee) != want {
                            return viol("record", format!("step {i}: {g:?}, expected {want:?}"));
                        }
                        let signed = |k: &Pubkey| old.as_ref().and_then(|o| o.creators.clone()).unwrap_or_default().iter().any(|o| o.1 && o.0 == *k);
                        if g.creators.iter().flatten().any(|c| c.1 && !signed(&c.0)) {
                            return viol("verified", format!("step {i}: a creator that never verified the record is recorded as verified"));
                        }
                        if old.as_ref().is_some_and(|o| o.primary) {
                            st.hit("record of a sold token updated");
                        }
                        if g.creators.iter().flatten().any(|c| c.1) {
                            st.hit("a creator's own verification kept");
                        }
                        if g.collection.map(|c| c.0 && old.as_ref().and_then(|o| o.collection) != Some(c)).unwrap_or(false) {
                            return viol("verified", format!("step {i}: a collection nobody verified on the record is recorded as verified"));
                        }
                        let cs = |v: Vec<(Pubkey, bool, u8)>| v.into_iter().map(|c| (c.0, c.2)).collect::<Vec<_>>();
                        let wc = data.creators.as_ref().map(|v| v.iter().map(|c| (c.address, c.share)).collect::<Vec<_>>()).filter(|v| !v.is_empty());
                        if g.creators.clone().map(cs).filter(|v| !v.is_empty()) != wc {
                            return viol("creators", format!("step {i}: {:?}, expected {wc:?}", g.creators));
                        }
                        if g.collection.map(|c| c.1) != data.collection.as_ref().map(|c| c.key) {
                            return viol("collection", format!("step {i}: {:?}, expected {:?}", g.collection, data.collection));
                        }
                        if g.uses.map(|u| (u.1, u.2)) != data.uses.as_ref().map(|u| (u.remaining, u.total)) {
                            return viol("uses", format!("step {i}: {:?}, expected {:?}", g.uses, data.uses));
                        }
                        if g.authority != l.p.wauth || g.mint != l.p.wmint || !g.mutable {
                            return viol("record-authority", format!("step {i}: {g:?}"));
                        }
                        if before.a.get(&l.p.wmint) != l.w.a.get(&l.p.wmint) {
                            return viol("mint-touched", format!("step {i}: the wrapped mint changed"));
                        }
                    }
                    (Err(e), Err(f)) => {
                        st.hit(format!("both refuse: {f:?}"));
                        if let Some(x) = before.diff(&l.w, &[]) {
                            return viol("refused-but-changed", format!("step {i}: {e:?}: {x}"));
                        }
                    }
                    (Err(e), Ok(())) => {
                        let size = m.t22_bytes(&admin_key(), &l.p.umint).len();
                        let resource = matches!(e, InstructionError::ProgramFailedToComplete | InstructionError::ComputationalBudgetExceeded);
                        if size <= 1500 || !resource {
                            return viol("refused", format!("step {i} (round {round}): sync refused what Metaplex accepts: {e:?} ({size} bytes): {logs}"));
                        }
                        st.hit(format!("large: {e:?}"));
                    }
                    (Ok(()), Err(e)) => return viol("accepted", format!("step {i}: sync accepted what Metaplex refuses: {e:?}: {dl}")),
                }
            }
        }
        st.nontrivial = done > 0;
        Ok(())
    }
}
