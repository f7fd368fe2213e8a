//! A populated world for hostile instructions: genuine pairs, users, attacker
//! accounts and look-alikes of everything. Built once per thread.
use {
    crate::{meta::*, p_create::*, tok, vm::*, world::*},
    serde::{Deserialize, Serialize},
    solana_account::Account,
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    std::{cell::RefCell, rc::Rc},
};

pub struct AMint {
    pub k: Pubkey,
    pub prog: Pubkey,
    pub cfg: MintCfg,
}
pub struct Arena {
    pub w: World,
    pub mints: Vec<AMint>,
    /// index: 2 * mint + (0 SPL Token, 1 Token-2022)
    pub pairs: Vec<Pair>,
    pub pool: Vec<Pubkey>,
}
pub fn alice() -> Pubkey {
    proxy_user().0
}
pub fn mallory() -> Pubkey {
    key("mallory", 0)
}
pub const ACTORS: usize = 2;
pub fn actor(i: usize) -> Pubkey {
    if i % 2 == 0 { alice() } else { mallory() }
}
/// Token account of an actor for any mint.
pub fn acct_of(i: usize, mint: &Pubkey) -> Pubkey {
    key(if i % 2 == 0 { "alice-account" } else { "mallory-account" }, tok::u64at(mint.as_ref(), 0))
}
pub fn second_of(i: usize, mint: &Pubkey) -> Pubkey {
    key(if i % 2 == 0 { "alice-second" } else { "mallory-second" }, tok::u64at(mint.as_ref(), 0))
}
/// Mints: 0 SPL Token, 1 Token-2022 with its own metadata, 2 Token-2022 with fees
/// and close authority, 3 recreated so that its escrows are stuck, 4 a second SPL
/// Token mint, 5 a Token-2022 mint without any wrapped mint yet.
pub const FRESH: usize = 5;
pub const STUCK: usize = 3;

pub const COPIES: [Pubkey; 2] = [COPY_SPL, COPY_T22];
/// An account of a copied token program: of an actor for a genuine mint (0, 1) or,
/// for a wrapped mint, of the copy's own wrapped mint (0, 1) or the genuine one (2, 3).
pub fn copy_acct(copy: usize, i: usize, mint: &Pubkey) -> Pubkey {
    key("copied-account", tok::u64at(mint.as_ref(), 0).wrapping_add((copy * 8 + i) as u64))
}

fn small_meta(tag: &str) -> Meta {
    Meta {
        name: format!("name-{tag}"),
        symbol: tag.to_uppercase(),
        uri: format!("https://{tag}"),
        fields: vec![("k0".into(), tag.into())],
        special: Special { creators: None, fee: Some(Fld::Good(7, 0)), collection: None, uses: None },
        extra: Extra { primary: false, mutable: true, nonce: Some(255), standard: Some(2), details: None, config: None, authority: 0, pad: 1 },
        again: vec![],
    }
}

/// An account of `mint` that belongs to the pair's authority and is not its escrow.
pub fn pda_held(p: &Pair, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"pda-held", p.wauth.as_ref(), mint.as_ref()], &MOCK_META).0
}
pub fn build(vm: &mut Vm) -> Arena {
    let mut w = World::default();
    w.fund(key("payer", 0), 1_000_000_000_000);
    for i in 0..ACTORS {
        w.fund(actor(i), 10_000_000_000);
    }
    // another program's addresses, with that program's data
    w.put(alice(), PROXY, 10_000_000_000, vec![1; 24]);
    w.put(mint_authority_key(), PROXY, 10_000_000_000, vec![1; 40]);
    let c = |t22: bool, ext: u32| MintCfg { t22, native: false, decimals: 6, freeze: true, ext, fees: vec![(0, Fee { bps: 100, max: 5_000 })] }.norm();
    let cfgs = [c(false, 0), c(true, xb::META_POINTER), c(true, xb::FEE | xb::CLOSE), c(true, xb::CLOSE), c(false, 0), c(true, 0)];
    let mut mints = vec![];
    let mut pairs = vec![];
    for (i, cfg) in cfgs.into_iter().enumerate() {
        let k = key("arena-mint", i as u64);
        create_mint(&mut w, vm, k, &cfg, None);
        if i == 1 {
            set_self_meta(&mut w, vm, k, &small_meta("own"));
        } else {
            let d = small_meta(&format!("m{i}")).mpx_bytes(&k);
            w.put(metaplex_pda(&k), MPL, vm.rent(d.len()) * 2, d);
        }
        for a in 0..ACTORS {
            for acc in [acct_of(a, &k), second_of(a, &k)] {
                create_account(&mut w, vm, acc, k, cfg.prog(), &cfg.types(), actor(a), &[], AcctOpts::default());
            }
            if i != STUCK {
                w.must(vm, &ix_mint_to(cfg.prog(), k, acct_of(a, &k), mint_authority_key(), 1_000_000));
            }
        }
        w.fund(canonical_pointer(&k), vm.rent(32));
        for wprog in [SPL, T22] {
            let p = Pair::new(k, cfg.prog(), wprog);
            w.fund(p.wauth, 5_000_000_000);
            w.fund(metaplex_pda(&p.wmint), 1_000_000);
            if i == FRESH {
                w.fund(p.wmint, vm.rent(400));
                w.fund(p.backptr, vm.rent(32));
            } else {
                create_pair(&mut w, vm, &p);
                w.fund(p.wmint, 5_000_000_000);
                let types = spl_types(Deployment::Main, wprog == T22);
                for a in 0..ACTORS {
                    for acc in [acct_of(a, &p.wmint), second_of(a, &p.wmint)] {
                        create_account(&mut w, vm, acc, p.wmint, wprog, &types, actor(a), &[], AcctOpts::default());
                    }
                    if i != STUCK {
                        let ix = ix_wrap(&p, acct_of(a, &p.wmint), acct_of(a, &k), rs(actor(a)), &[], 100_000);
                        w.must(vm, &ix);
                    }
                }
                // tokens somebody sent to the program's own address
                for (mint, prog, t) in [(k, cfg.prog(), cfg.types()), (p.wmint, wprog, types.clone())] {
                    create_account(&mut w, vm, pda_held(&p, &mint), mint, prog, &t, p.wauth, &[], AcctOpts::default());
                }
                if i != STUCK {
                    w.must(vm, &ix_mint_to(cfg.prog(), k, pda_held(&p, &k), mint_authority_key(), 70_000));
                    w.must(vm, &ix_wrap(&p, pda_held(&p, &p.wmint), acct_of(0, &k), rs(actor(0)), &[], 60_000));
                }
            }
            pairs.push(p);
        }
        mints.push(AMint { k, prog: cfg.prog(), cfg });
    }
    // the stuck mint: closed and put back with a fee
    let k = mints[STUCK].k;
    let ix = spl_token_2022_interface::instruction::close_account(&T22, &k, &key("payer", 0), &admin_key(), &[]).unwrap();
    w.must(vm, &ix);
    let cfg = c(true, xb::CLOSE | xb::FEE);
    create_mint(&mut w, vm, k, &cfg, None);
    mints[STUCK].cfg = cfg;

    // look-alikes
    for m in 0..2 {
        let p = pairs[2 * m].clone();
        let q = pairs[2 * m + 1].clone();
        for (n, pp) in [(0u64, &p), (1, &q)] {
            let id = m as u64 * 10 + n;
            // a mint like the wrapped one, under the attacker or under the real authority
            let mut a = w.a[&pp.wmint].clone();
            w.a.insert(key("fake-wrapped-mint", id), a.clone());
            a.data[4..36].copy_from_slice(mallory().as_ref());
            w.a.insert(key("fake-wrapped-mint-m", id), a.clone());
            // its token account
            let mut t = w.a[&acct_of(1, &pp.wmint)].clone();
            t.data[0..32].copy_from_slice(key("fake-wrapped-mint-m", id).as_ref());
            t.data[64..72].copy_from_slice(&1_000_000u64.to_le_bytes());
            w.a.insert(key("fake-wrapped-account", id), t);
            // escrow look-alikes: owned by the authority at another address, and the attacker's
            let e = w.a[&pp.escrow].clone();
            w.a.insert(key("fake-escrow", id), e.clone());
            let mut e2 = e;
            e2.data[32..64].copy_from_slice(mallory().as_ref());
            w.a.insert(key("fake-escrow-m", id), e2);
            // backpointer and pointer contents elsewhere
            w.put(key("fake-backpointer", id), MOCK_META, vm.rent(32), pp.umint.to_bytes().to_vec());
            w.put(key("fake-pointer", id), TW, vm.rent(32), TW.to_bytes().to_vec());
            // a Metaplex record of the wrapped mint elsewhere
            let d = small_meta("fake").mpx_bytes(&pp.wmint);
            w.put(key("fake-record", id), MPL, vm.rent(d.len()), d);
        }
        // the unwrapped mint under the attacker's authority
        let mut a = w.a[&p.umint].clone();
        a.data[0..4].copy_from_slice(&[1, 0, 0, 0]);
        a.data[4..36].copy_from_slice(mallory().as_ref());
        w.a.insert(key("fake-mint", m as u64), a.clone());
        a.owner = MOCK_META;
        w.a.insert(key("fake-mint-foreign", m as u64), a);
        let mut t = w.a[&acct_of(1, &p.umint)].clone();
        t.data[0..32].copy_from_slice(key("fake-mint", m as u64).as_ref());
        t.data[64..72].copy_from_slice(&1_000_000u64.to_le_bytes());
        w.a.insert(key("fake-account", m as u64), t);
    }
    // what a copy of a token program would hold: accounts of it that claim the
    // genuine mints, at the addresses derived for that program
    for (c, copy) in COPIES.into_iter().enumerate() {
        for p in &pairs {
            if w.a.get(&p.wmint).map(|a| a.data.is_empty()).unwrap_or(true) {
                continue;
            }
            let q = Pair::new(p.umint, copy, p.wprog);
            let mut e = w.a[&p.escrow].clone();
            e.owner = copy;
            w.a.insert(q.escrow, e);
            let r = Pair::new(p.umint, p.uprog, copy);
            // nobody can give the program's address to another program: it can only be funded
            w.fund(r.wmint, 5_000_000);
            let mut e = w.a[&p.escrow].clone();
            e.data[32..64].copy_from_slice(r.wauth.as_ref());
            w.a.insert(r.escrow, e);
            for i in 0..ACTORS {
                for (real, fake, mint) in [(acct_of(i, &p.umint), copy_acct(c, i, &p.umint), p.umint), (acct_of(i, &p.wmint), copy_acct(c, i, &p.wmint), r.wmint), (acct_of(i, &p.wmint), copy_acct(c, i + 2, &p.wmint), p.wmint)] {
                    let mut t = w.a[&real].clone();
                    t.owner = copy;
                    t.data[0..32].copy_from_slice(mint.as_ref());
                    t.data[64..72].copy_from_slice(&1_000_000u64.to_le_bytes());
                    w.a.insert(fake, t);
                }
            }
        }
    }
    // an external metadata account, a multisig of the attacker
    let mut d = vec![0u8];
    d.extend(small_meta("evil").t22_bytes(&mallory(), &mints[1].k));
    w.put(key("external-metadata", 7), MOCK_META, vm.rent(d.len()), d);
    for prog in [SPL, T22] {
        create_multisig(&mut w, vm, key("mallory-multisig", (prog == T22) as u64), prog, &[mallory(), key("mallory", 1)], 1);
    }
    w.fund(key("plain", 0), 1_000_000);
    let mut pool: Vec<Pubkey> = w.a.keys().copied().collect();
    pool.extend(vm.programs.keys());
    pool.push(key("absent", 0));
    pool.push(mint_authority_key());
    pool.sort();
    pool.dedup();
    Arena { w, mints, pairs, pool }
}

thread_local! {
    static CACHE: RefCell<Option<Rc<Arena>>> = const { RefCell::new(None) };
}
pub fn arena(vm: &mut Vm) -> Rc<Arena> {
    CACHE.with(|c| {
        if c.borrow().is_none() {
            let a = Rc::new(build(vm));
            *c.borrow_mut() = Some(a);
        }
        c.borrow().clone().unwrap()
    })
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Create,
    CreateAgain,
    Wrap,
    Unwrap,
    Close,
    Sync22,
    SyncSpl,
    Pointer,
}
pub const KINDS: [Kind; 8] = [Kind::Create, Kind::CreateAgain, Kind::Wrap, Kind::Unwrap, Kind::Close, Kind::Sync22, Kind::SyncSpl, Kind::Pointer];

/// A genuine instruction of this kind; `pair` is brought to one the kind fits.
pub fn genuine(a: &Arena, kind: Kind, pair: usize, who: usize, amount: u64) -> Instruction {
    let live = [0, 1, 2, 3, 4, 5, 8, 9];
    let p = &a.pairs[match kind {
        Kind::Create => 2 * FRESH + pair % 2,
        Kind::Close => 2 * STUCK + pair % 2,
        Kind::Sync22 => live[pair % 8] | 1,
        Kind::SyncSpl => live[pair % 8] & !1,
        _ => live[pair % 8],
    }];
    let source = |p: &Pair| if p.umint == a.mints[1].k { vec![] } else { vec![metaplex_pda(&p.umint)] };
    match kind {
        Kind::Create => ix_create_mint(p, amount % 2 == 1),
        Kind::CreateAgain => ix_create_mint(p, true),
        Kind::Wrap => ix_wrap(p, acct_of(who, &p.wmint), acct_of(who, &p.umint), rs(actor(who)), &[], amount),
        Kind::Unwrap => ix_unwrap(p, acct_of(who, &p.umint), acct_of(who, &p.wmint), rs(actor(who)), &[], amount),
        Kind::Close => ix_close_stuck(p, actor(who)),
        Kind::Sync22 => ix_sync22(p, &source(p)),
        Kind::SyncSpl => ix_sync_spl(p, &source(p)),
        Kind::Pointer => ix_set_pointer(rs(mint_authority_key()), p.umint, key("deployment", amount)),
    }
}

/// Whether every account plays the role its position has, for some pair.
pub fn is_genuine(vm: &Vm, w: &World, ix: &Instruction) -> bool {
    let k = |i: usize| ix.accounts.get(i).map(|m| m.pubkey).unwrap_or_default();
    let signed = |i: usize| ix.accounts.get(i).map(|m| m.is_signer).unwrap_or(false);
    let need = |n: usize| ix.accounts.len() >= n;
    let is_mint = |k: &Pubkey| {
        let a = w.get(vm, k);
        (a.owner == SPL || a.owner == T22) && tok::mint(&a.data).is_some()
    };
    let is_acct = |k: &Pubkey, mint: &Pubkey, prog: &Pubkey| {
        let a = w.get(vm, k);
        a.owner == *prog && tok::acct(&a.data).map(|t| t.mint == *mint).unwrap_or(false)
    };
    let owner_signs = |src: usize, at: usize| {
        signed(at) && w.acct(&k(src)).map(|t| t.owner == k(at)).unwrap_or(false)
    };
    let source_ok = |umint: &Pubkey, at: usize| {
        // a mint with its own metadata needs nothing; others their Metaplex address
        tok::ext(w.data(umint), 18).is_some() && w.get(vm, umint).owner == T22 || k(at) == metaplex_pda(umint)
    };
    match ix.data.first() {
        Some(0) => {
            need(5) && is_mint(&k(2)) && (k(4) == SPL || k(4) == T22) && {
                let p = Pair::new(k(2), w.get(vm, &k(2)).owner, k(4));
                k(0) == p.wmint && k(1) == p.backptr
            }
        }
        Some(1) => {
            need(9) && is_mint(&k(6)) && (k(4) == SPL || k(4) == T22) && {
                let p = Pair::new(k(6), w.get(vm, &k(6)).owner, k(4));
                k(1) == p.wmint && k(2) == p.wauth && k(3) == p.uprog && k(7) == p.escrow
                    && is_acct(&k(0), &p.wmint, &p.wprog) && is_acct(&k(5), &p.umint, &p.uprog) && owner_signs(5, 8)
            }
        }
        Some(2) => {
            need(9) && is_mint(&k(3)) && (k(4) == SPL || k(4) == T22) && {
                let p = Pair::new(k(3), w.get(vm, &k(3)).owner, k(4));
                k(7) == p.wmint && k(2) == p.wauth && k(5) == p.uprog && k(0) == p.escrow
                    && is_acct(&k(6), &p.wmint, &p.wprog) && is_acct(&k(1), &p.umint, &p.uprog) && owner_signs(6, 8)
            }
        }
        Some(3) => {
            need(6) && is_mint(&k(2)) && {
                let wp = w.get(vm, &k(3)).owner;
                let p = Pair::new(k(2), T22, wp);
                k(3) == p.wmint && k(4) == p.wauth && k(0) == p.escrow && k(5) == T22
            }
        }
        Some(4) => {
            need(4) && is_mint(&k(2)) && {
                let p = Pair::new(k(2), SYS, T22);
                k(0) == p.wmint && k(1) == p.wauth && k(3) == T22 && source_ok(&p.umint, 4)
            }
        }
        Some(5) => {
            need(7) && is_mint(&k(3)) && {
                let p = Pair::new(k(3), SYS, SPL);
                k(0) == metaplex_pda(&p.wmint) && k(1) == p.wauth && k(2) == p.wmint && k(4) == MPL && k(5) == SYS && source_ok(&p.umint, 7)
            }
        }
        Some(6) => need(4) && is_mint(&k(2)) && k(1) == canonical_pointer(&k(2)) && signed(0) && w.mint(&k(2)).and_then(|m| m.authority) == Some(k(0)),
        _ => false,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mutation {
    Replace(u8, u16),
    /// replace by the account playing another role somewhere else: pair `.1`'s role `.2`
    Role(u8, u8, u8),
    Swap(u8, u8),
    Duplicate(u8, u8),
    Remove(u8),
    Insert(u8, u16),
    Truncate(u8),
    Retag(u8),
    Unsign(u8),
    /// the whole instruction retold with a copy of a token program: which copy,
    /// for which side (0 unwrapped, 1 wrapped, 2 wrapped with the genuine wrapped
    /// mint), which of the positions this concerns
    Copied(u8, u8, u8),
    /// the source becomes an account of the program's own address, that address the authority:
    /// nobody signed for it
    Own,
    Readonly(u8),
    Writable(u8),
    /// sign as the attacker
    SignAs(u8, u8),
    Amount(u64),
    Data(Vec<u8>),
}
pub fn role(p: &Pair, r: u8) -> Pubkey {
    [p.umint, p.wmint, p.wauth, p.backptr, p.escrow, canonical_pointer(&p.umint), metaplex_pda(&p.wmint), metaplex_pda(&p.umint), p.uprog, p.wprog, ata(&p.wauth, &p.wmint, &p.wprog), pda_held(p, &p.umint), pda_held(p, &p.wmint)]
        [r as usize % 13]
}
/// Applies a mutation; the account put in keeps the position's flags.
pub fn mutate(a: &Arena, ix: &mut Instruction, m: &Mutation) {
    let n = ix.accounts.len();
    let at = |i: u8| i as usize % n.max(1);
    if n == 0 && !matches!(m, Mutation::Insert(..) | Mutation::Retag(_) | Mutation::Data(_)) {
        return;
    }
    match m {
        Mutation::Replace(i, k) => ix.accounts[at(*i)].pubkey = a.pool[*k as usize % a.pool.len()],
        Mutation::Role(i, p, r) => ix.accounts[at(*i)].pubkey = role(&a.pairs[*p as usize % a.pairs.len()], *r),
        Mutation::Swap(i, j) => {
            let (i, j) = (at(*i), at(*j));
            let t = ix.accounts[i].pubkey;
            ix.accounts[i].pubkey = ix.accounts[j].pubkey;
            ix.accounts[j].pubkey = t;
        }
        Mutation::Duplicate(i, j) => ix.accounts[at(*i)].pubkey = ix.accounts[at(*j)].pubkey,
        Mutation::Remove(i) => {
            ix.accounts.remove(at(*i));
        }
        Mutation::Insert(i, k) => ix.accounts.insert(*i as usize % (n + 1), AccountMeta::new_readonly(a.pool[*k as usize % a.pool.len()], false)),
        Mutation::Truncate(i) => ix.accounts.truncate(at(*i)),
        Mutation::Retag(t) => {
            let t = t % 7;
            let amount = if ix.data.len() == 9 { ix.data[1..9].to_vec() } else { 5u64.to_le_bytes().to_vec() };
            ix.data = match t {
                0 => vec![0, 1],
                1 | 2 => [vec![t], amount].concat(),
                6 => [vec![6], vec![9; 32]].concat(),
                t => vec![t],
            };
        }
        Mutation::Copied(c, side, mask) => {
            let c = *c as usize % 2;
            let Some(tag) = ix.data.first().copied() else { return };
            // positions: unwrapped mint, wrapped mint, authority, escrow, unwrapped program,
            // wrapped program, unwrapped account, wrapped account
            let pos: [u8; 8] = match tag {
                1 => [6, 1, 2, 7, 3, 4, 5, 0],
                2 => [3, 7, 2, 0, 5, 4, 1, 6],
                3 => [2, 3, 4, 0, 5, 99, 99, 99],
                0 => [2, 0, 99, 99, 99, 4, 99, 1],
                4 => [2, 0, 1, 99, 99, 3, 99, 99],
                5 => [3, 2, 1, 99, 99, 99, 99, 99],
                _ => return,
            };
            if ix.accounts.len() <= *pos.iter().filter(|p| **p < 99).max().unwrap() as usize {
                return;
            }
            let get = |i: usize| ix.accounts.get(pos[i] as usize).map(|m| m.pubkey).unwrap_or_default();
            let Some(p) = a.pairs.iter().find(|p| p.umint == get(0) && p.wmint == get(1)) else { return };
            let who = usize::from(get(6) == acct_of(1, &p.umint) || get(7) == acct_of(1, &p.wmint));
            let copy = COPIES[c];
            let set: Vec<(usize, Pubkey)> = match side % 3 {
                0 => vec![(4, copy), (3, Pair::new(p.umint, copy, p.wprog).escrow), (6, copy_acct(c, who, &p.umint))],
                1 => {
                    let r = Pair::new(p.umint, p.uprog, copy);
                    vec![(5, copy), (1, r.wmint), (2, r.wauth), (3, r.escrow), (7, if tag == 0 { r.backptr } else { copy_acct(c, who, &p.wmint) })]
                }
                _ => vec![(5, copy), (7, if tag == 0 { p.backptr } else { copy_acct(c, who + 2, &p.wmint) })],
            };
            for (n, (i, k)) in set.into_iter().enumerate() {
                if mask >> n & 1 == 1 && pos[i] < 99 {
                    ix.accounts[pos[i] as usize].pubkey = k;
                }
            }
        }
        Mutation::Own => {
            let (u, wm, src) = match ix.data.first() {
                Some(1) => (6, 1, 5),
                Some(2) => (3, 7, 6),
                _ => return,
            };
            let get = |i: usize| ix.accounts.get(i).map(|m| m.pubkey).unwrap_or_default();
            let Some(p) = a.pairs.iter().find(|p| p.umint == get(u) && p.wmint == get(wm)) else { return };
            if n > 8 {
                ix.accounts[src].pubkey = pda_held(p, &if src == 5 { p.umint } else { p.wmint });
                ix.accounts[8] = AccountMeta::new_readonly(p.wauth, false);
            }
        }
        Mutation::Unsign(i) => ix.accounts[at(*i)].is_signer = false,
        Mutation::Readonly(i) => ix.accounts[at(*i)].is_writable = false,
        Mutation::Writable(i) => ix.accounts[at(*i)].is_writable = true,
        Mutation::SignAs(i, k) => {
            let i = at(*i);
            ix.accounts[i].pubkey = [mallory(), key("mallory-multisig", 0), key("mallory-multisig", 1), key("mallory", 1)][*k as usize % 4];
            ix.accounts[i].is_signer = true;
        }
        Mutation::Amount(x) => {
            if ix.data.len() == 9 {
                ix.data[1..9].copy_from_slice(&x.to_le_bytes());
            }
        }
        Mutation::Data(d) => ix.data = d.clone(),
    }
}

/// Sum of amounts of all token accounts of `mint` held by `who`.
pub fn held(w: &World, mint: &Pubkey, who: &Pubkey) -> u128 {
    w.a.values().filter(|a| a.owner == SPL || a.owner == T22).filter_map(|a| tok::acct(&a.data)).filter(|t| t.mint == *mint && t.owner == *who).map(|t| t.amount as u128).sum()
}
pub fn total_lamports(w: &World) -> u128 {
    w.a.values().map(|a| a.lamports as u128).sum()
}
/// Everything a token account holds, with fees withheld on it.
pub fn withheld(a: &Account) -> u64 {
    if a.data.len() <= 166 {
        return 0;
    }
    tok::ext(&a.data, 2).map(|v| tok::u64at(&v, 0)).unwrap_or(0)
}
