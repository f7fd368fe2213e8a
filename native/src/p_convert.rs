//! C13: metadata conversions.
use {
    mpl_token_metadata::types as t,
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_account_info::AccountInfo,
    solana_nullable::MaybeNull,
    solana_program_error::ProgramError,
    solana_pubkey::Pubkey,
    spl_token_metadata_interface::state::TokenMetadata,
    spl_token_wrap::metaplex::{metaplex_to_token_2022_metadata, token_2022_metadata_to_metaplex},
    twchain::{engine::*, meta::*, vm::*, world::key},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ConvCase {
    Record(Meta),
    /// a record with bytes changed, cut or added
    Broken { meta: Meta, flips: Vec<(u16, u8)>, cut: Option<u16>, tail: u8 },
    Bytes(Vec<u8>),
    Fields { meta: Meta, authority: bool },
    /// well-formed special fields of two, one after the other
    Twice(Meta, Meta),
    /// arbitrary additional fields, duplicates included
    Raw(Vec<(String, String)>),
}
pub struct C13;

fn mint() -> Pubkey {
    key("conv-mint", 0)
}
fn convert(d: &[u8]) -> Result<TokenMetadata, ProgramError> {
    let (m, rk, owner) = (mint(), key("conv-record", 0), MPL);
    let (mut l1, mut l2) = (1u64, 1u64);
    let mut d1: Vec<u8> = vec![];
    let mut d2 = d.to_vec();
    let mi = AccountInfo::new(&m, false, false, &mut l1, &mut d1, &owner, false);
    let ri = AccountInfo::new(&rk, false, false, &mut l2, &mut d2, &owner, false);
    metaplex_to_token_2022_metadata(&mi, &ri)
}
/// The part of a record before its optional tail (older records have less of it).
fn prefix(d: &[u8]) -> Option<MpxMeta> {
    for tail in [vec![], vec![0; 4]] {
        let mut x = d.to_vec();
        x.extend(&tail);
        // cut where the optional parts begin: everything after `is_mutable` reads as unset
        let mut o = 65;
        for _ in 0..3 {
            let n = u32::from_le_bytes(x.get(o..o + 4)?.try_into().unwrap()) as usize;
            o = o.checked_add(4)?.checked_add(n)?;
        }
        o += 2;
        o += match x.get(o)? {
            1 => 5 + 34 * u32::from_le_bytes(x.get(o + 1..o + 5)?.try_into().unwrap()) as usize,
            _ => 1,
        };
        if x.len() < o + 2 {
            continue;
        }
        x.truncate(o + 2);
        x.extend([0; 4]);
        if let Some(r) = read_mpx(&x) {
            return Some(r);
        }
    }
    None
}
fn unpad(s: &str) -> &str {
    s.trim_end_matches('\0')
}
/// Like the program's data, without verification.
fn unverified(mut d: t::DataV2) -> t::DataV2 {
    for c in d.creators.iter_mut().flatten() {
        c.verified = false;
    }
    if let Some(c) = d.collection.as_mut() {
        c.verified = false;
    }
    d
}
fn json(d: &t::DataV2) -> serde_json::Value {
    serde_json::json!({
        "name": d.name, "symbol": d.symbol, "uri": d.uri, "fee": d.seller_fee_basis_points,
        "creators": d.creators.as_ref().map(|v| v.iter().map(|c| serde_json::json!([c.address.to_string(), c.verified, c.share])).collect::<Vec<_>>()),
        "collection": d.collection.as_ref().map(|c| serde_json::json!([c.verified, c.key.to_string()])),
        "uses": d.uses.as_ref().map(|u| serde_json::json!([format!("{:?}", u.use_method), u.remaining, u.total])),
    })
}
fn check_record(m: &Meta, got: &TokenMetadata) -> Result<(), Violation> {
    let auth = key("mpx-authority", m.extra.authority as u64);
    let got_auth = Option::<Pubkey>::from(got.update_authority.clone());
    if got_auth != Some(auth) {
        return viol("authority", format!("update authority {got_auth:?}, the record's is {auth}"));
    }
    if got.mint != mint() {
        return viol("mint", format!("mint {}", got.mint));
    }
    let [name, symbol, uri] = m.strings();
    for (what, g, w) in [("name", &got.name, &name), ("symbol", &got.symbol, &symbol), ("uri", &got.uri, &uri)] {
        if g != w {
            return viol("strings", format!("{what} {g:?}, the record's is {w:?}"));
        }
    }
    let want = m.mpx_fields();
    for (k, v) in &got.additional_metadata {
        match want.get(k) {
            None => return viol("extra-field", format!("field {k:?} = {v:?} stands for nothing the record sets")),
            Some(w) if !w.fits(v) => return viol("field", format!("field {k:?} = {v:?}, the record says {w:?}")),
            _ => {}
        }
    }
    for k in want.keys() {
        let n = got.additional_metadata.iter().filter(|(j, _)| j == k).count();
        if n != 1 {
            return viol("missing-field", format!("field {k:?} appears {n} times"));
        }
    }
    Ok(())
}

impl Prop for C13 {
    type Case = ConvCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "at least one optional part is set, or the input is malformed"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "an empty creator list and none are the same thing",
            "with the same special field twice the last one counts; whether a malformed earlier one is refused is left open",
        ]
    }
    fn deployments(&self) -> Vec<Deployment> {
        vec![]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 12_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ConvCase> {
        let special = prop::sample::select(vec!["creators", "seller_fee_basis_points", "collection", "uses", "k0", "key", "is_mutable"]).prop_map(String::from);
        let value = prop_oneof![
            2 => (creators(), 0u8..4).prop_map(|(c, s)| creators_json(&c, s)),
            2 => any::<u32>().prop_map(|x| x.to_string()),
            2 => any::<u16>().prop_map(|x| x.to_string()),
            2 => ((any::<bool>(), 0u8..4), 0u8..4).prop_map(|(c, s)| collection_json(&c, s)),
            2 => ((0u8..3, prop_oneof![any::<u64>(), edge()], prop_oneof![any::<u64>(), edge()]), 0u8..4).prop_map(|(c, s)| uses_json(&c, s)),
            1 => prop::sample::select([&BAD_CREATORS[..], &BAD_FEE[..], &BAD_COLLECTION[..], &BAD_USES[..]].concat()).prop_map(String::from),
            1 => "[ -~]{0,30}",
            1 => (1usize..120).prop_map(|n| "[".repeat(n)),
            1 => (1usize..200).prop_map(|n| format!("{}{}", "[".repeat(n), "]".repeat(n))),
        ];
        prop_oneof![
            4 => meta(0, 60, 0).prop_map(ConvCase::Record),
            3 => (meta(0, 40, 0), vec((any::<u16>(), any::<u8>()), 0..4), prop::option::weighted(0.3, any::<u16>()), 0u8..3).prop_map(|(meta, flips, cut, tail)| ConvCase::Broken { meta, flips, cut, tail }),
            1 => vec(any::<u8>(), 0..300).prop_map(ConvCase::Bytes),
            5 => (meta(1, 60, 8), any::<bool>()).prop_map(|(meta, authority)| ConvCase::Fields { meta, authority }),
            2 => (meta(0, 20, 3), meta(0, 20, 3)).prop_map(|(a, b)| ConvCase::Twice(a, b)),
            3 => vec((special, value), 0..6).prop_map(ConvCase::Raw),
        ]
        .boxed()
    }
    fn run(&self, _: &mut [Vm], c: &ConvCase, st: &mut Stats) -> Result<(), Violation> {
        let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.judge(c, st)));
        match caught {
            Ok(r) => r,
            Err(_) => viol("panic", format!("the conversion panics on {c:?}")),
        }
    }
}
impl C13 {
    fn judge(&self, c: &ConvCase, st: &mut Stats) -> Result<(), Violation> {
        match c {
            ConvCase::Record(m) => {
                st.hit("record");
                let s = &m.special;
                st.nontrivial = s.creators.is_some() || s.collection.is_some() || s.uses.is_some() || m.extra.details.is_some() || m.extra.config.is_some() || m.extra.standard.is_some();
                let d = m.mpx_bytes(&mint());
                let got = match convert(&d) {
                    Ok(g) => g,
                    Err(e) => return viol("refused", format!("a well-formed record is refused: {e:?}")),
                };
                check_record(m, &got)?;
                // and back
                let back = match token_2022_metadata_to_metaplex(&got) {
                    Ok(b) => b,
                    Err(e) => return viol("back-refused", format!("the converted record does not convert back: {e:?}")),
                };
                let mut want = unverified(m.data_v2(true));
                let mut b2 = back.clone();
                for d in [&mut want, &mut b2] {
                    for s in [&mut d.name, &mut d.symbol, &mut d.uri] {
                        *s = unpad(s).to_string();
                    }
                }
                if json(&want) != json(&b2) {
                    return viol("round-trip", format!("there and back gives {}, expected {}", json(&b2), json(&want)));
                }
            }
            ConvCase::Broken { meta, flips, cut, tail } => {
                let mut d = meta.mpx_bytes(&mint());
                let n = d.len();
                for (i, b) in flips {
                    d[*i as usize % n] = *b;
                }
                if let Some(c) = cut {
                    d.truncate(*c as usize % n);
                }
                d.extend(std::iter::repeat_n(0xff, *tail as usize * 7));
                return self.bytes(&d, st);
            }
            ConvCase::Bytes(d) => return self.bytes(d, st),
            ConvCase::Fields { meta: m, authority } => {
                let fields = m.t22_fields();
                let auth = authority.then(|| key("t22-authority", 0));
                let tm = TokenMetadata {
                    update_authority: MaybeNull::from(auth.unwrap_or_default()),
                    mint: mint(),
                    name: m.name.clone(),
                    symbol: m.symbol.clone(),
                    uri: m.uri.clone(),
                    additional_metadata: fields.clone(),
                };
                let got = token_2022_metadata_to_metaplex(&tm);
                let bad = m.special.malformed();
                st.hit(if bad { "fields, malformed" } else { "fields" });
                st.nontrivial = bad || !fields.is_empty();
                match got {
                    Err(e) if bad => {
                        if matches!(e, ProgramError::Custom(_)) {
                            st.hit("malformed refused with a custom code");
                        }
                    }
                    Err(e) => return viol("fields-refused", format!("well-formed fields {fields:?} are refused: {e:?}")),
                    Ok(d) if bad => return viol("malformed-accepted", format!("{fields:?} gives {}", json(&d))),
                    Ok(d) => {
                        let want = unverified(m.data_v2(false));
                        if json(&d) != json(&want) {
                            return viol("fields", format!("{fields:?} gives {}, expected {}", json(&d), json(&want)));
                        }
                    }
                }
            }
            ConvCase::Twice(a, b) => {
                let fields: Vec<_> = a.t22_fields().into_iter().chain(b.t22_fields()).collect();
                let both = a.special.render().iter().any(|(k, _)| b.special.render().iter().any(|(j, _)| j == k));
                st.hit(if both { "a special field twice" } else { "fields of two" });
                st.nontrivial = both;
                let tm = TokenMetadata { update_authority: MaybeNull::from(Pubkey::default()), mint: mint(), name: b.name.clone(), symbol: b.symbol.clone(), uri: b.uri.clone(), additional_metadata: fields.clone() };
                let mut m = b.clone();
                let (x, y) = (&mut m.special, &a.special);
                x.creators = x.creators.take().or(y.creators.clone());
                x.fee = x.fee.take().or(y.fee.clone());
                x.collection = x.collection.take().or(y.collection.clone());
                x.uses = x.uses.take().or(y.uses.clone());
                let want = unverified(m.data_v2(false));
                match token_2022_metadata_to_metaplex(&tm) {
                    Err(e) => return viol("fields-refused", format!("well-formed fields {fields:?} are refused: {e:?}")),
                    Ok(d) if json(&d) != json(&want) => return viol("twice", format!("{fields:?} gives {}, expected {}", json(&d), json(&want))),
                    Ok(_) => {}
                }
            }
            ConvCase::Raw(fields) => {
                st.hit("raw fields");
                st.nontrivial = !fields.is_empty();
                let tm = TokenMetadata { update_authority: MaybeNull::from(Pubkey::default()), mint: mint(), name: "n".into(), symbol: "s".into(), uri: "u".into(), additional_metadata: fields.clone() };
                if let Ok(d) = token_2022_metadata_to_metaplex(&tm) {
                    let last: Vec<_> = (0..fields.len()).filter(|i| !fields[i + 1..].iter().any(|(k, _)| *k == fields[*i].0)).map(|i| fields[i].clone()).collect();
                    match token_2022_metadata_to_metaplex(&TokenMetadata { additional_metadata: last, ..tm.clone() }) {
                        Ok(x) if json(&x) == json(&d) => {}
                        x => return viol("not-the-last", format!("{fields:?} gives {}, its last values alone {:?}", json(&d), x.map(|x| json(&x)))),
                    }
                    let vals = |k: &str| fields.iter().filter(move |(j, _)| j == k).map(|(_, v)| v.clone()).collect::<Vec<_>>();
                    if (&d.name, &d.symbol, &d.uri) != (&tm.name, &tm.symbol, &tm.uri) {
                        return viol("strings", format!("{fields:?} gives {}", json(&d)));
                    }
                    let fees = vals("seller_fee_basis_points");
                    let fee_ok = if fees.is_empty() { d.seller_fee_basis_points == 0 } else { fees.iter().any(|f| f.trim_start_matches('+').parse::<u16>() == Ok(d.seller_fee_basis_points)) };
                    if !fee_ok {
                        return viol("fee", format!("{fees:?} gives {}", d.seller_fee_basis_points));
                    }
                    for (k, set) in [("creators", d.creators.is_some()), ("collection", d.collection.is_some()), ("uses", d.uses.is_some())] {
                        if set != !vals(k).is_empty() && !vals(k).iter().any(|v| v.trim() == "null") {
                            return viol("presence", format!("{k}: {:?} gives {}", vals(k), json(&d)));
                        }
                    }
                    if d.creators.iter().flatten().any(|c| c.verified) || d.collection.iter().any(|c| c.verified) {
                        return viol("verified", format!("{fields:?} gives {}", json(&d)));
                    }
                }
            }
        }
        Ok(())
    }
    /// Arbitrary bytes: no panic; what is taken is what a second reader reads.
    fn bytes(&self, d: &[u8], st: &mut Stats) -> Result<(), Violation> {
        st.nontrivial = true;
        match convert(d) {
            Err(_) => st.hit("bytes refused"),
            Ok(g) => {
                st.hit("bytes taken");
                let Some(r) = prefix(d) else {
                    return viol("taken", format!("bytes that are no record are taken: {d:?}"));
                };
                let a = Option::<Pubkey>::from(g.update_authority.clone()).unwrap_or_default();
                if a != r.authority || unpad(&g.name) != r.name || unpad(&g.symbol) != r.symbol || unpad(&g.uri) != r.uri {
                    return viol("strings", format!("bytes read as {r:?} become {g:?}"));
                }
                let field = |k: &str| g.additional_metadata.iter().find(|(j, _)| j == k).map(|(_, v)| v.clone());
                if field("seller_fee_basis_points") != Some(r.fee.to_string()) || field("primary_sale_happened") != Some(r.primary.to_string()) || field("is_mutable") != Some(r.mutable.to_string()) {
                    return viol("field", format!("bytes read as {r:?} become {g:?}"));
                }
                if field("creators").is_some() != r.creators.as_ref().is_some_and(|c| !c.is_empty()) {
                    return viol("field", format!("bytes read as {r:?} become {g:?}"));
                }
            }
        }
        Ok(())
    }
}
