//! Metadata values, the three places they live in, and what each must turn into.
//! Records are written and read byte by byte, without the program's libraries.
use {
    crate::{engine::*, tok, vm::*, world::*},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    serde_json::Value,
    solana_instruction::Instruction,
    solana_pubkey::Pubkey,
    std::collections::BTreeMap,
};

/// A special field: a value, or text that is not one.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fld<T> {
    Good(T, u8),
    Bad(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Special {
    pub creators: Option<Fld<Vec<(u8, bool, u8)>>>,
    pub fee: Option<Fld<u16>>,
    pub collection: Option<Fld<(bool, u8)>>,
    pub uses: Option<Fld<(u8, u64, u64)>>,
}
/// What only a Metaplex record holds.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Extra {
    pub primary: bool,
    pub mutable: bool,
    pub nonce: Option<u8>,
    pub standard: Option<u8>,
    pub details: Option<(bool, u64)>,
    pub config: Option<Option<u8>>,
    pub authority: u8,
    /// 0: no padding, 1: real on-chain padding of strings and account, 2: account only
    pub pad: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub fields: Vec<(String, String)>,
    pub special: Special,
    pub extra: Extra,
    /// keys an external program names more than once: which field, where again, with what
    #[serde(default)]
    pub again: Vec<(u8, u8, String)>,
}

pub fn creator_key(i: u8) -> Pubkey {
    key("creator", i as u64)
}
pub fn collection_key(i: u8) -> Pubkey {
    key("collection", i as u64)
}
const USE: [&str; 3] = ["Burn", "Multiple", "Single"];
const STANDARD: [&str; 6] = ["NonFungible", "FungibleAsset", "Fungible", "NonFungibleEdition", "ProgrammableNonFungible", "ProgrammableNonFungibleEdition"];
pub const BAD_CREATORS: [&str; 9] = [
    "", "[", "[{}]", "{\"address\":\"11111111111111111111111111111111\",\"verified\":false,\"share\":100}",
    "[{\"address\":\"11111111111111111111111111111111\",\"verified\":false,\"share\":256}]",
    "[{\"address\":\"11111111111111111111111111111111\",\"verified\":false,\"share\":-1}]",
    "[{\"address\":\"0OIl\",\"verified\":false,\"share\":100}]",
    "[{\"address\":\"11111111111111111111111111111111\",\"verified\":\"yes\",\"share\":100}]", "[1]",
];
pub const BAD_FEE: [&str; 9] = ["", "-1", "65536", "1.5", "abc", " 5", "0x10", "5 ", "1e3"];
pub const BAD_COLLECTION: [&str; 6] = ["", "{}", "{\"verified\":false,\"key\":\"nope\"}", "{\"verified\":1,\"key\":\"11111111111111111111111111111111\"}", "nope", "{\"key\":\"11111111111111111111111111111111\"}"];
pub const BAD_USES: [&str; 6] = ["", "{}", "{\"use_method\":\"Nope\",\"remaining\":1,\"total\":1}", "{\"use_method\":\"Burn\",\"remaining\":-1,\"total\":1}", "{\"use_method\":\"Burn\",\"remaining\":1,\"total\":18446744073709551616}", "{\"use_method\":\"Burn\",\"total\":1}"];

fn obj(parts: &[(&str, String)], style: u8) -> String {
    let mut p: Vec<_> = parts.to_vec();
    if style & 1 == 1 {
        p.reverse();
    }
    let (a, b) = if style & 2 == 2 { (" ", "\n ") } else { ("", "") };
    let body: Vec<String> = p.iter().map(|(k, v)| format!("{b}\"{k}\":{a}{v}")).collect();
    format!("{{{}{a}}}", body.join(","))
}
fn q(k: &Pubkey) -> String {
    format!("\"{k}\"")
}
pub fn creators_json(v: &[(u8, bool, u8)], style: u8) -> String {
    let items: Vec<String> = v
        .iter()
        .map(|(i, ver, share)| obj(&[("address", q(&creator_key(*i))), ("verified", ver.to_string()), ("share", share.to_string())], style))
        .collect();
    let s = if style & 2 == 2 { " " } else { "" };
    format!("[{s}{}{s}]", items.join(","))
}
pub fn collection_json(c: &(bool, u8), style: u8) -> String {
    obj(&[("verified", c.0.to_string()), ("key", q(&collection_key(c.1)))], style)
}
pub fn uses_json(u: &(u8, u64, u64), style: u8) -> String {
    obj(&[("use_method", format!("\"{}\"", USE[u.0 as usize % 3])), ("remaining", u.1.to_string()), ("total", u.2.to_string())], style)
}

impl Special {
    pub fn malformed(&self) -> bool {
        fn b<T>(x: &Option<Fld<T>>) -> bool {
            matches!(x, Some(Fld::Bad(_)))
        }
        b(&self.creators) || b(&self.fee) || b(&self.collection) || b(&self.uses)
    }
    /// As Token-2022 additional fields.
    pub fn render(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        let bad = |t: &[&str], i: u8| t[i as usize % t.len()].to_string();
        if let Some(x) = &self.creators {
            v.push(("creators".into(), match x { Fld::Good(c, s) => creators_json(c, *s), Fld::Bad(i) => bad(&BAD_CREATORS, *i) }));
        }
        if let Some(x) = &self.fee {
            v.push(("seller_fee_basis_points".into(), match x { Fld::Good(c, _) => c.to_string(), Fld::Bad(i) => bad(&BAD_FEE, *i) }));
        }
        if let Some(x) = &self.collection {
            v.push(("collection".into(), match x { Fld::Good(c, s) => collection_json(c, *s), Fld::Bad(i) => bad(&BAD_COLLECTION, *i) }));
        }
        if let Some(x) = &self.uses {
            v.push(("uses".into(), match x { Fld::Good(c, s) => uses_json(c, *s), Fld::Bad(i) => bad(&BAD_USES, *i) }));
        }
        v
    }
}
fn good<T: Clone>(x: &Option<Fld<T>>) -> Option<T> {
    match x {
        Some(Fld::Good(v, _)) => Some(v.clone()),
        _ => None,
    }
}

impl Meta {
    /// Additional fields in Token-2022 form, unique keys; style bits of the
    /// special fields decide where they go.
    pub fn t22_fields(&self) -> Vec<(String, String)> {
        let mut v: Vec<(String, String)> = vec![];
        for (k, x) in self.special.render().into_iter().chain(self.fields.iter().cloned()) {
            if !v.iter().any(|(j, _)| *j == k) {
                let at = if v.is_empty() { 0 } else { (k.len() + x.len()) % (v.len() + 1) };
                v.insert(at, (k, x));
            }
        }
        v
    }
    /// As an external program tells them: some keys more than once.
    pub fn ext_fields(&self) -> Vec<(String, String)> {
        let mut v = self.t22_fields();
        let n = v.len();
        for (i, at, x) in &self.again {
            if n > 0 {
                let k = v[*i as usize % n].0.clone();
                if !["creators", "seller_fee_basis_points", "collection", "uses"].contains(&k.as_str()) {
                    v.insert(*at as usize % (v.len() + 1), (k, x.clone()));
                }
            }
        }
        v
    }
    pub fn repeats(&self) -> bool {
        self.ext_fields().len() > self.t22_fields().len()
    }
    pub fn t22_bytes(&self, auth: &Pubkey, mint: &Pubkey) -> Vec<u8> {
        let mut d = auth.to_bytes().to_vec();
        d.extend_from_slice(mint.as_ref());
        for s in [&self.name, &self.symbol, &self.uri] {
            put_str(&mut d, s);
        }
        let f = self.ext_fields();
        d.extend_from_slice(&(f.len() as u32).to_le_bytes());
        for (k, v) in f {
            put_str(&mut d, &k);
            put_str(&mut d, &v);
        }
        d
    }
    /// Name, symbol and URI as the record holds them.
    pub fn strings(&self) -> [String; 3] {
        let pad = |s: &str, n: usize| if self.extra.pad == 1 { format!("{s}{}", "\0".repeat(n.saturating_sub(s.len()))) } else { s.to_string() };
        [pad(&self.name, 32), pad(&self.symbol, 10), pad(&self.uri, 200)]
    }
    /// A Metaplex record of `mint`. Malformed special fields do not exist there.
    pub fn mpx_bytes(&self, mint: &Pubkey) -> Vec<u8> {
        let mut d = vec![4u8];
        d.extend_from_slice(key("mpx-authority", self.extra.authority as u64).as_ref());
        d.extend_from_slice(mint.as_ref());
        for s in self.strings() {
            put_str(&mut d, &s);
        }
        d.extend_from_slice(&good(&self.special.fee).unwrap_or(0).to_le_bytes());
        match good(&self.special.creators) {
            None => d.push(0),
            Some(c) => {
                d.push(1);
                d.extend_from_slice(&(c.len() as u32).to_le_bytes());
                for (i, v, s) in c {
                    d.extend_from_slice(creator_key(i).as_ref());
                    d.push(v as u8);
                    d.push(s);
                }
            }
        }
        d.push(self.extra.primary as u8);
        d.push(self.extra.mutable as u8);
        opt(&mut d, self.extra.nonce.map(|n| vec![n]));
        opt(&mut d, self.extra.standard.map(|n| vec![n % 6]));
        opt(&mut d, good(&self.special.collection).map(|(v, k)| {
            let mut x = vec![v as u8];
            x.extend_from_slice(collection_key(k).as_ref());
            x
        }));
        opt(&mut d, good(&self.special.uses).map(|(m, r, t)| {
            let mut x = vec![m % 3];
            x.extend_from_slice(&r.to_le_bytes());
            x.extend_from_slice(&t.to_le_bytes());
            x
        }));
        opt(&mut d, self.extra.details.map(|(v1, n)| {
            let mut x = vec![!v1 as u8];
            x.extend_from_slice(&n.to_le_bytes());
            x
        }));
        opt(&mut d, self.extra.config.map(|r| {
            let mut x = vec![0];
            opt(&mut x, r.map(|k| key("rule-set", k as u64).to_bytes().to_vec()));
            x
        }));
        if self.extra.pad > 0 {
            d.resize(d.len().max(607), 0);
        }
        d
    }
    /// The additional fields a Metaplex record must appear as.
    pub fn mpx_fields(&self) -> BTreeMap<String, Want> {
        let mut m = BTreeMap::new();
        let s = &self.special;
        let e = &self.extra;
        m.insert("key".into(), Want::Json(vec![Value::from("MetadataV1")]));
        m.insert("seller_fee_basis_points".into(), Want::Text(good(&s.fee).unwrap_or(0).to_string()));
        m.insert("primary_sale_happened".into(), Want::Text(e.primary.to_string()));
        m.insert("is_mutable".into(), Want::Text(e.mutable.to_string()));
        let js = |t: String| Want::Json(vec![serde_json::from_str(&t).unwrap()]);
        if let Some(c) = good(&s.creators) {
            if !c.is_empty() {
                let u: Vec<_> = c.iter().map(|x| (x.0, false, x.2)).collect();
                m.insert("creators".into(), js(creators_json(&u, 0)));
            }
        }
        if let Some(n) = e.nonce {
            m.insert("edition_nonce".into(), Want::Text(n.to_string()));
        }
        if let Some(n) = e.standard {
            m.insert("token_standard".into(), Want::Json(vec![Value::from(STANDARD[n as usize % 6])]));
        }
        if let Some(c) = good(&s.collection) {
            m.insert("collection".into(), js(collection_json(&c, 0)));
        }
        if let Some(u) = good(&s.uses) {
            m.insert("uses".into(), js(uses_json(&u, 0)));
        }
        if let Some((v1, n)) = e.details {
            let v = if v1 {
                serde_json::json!({"V1": {"size": n}})
            } else {
                serde_json::json!({"V2": {"padding": n.to_le_bytes()}})
            };
            m.insert("collection_details".into(), Want::Json(vec![v]));
        }
        if let Some(c) = e.config {
            let vs = match c {
                None => vec![serde_json::json!({"V1": {"rule_set": null}})],
                Some(k) => {
                    let k = key("rule-set", k as u64);
                    // a public key is written as base-58 text or as bytes
                    vec![serde_json::json!({"V1": {"rule_set": k.to_string()}}), serde_json::json!({"V1": {"rule_set": k.to_bytes()}})]
                }
            };
            m.insert("programmable_config".into(), Want::Json(vs));
        }
        m
    }
    pub fn data_v2(&self, from_mpx: bool) -> mpl_token_metadata::types::DataV2 {
        use mpl_token_metadata::types as t;
        let s = &self.special;
        t::DataV2 {
            name: self.name.clone(),
            symbol: self.symbol.clone(),
            uri: self.uri.clone(),
            seller_fee_basis_points: good(&s.fee).unwrap_or(0),
            creators: good(&s.creators)
                .filter(|c| !(from_mpx && c.is_empty()))
                .map(|c| c.into_iter().map(|(i, _, share)| t::Creator { address: mp(creator_key(i)), verified: false, share }).collect()),
            collection: good(&s.collection).map(|(verified, k)| t::Collection { verified, key: mp(collection_key(k)) }),
            uses: good(&s.uses).map(|(m, remaining, total)| t::Uses {
                use_method: [t::UseMethod::Burn, t::UseMethod::Multiple, t::UseMethod::Single][m as usize % 3].clone(),
                remaining,
                total,
            }),
        }
    }
}
pub fn mp(k: Pubkey) -> solana_pubkey::Pubkey {
    k
}
fn put_str(d: &mut Vec<u8>, s: &str) {
    d.extend_from_slice(&(s.len() as u32).to_le_bytes());
    d.extend_from_slice(s.as_bytes());
}
fn opt(d: &mut Vec<u8>, v: Option<Vec<u8>>) {
    match v {
        None => d.push(0),
        Some(x) => {
            d.push(1);
            d.extend(x);
        }
    }
}

/// An additional field's expected value.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Text(String),
    Json(Vec<Value>),
}
impl Want {
    pub fn fits(&self, s: &str) -> bool {
        match self {
            Want::Text(t) => t == s,
            Want::Json(vs) => serde_json::from_str::<Value>(s).map(|v| vs.contains(&v)).unwrap_or(false),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct T22Meta {
    pub authority: Pubkey,
    pub mint: Pubkey,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub fields: Vec<(String, String)>,
}
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn n(&mut self, n: usize) -> Option<Vec<u8>> {
        (self.0.len() >= n).then(|| {
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            a.to_vec()
        })
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.n(1)?[0])
    }
    fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.n(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.n(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.n(8)?.try_into().unwrap()))
    }
    fn key(&mut self) -> Option<Pubkey> {
        Some(tok::keyat(&self.n(32)?, 0))
    }
    fn str(&mut self) -> Option<String> {
        let n = self.u32()? as usize;
        String::from_utf8(self.n(n)?).ok()
    }
}
pub fn read_t22_meta(b: &[u8]) -> Option<T22Meta> {
    let mut r = Rd(b);
    let (authority, mint, name, symbol, uri) = (r.key()?, r.key()?, r.str()?, r.str()?, r.str()?);
    let n = r.u32()?;
    let mut fields = vec![];
    for _ in 0..n {
        fields.push((r.str()?, r.str()?));
    }
    r.0.is_empty().then_some(T22Meta { authority, mint, name, symbol, uri, fields })
}
#[derive(Clone, Debug, PartialEq)]
pub struct MpxMeta {
    pub authority: Pubkey,
    pub mint: Pubkey,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub fee: u16,
    pub creators: Option<Vec<(Pubkey, bool, u8)>>,
    pub primary: bool,
    pub mutable: bool,
    pub collection: Option<(bool, Pubkey)>,
    pub uses: Option<(u8, u64, u64)>,
}
pub fn read_mpx(b: &[u8]) -> Option<MpxMeta> {
    let mut r = Rd(b);
    if r.u8()? != 4 {
        return None;
    }
    let (authority, mint) = (r.key()?, r.key()?);
    let mut s = || -> Option<String> { Some(r.str()?.trim_end_matches('\0').to_string()) };
    let (name, symbol, uri) = (s()?, s()?, s()?);
    let fee = r.u16()?;
    let creators = if r.u8()? == 1 {
        let n = r.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push((r.key()?, r.u8()? != 0, r.u8()?));
        }
        Some(v)
    } else {
        None
    };
    let (primary, mutable) = (r.u8()? != 0, r.u8()? != 0);
    if r.u8()? == 1 {
        r.u8()?;
    }
    if r.u8()? == 1 {
        r.u8()?;
    }
    let collection = if r.u8()? == 1 { Some((r.u8()? != 0, r.key()?)) } else { None };
    let uses = if r.u8()? == 1 { Some((r.u8()?, r.u64()?, r.u64()?)) } else { None };
    Some(MpxMeta { authority, mint, name, symbol, uri, fee, creators, primary, mutable, collection, uses })
}

// ---- generators ----
fn text(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        6 => proptest::string::string_regex(&format!("[ -~]{{0,{max}}}")).unwrap(),
        1 => Just(String::new()),
        2 => vec(any::<char>(), 0..(max / 4).max(2)).prop_map(|v| v.into_iter().collect()),
        1 => proptest::string::string_regex(&format!("[a-c\0]{{0,{}}}", max.min(12))).unwrap(),
    ]
    .boxed()
}
fn field_key() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (0u8..8).prop_map(|i| format!("k{i}")),
        1 => prop::sample::select(vec!["name", "symbol", "uri", "key", "is_mutable", "token_standard", "programmable_config", "Creators", "", "fee"]).prop_map(String::from),
        2 => text(24),
    ]
    .boxed()
}
fn fld<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>, p: f64, bad: u32) -> BoxedStrategy<Option<Fld<T>>> {
    let f: BoxedStrategy<Fld<T>> =
        if bad == 0 { (s, 0u8..4).prop_map(|(v, st)| Fld::Good(v, st)).boxed() } else { prop_oneof![12 => (s, 0u8..4).prop_map(|(v, st)| Fld::Good(v, st)), bad => (0u8..9).prop_map(Fld::Bad)].boxed() };
    prop::option::weighted(p, f).boxed()
}
pub fn edge() -> BoxedStrategy<u64> {
    prop_oneof![Just(0u64), Just(1), Just(2), Just(255), Just(256), Just(u32::MAX as u64), Just(i64::MAX as u64), Just(i64::MAX as u64 + 1), Just(u64::MAX - 1), Just(u64::MAX)].boxed()
}
/// Creator lists: mostly ones Metaplex accepts (shares sum to 100, no duplicates, at most five).
pub fn creators() -> BoxedStrategy<Vec<(u8, bool, u8)>> {
    let ok = (1usize..=5, vec((any::<bool>(), 0u8..101), 5)).prop_map(|(n, v)| {
        let mut left = 100u8;
        (0..n)
            .map(|i| {
                let s = if i + 1 == n { left } else { v[i].1.min(left) };
                left -= s;
                (i as u8, v[i].0, s)
            })
            .collect::<Vec<_>>()
    });
    // the same creator twice, side by side or not, with the shares still adding up or not
    let twice = (ok.clone(), any::<u8>(), any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(mut v, i, j, split, same)| {
        if !v.is_empty() {
            let i = i as usize * v.len() / 256;
            let mut c = v[i];
            if split {
                let s = c.2;
                v[i].2 = s / 2;
                c.2 = s - s / 2;
            } else if !same {
                c.2 = 0;
            }
            let j = if same { i + 1 } else { j as usize * (v.len() + 1) / 256 };
            v.insert(j, c);
        }
        v
    });
    prop_oneof![8 => ok, 1 => twice, 1 => vec((0u8..6, any::<bool>(), any::<u8>()), 0..7), 1 => Just(vec![])].boxed()
}
pub fn meta(bad: u32, max: usize, nfields: usize) -> BoxedStrategy<Meta> {
    let n = any::<u64>().boxed();
    let special = (
        fld(creators(), 0.5, bad),
        fld(prop_oneof![4 => 0u16..=10_000, 1 => any::<u16>()].boxed(), 0.5, bad),
        fld((prop::bool::weighted(0.25), 0u8..4).boxed(), 0.35, bad),
        fld(prop_oneof![1 => (0u8..3, n.clone(), n.clone()), 1 => (0u8..3, edge(), edge()), 1 => (0u8..3, 0u64..3, 0u64..4), 3 => (0u8..3, 1u64..50).prop_map(|(m, x)| if m == 2 { (m, 1, 1) } else { (m, x, x) })].boxed(), 0.35, bad),
    )
        .prop_map(|(creators, fee, collection, uses)| Special { creators, fee, collection, uses });
    let extra = (
        any::<bool>(), any::<bool>(), prop::option::of(any::<u8>()), prop::option::of(0u8..6), prop::option::of((any::<bool>(), any::<u64>())),
        prop::option::of(prop::option::of(any::<u8>())), 0u8..4, 0u8..3,
    )
        .prop_map(|(primary, mutable, nonce, standard, details, config, authority, pad)| Extra { primary, mutable, nonce, standard, details, config, authority, pad });
    let short = prop_oneof![5 => text(10), 1 => text(max)];
    (prop_oneof![6 => text(28), 1 => text(max)], short, prop_oneof![6 => text(60), 1 => text(max)], vec((field_key(), text(max)), 0..nfields.max(1)), special, extra, prop_oneof![3 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>(), text(20)), 1..3)])
        .prop_map(|(name, symbol, uri, fields, special, extra, again)| Meta { name, symbol, uri, fields, special, extra, again })
        .boxed()
}

// ---- editing a Token-2022 mint's own metadata through Token-2022 ----
pub fn ix_field(mint: Pubkey, f: spl_token_metadata_interface::state::Field, v: &str) -> Instruction {
    spl_token_metadata_interface::instruction::update_field(&T22, &mint, &admin_key(), f, v.to_string())
}
/// Makes `mint`'s own metadata equal `m` (created if there is none).
pub fn set_self_meta(w: &mut World, vm: &mut Vm, mint: Pubkey, m: &Meta) {
    use spl_token_metadata_interface::state::Field;
    w.set_lamports(mint, 50_000_000_000);
    let cur = tok::ext(w.data(&mint), 19).and_then(|b| read_t22_meta(&b));
    let want = m.t22_fields();
    let mut ixs = vec![];
    let have = match cur {
        None => {
            ixs.push(ix_meta_init(mint, admin_key(), mint_authority_key(), &m.name, &m.symbol, &m.uri));
            vec![]
        }
        Some(c) => {
            for (f, a, b) in [(Field::Name, &c.name, &m.name), (Field::Symbol, &c.symbol, &m.symbol), (Field::Uri, &c.uri, &m.uri)] {
                if a != b {
                    ixs.push(ix_field(mint, f, b));
                }
            }
            for (k, _) in &c.fields {
                if !want.iter().any(|(j, _)| j == k) {
                    ixs.push(spl_token_metadata_interface::instruction::remove_key(&T22, &mint, &admin_key(), k.clone(), false));
                }
            }
            c.fields
        }
    };
    for (k, v) in &want {
        if !have.iter().any(|(j, x)| j == k && x == v) {
            ixs.push(ix_field(mint, Field::Key(k.clone()), v));
        }
    }
    for ix in ixs {
        w.must(vm, &ix);
    }
    let got = tok::ext(w.data(&mint), 19).and_then(|b| read_t22_meta(&b));
    if !got.map(|g| g.name == m.name && g.fields.len() == want.len() && want.iter().all(|x| g.fields.contains(x))).unwrap_or(false) {
        abort("Token-2022 does not hold the metadata it was given".into());
    }
}
