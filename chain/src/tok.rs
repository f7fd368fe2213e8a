//! Token account and mint bytes, read without the program's own libraries.
use solana_pubkey::Pubkey;

pub fn u64at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn keyat(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}
pub fn copt_key(d: &[u8], o: usize) -> Option<Pubkey> {
    (u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) == 1).then(|| keyat(d, o + 4))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub state: u8,
    pub delegated: u64,
    pub close_auth: Option<Pubkey>,
}
pub fn acct(d: &[u8]) -> Option<Acct> {
    if d.len() < 165 || d[108] == 0 || (d.len() > 165 && d[165] != 2) || d.len() == 355 {
        return None;
    }
    Some(Acct {
        mint: keyat(d, 0),
        owner: keyat(d, 32),
        amount: u64at(d, 64),
        delegate: copt_key(d, 72),
        state: d[108],
        delegated: u64at(d, 121),
        close_auth: copt_key(d, 129),
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct MintState {
    pub authority: Option<Pubkey>,
    pub supply: u64,
    pub decimals: u8,
    pub freeze: Option<Pubkey>,
}
pub fn mint(d: &[u8]) -> Option<MintState> {
    if !(d.len() == 82 || (d.len() > 165 && d[165] == 1)) || d[45] != 1 {
        return None;
    }
    Some(MintState { authority: copt_key(d, 0), supply: u64at(d, 36), decimals: d[44], freeze: copt_key(d, 46) })
}

/// TLV entries after the account type byte: (type, value)
pub fn tlv(d: &[u8]) -> Vec<(u16, Vec<u8>)> {
    let mut v = vec![];
    let mut o = 166;
    while o + 4 <= d.len() {
        let t = u16::from_le_bytes([d[o], d[o + 1]]);
        let l = u16::from_le_bytes([d[o + 2], d[o + 3]]) as usize;
        if t == 0 {
            break;
        }
        if o + 4 + l > d.len() {
            break;
        }
        v.push((t, d[o + 4..o + 4 + l].to_vec()));
        o += 4 + l;
    }
    v
}
pub fn ext(d: &[u8], t: u16) -> Option<Vec<u8>> {
    tlv(d).into_iter().find(|e| e.0 == t).map(|e| e.1)
}
pub fn cpi_guard(d: &[u8]) -> bool {
    d.len() > 166 && ext(d, 11).map(|v| v[0] == 1).unwrap_or(false)
}
pub fn permanent_delegate(d: &[u8]) -> Option<Pubkey> {
    if d.len() < 166 {
        return None;
    }
    ext(d, 12).map(|v| keyat(&v, 0))
}
