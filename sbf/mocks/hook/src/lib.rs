//! Transfer hook that records what it sees. Accounts: source, mint, destination,
//! authority, validation state, then the extra accounts; the first extra account
//! is the record (writable, owned by this program):
//!   [0..8]  number of invocations      [8..16]  sum of amounts
//!   [16]    1: refuse                  [17]     extra accounts seen in the last call
//!   [18]    1: an account was a signer or (other than the record) writable
//!   [19..51] authority of the last call
use {
    solana_account_info::AccountInfo,
    solana_program_error::{ProgramError, ProgramResult},
    solana_pubkey::Pubkey,
};

solana_program_entrypoint::entrypoint!(process_instruction);

fn process_instruction(_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    // ExecuteInstruction: sha256("spl-transfer-hook-interface:execute")[..8], amount
    if data.len() != 16 || data[..8] != [105, 37, 101, 197, 75, 251, 102, 26] {
        return Err(ProgramError::Custom(8001));
    }
    let amount = u64::from_le_bytes(data[8..16].try_into().unwrap());
    let record = accounts.get(5).ok_or(ProgramError::NotEnoughAccountKeys)?;
    let mut privileged = 0u8;
    for (i, a) in accounts.iter().enumerate() {
        if a.is_signer || (a.is_writable && i != 5) {
            privileged = 1;
        }
    }
    let mut d = record.try_borrow_mut_data()?;
    if d[16] == 1 {
        return Err(ProgramError::Custom(8002));
    }
    let n = u64::from_le_bytes(d[0..8].try_into().unwrap()) + 1;
    d[0..8].copy_from_slice(&n.to_le_bytes());
    let s = u64::from_le_bytes(d[8..16].try_into().unwrap()).wrapping_add(amount);
    d[8..16].copy_from_slice(&s.to_le_bytes());
    d[17] = (accounts.len() - 5) as u8;
    d[18] |= privileged;
    d[19..51].copy_from_slice(accounts[3].key.as_ref());
    Ok(())
}
