//! Scripted third-party metadata program. The account it is asked about says
//! what it does: byte 0 is the mode, the rest is the payload.
//!   0 return the payload        1 return nothing
//!   2 fail                      3 return the payload, then return nothing more (set twice)
//! It only answers the `Emit` discriminator (sha256("spl_token_metadata_interface:emitter")[..8]).
use {
    solana_account_info::AccountInfo,
    solana_cpi::set_return_data,
    solana_program_error::{ProgramError, ProgramResult},
    solana_pubkey::Pubkey,
};

solana_program_entrypoint::entrypoint!(process_instruction);

fn process_instruction(_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    // [250,166,180,250,13,12,184,70] is checked by the harness against the interface crate.
    if data.len() < 8 || data[..8] != [250, 166, 180, 250, 13, 12, 184, 70] {
        return Err(ProgramError::Custom(7001));
    }
    let a = accounts.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
    if a.is_writable || a.is_signer || accounts.len() != 1 {
        return Err(ProgramError::Custom(7002)); // privileges that were never given
    }
    let d = a.try_borrow_data()?;
    match d.first() {
        Some(0) => set_return_data(&d[1..]),
        Some(1) => {}
        Some(3) => {
            set_return_data(&[1, 2, 3]);
            set_return_data(&d[1..]);
        }
        _ => return Err(ProgramError::Custom(7003)),
    }
    Ok(())
}
