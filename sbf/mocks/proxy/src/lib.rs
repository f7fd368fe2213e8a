//! Carries out a list of instructions by calling the programs they are for, signing for its
//! own user address where an instruction asks for that.
//! Data: bumps of the user and the authority address, number of instructions, then per instruction: position of
//! the program among the accounts, number of accounts, (position, 1 signer | 2 writable) each,
//! length of the data (two bytes), the data.
use {
    solana_account_info::AccountInfo,
    solana_cpi::invoke_signed_unchecked,
    solana_instruction::{AccountMeta, Instruction},
    solana_program_error::{ProgramError, ProgramResult},
    solana_pubkey::Pubkey,
};

solana_program_entrypoint::entrypoint!(process_instruction);

fn process_instruction(_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let mut at = 0;
    let mut take = |n: usize| {
        let s = data.get(at..at + n).ok_or(ProgramError::Custom(9001));
        at += n;
        s
    };
    let key = |i: u8| accounts.get(i as usize).map(|a| *a.key).ok_or(ProgramError::Custom(9002));
    let head = take(3)?;
    for _ in 0..head[2] {
        let h = take(2)?;
        let program_id = key(h[0])?;
        let mut metas = Vec::with_capacity(h[1] as usize);
        for _ in 0..h[1] {
            let m = take(2)?;
            metas.push(AccountMeta { pubkey: key(m[0])?, is_signer: m[1] & 1 != 0, is_writable: m[1] & 2 != 0 });
        }
        let n = take(2)?;
        let data = take(u16::from_le_bytes([n[0], n[1]]) as usize)?.to_vec();
        invoke_signed_unchecked(&Instruction { program_id, accounts: metas, data }, accounts, &[&[b"tw-proxy-user", &head[..1]], &[b"tw-proxy-authority", &head[1..2]]])?;
    }
    Ok(())
}
