//! A deployment of token-wrap as a fork would build it: the repository's
//! processor with another shipped customizer for CreateMint.
use {
    solana_account_info::AccountInfo, solana_program_error::ProgramResult, solana_pubkey::Pubkey,
    spl_token_wrap::{
        instruction::TokenWrapInstruction,
        mint_customizer::compliance::ComplianceMintCustomizer,
        processor::{process_create_mint, process_instruction as process_other},
    },
};

solana_program_entrypoint::entrypoint!(process_instruction);

fn process_instruction(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    match TokenWrapInstruction::unpack(data)? {
        TokenWrapInstruction::CreateMint { idempotent } => {
            process_create_mint::<ComplianceMintCustomizer>(program_id, accounts, idempotent)
        }
        _ => process_other(program_id, accounts, data),
    }
}
