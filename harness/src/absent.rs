//! Stands for a program which is not part of this build.

use anchor_lang::prelude::*;
use anchor_lang::solana_program::entrypoint::ProgramResult;

pub static ID: Pubkey = Pubkey::new_from_array([
    module_path!().len() as u8,
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21,
    22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
]);

pub fn entry(_: &Pubkey, _: &[AccountInfo], _: &[u8]) -> ProgramResult {
    Err(ProgramError::IncorrectProgramId)
}
