//! The client's macros, expanded: type-checked against the client, never linked or run.
use nifty_asset::solana_program::{account_info::AccountInfo, entrypoint::ProgramResult};
use nifty_asset::types::ExtensionType;
use nifty_asset::constraints::{ConstraintBuilder, OwnedByBuilder, PubkeyMatchBuilder};
use nifty_asset::{allocate_and_write, allocate_instruction_data, allocate_update_data_length, ExtensionValue};

pub fn signed<'a>(
    program: &AccountInfo<'a>,
    asset: &AccountInfo<'a>,
    payer: &AccountInfo<'a>,
    system_program: &AccountInfo<'a>,
    extension_type: ExtensionType,
    data: &[u8],
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    allocate_and_write!(program, asset, payer, system_program, extension_type, data, seeds);
    Ok(())
}

pub fn unsigned<'a>(
    program: &AccountInfo<'a>,
    asset: &AccountInfo<'a>,
    payer: &AccountInfo<'a>,
    system_program: &AccountInfo<'a>,
    extension_type: ExtensionType,
    data: &[u8],
) -> ProgramResult {
    allocate_and_write!(program, asset, payer, system_program, extension_type, data);
    Ok(())
}

pub fn with_data(extension_type: ExtensionType, length: u32, data: &[u8]) -> Vec<u8> {
    allocate_instruction_data!(extension_type, length, data)
}

pub fn later(extension_type: ExtensionType, length: u32, data: &[u8]) -> Vec<u8> {
    let mut bytes = allocate_instruction_data!(extension_type, length);
    bytes.extend_from_slice(data);
    allocate_update_data_length!(data.len(), bytes);
    bytes
}

pub fn exact(extension_type: ExtensionType, length: u32, data: &[u8]) -> Vec<u8> {
    let mut bytes = allocate_instruction_data!(extension_type, length);
    bytes.extend_from_slice(data);
    bytes
}

pub fn built_owned_by(builder: &mut OwnedByBuilder) -> Vec<u8> {
    builder.build()
}

pub fn built_pubkey_match(builder: &mut PubkeyMatchBuilder) -> Vec<u8> {
    builder.build()
}

pub fn described(value: ExtensionValue) -> Vec<u8> {
    value.into_data()
}
