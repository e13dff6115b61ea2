MI = "clients/rust/asset/src/mint.rs"
IM = "clients/rust/asset/src/impls.rs"
BR = "programs/bridge/src/processor/bridge.rs"
BC = "programs/bridge/src/processor/create.rs"
PX = "programs/asset/interface/src/processor.rs"
PU = "programs/proxy/src/processor/update.rs"
PT = "programs/proxy/src/processor/transfer.rs"
IP = "include-idl/src/parse.rs"
NONE = []
REFS = {}
REFS["mint-helper"] = ([(MI, """            // Start at the max allocate data size and write the rest of the data in chunks.
            for chunk in extension.data[MAX_ALLOCATE_DATA_SIZE..].chunks(MAX_WRITE_DATA_SIZE) {
                let ix_args = WriteInstructionArgs {
                    overwrite: false,
                    bytes: chunk.to_vec(),
                };

                instructions.push(
                    Write {
                        asset: args.accounts.asset,
                        payer,
                        system_program: solana_program::system_program::id(),
                    }
                    .instruction(ix_args),
                );
            }""", """            // Start at the max allocate data size and write the rest of the data in chunks.
            instructions.extend(
                extension.data[MAX_ALLOCATE_DATA_SIZE..]
                    .chunks(MAX_WRITE_DATA_SIZE)
                    .map(|chunk| write_ix(args.accounts.asset, payer, chunk)),
            );"""),
    (MI, "/// Returns a vector of instructions to fully mint", """fn write_ix(asset: Pubkey, payer: Pubkey, chunk: &[u8]) -> Instruction {
    Write {
        asset,
        payer,
        system_program: solana_program::system_program::id(),
    }
    .instruction(WriteInstructionArgs {
        overwrite: false,
        bytes: chunk.to_vec(),
    })
}

/// Returns a vector of instructions to fully mint""")], NONE)
REFS["mint-while"] = ([(MI, """        if extension_data_len > MAX_ALLOCATE_DATA_SIZE {
            // Start at the max allocate data size and write the rest of the data in chunks.
            for chunk in extension.data[MAX_ALLOCATE_DATA_SIZE..].chunks(MAX_WRITE_DATA_SIZE) {
                let ix_args = WriteInstructionArgs {
                    overwrite: false,
                    bytes: chunk.to_vec(),
                };
""", """        {
            let mut offset = std::cmp::min(extension_data_len, MAX_ALLOCATE_DATA_SIZE);
            while offset < extension_data_len {
                let end = std::cmp::min(offset + MAX_WRITE_DATA_SIZE, extension_data_len);
                let ix_args = WriteInstructionArgs {
                    overwrite: false,
                    bytes: extension.data[offset..end].to_vec(),
                };
                offset = end;
""")], NONE)
REFS["mint-split"] = ([(MI, """        let extension_data_len = extension.data.len();

        let ix_args = AllocateInstructionArgs {
            extension: ExtensionInput {
                extension_type: extension.extension_type,
                length: extension.data.len() as u32,
                data: Some(
                    extension.data[..std::cmp::min(extension_data_len, MAX_ALLOCATE_DATA_SIZE)]
                        .to_vec(),
                ),
            },
        };
""", """        let ExtensionArgs {
            extension_type,
            data,
        } = extension;
        let (first, rest) = data.split_at(data.len().min(MAX_ALLOCATE_DATA_SIZE));

        let ix_args = AllocateInstructionArgs {
            extension: ExtensionInput {
                extension_type: *extension_type,
                length: data.len() as u32,
                data: Some(first.to_vec()),
            },
        };
"""), (MI, """        if extension_data_len > MAX_ALLOCATE_DATA_SIZE {
            // Start at the max allocate data size and write the rest of the data in chunks.
            for chunk in extension.data[MAX_ALLOCATE_DATA_SIZE..].chunks(MAX_WRITE_DATA_SIZE) {""", """        if !rest.is_empty() {
            for chunk in rest.chunks(MAX_WRITE_DATA_SIZE) {""")], NONE)
REFS["mint-builder"] = ([(MI, """    let payer = args.accounts.payer.unwrap_or(args.accounts.owner);
""", """    let payer = match args.accounts.payer {
        Some(payer) => payer,
        None => args.accounts.owner,
    };
    let system_program = solana_program::system_program::ID;
"""), (MI, """    for extension in args.extension_args.iter() {""", """    for extension in &args.extension_args {"""),
    (MI, """            Allocate {
                asset: args.accounts.asset,
                payer: Some(payer),
                system_program: Some(solana_program::system_program::id()),
            }
            .instruction(ix_args),""", """            crate::instructions::AllocateBuilder::new()
                .asset(args.accounts.asset)
                .payer(Some(payer))
                .system_program(Some(system_program))
                .extension(ix_args.extension)
                .instruction(),"""), (MI, "        Allocate, AllocateInstructionArgs,", "        AllocateInstructionArgs,")], NONE)
REFS["json-helper"] = ([(MI, """        let name_bytes = self.name.into_bytes();
        data.push(name_bytes.len() as u8);
        data.extend(name_bytes);

        let value_bytes = self.value.into_bytes();
        data.push(value_bytes.len() as u8);
        data.extend(value_bytes);
""", """        push_text(&mut data, &self.name);
        push_text(&mut data, &self.value);
"""), (MI, """        let symbol_bytes = self.symbol.into_bytes();
        data.push(symbol_bytes.len() as u8);
        data.extend(symbol_bytes);

        let description_bytes = self.description.into_bytes();
        data.push(description_bytes.len() as u8);
        data.extend(description_bytes);

        let uri_bytes = self.uri.into_bytes();
        data.push(uri_bytes.len() as u8);
        data.extend(uri_bytes);
""", """        for text in [&self.symbol, &self.description, &self.uri] {
            push_text(&mut data, text);
        }
"""), (MI, """/// Errors returned from the mint command.""", """fn push_text(data: &mut Vec<u8>, text: &str) {
    data.push(text.len() as u8);
    data.extend_from_slice(text.as_bytes());
}

/// Errors returned from the mint command.""")], NONE)
REFS["json-flatmap"] = ([(MI, """            Self::JsonCreator(value) => value.into_iter().fold(vec![], |mut acc, creator| {
                acc.extend(creator.into_data());
                acc
            }),
            Self::JsonAttribute(value) => value.into_iter().fold(vec![], |mut acc, attribute| {
                acc.extend(attribute.into_data());
                acc
            }),
            Self::JsonLink(value) => value.into_iter().fold(vec![], |mut acc, link| {
                acc.extend(link.into_data());
                acc
            }),""", """            Self::JsonCreator(value) => {
                let mut data = Vec::with_capacity(value.len() * 34);
                for creator in value {
                    data.append(&mut creator.into_data());
                }
                data
            }
            Self::JsonAttribute(value) => {
                value.into_iter().flat_map(|attribute| attribute.into_data()).collect()
            }
            Self::JsonLink(value) => {
                let mut data = Vec::new();
                value.into_iter().for_each(|link| data.extend(link.into_data()));
                data
            }""")], NONE)
REFS["json-creator-vec"] = ([(MI, """        let mut data = vec![];
        data.extend(self.address.to_bytes());
        data.extend([self.verified as u8, self.share]);
        data
""", """        let mut data = Vec::with_capacity(34);
        data.extend_from_slice(self.address.as_ref());
        data.push(u8::from(self.verified));
        data.push(self.share);
        data
"""), (MI, """        let mut data = vec![];
        data.extend(self.basis_points.to_le_bytes());

        match self.kind {
            RoyaltiesKind::Allowlist => {
                let mut builder = PubkeyMatchBuilder::default();
                builder.set(Account::Asset, &self.items);
                let bytes = builder.build();
                data.extend(bytes);
            }
            RoyaltiesKind::Denylist => {
                let mut owned_by_builder = OwnedByBuilder::default();
                owned_by_builder.set(Account::Asset, &self.items);
                let mut builder = NotBuilder::default();
                builder.set(&mut owned_by_builder);
                let bytes = builder.build();
                data.extend(bytes);
            }
        }
        data
""", """        let constraint = match self.kind {
            RoyaltiesKind::Allowlist => {
                let mut builder = PubkeyMatchBuilder::default();
                builder.set(Account::Asset, &self.items);
                builder.build()
            }
            RoyaltiesKind::Denylist => {
                let mut owned_by_builder = OwnedByBuilder::default();
                owned_by_builder.set(Account::Asset, &self.items);
                let mut builder = NotBuilder::default();
                builder.set(&mut owned_by_builder);
                builder.build()
            }
        };

        let mut data = self.basis_points.to_le_bytes().to_vec();
        data.extend_from_slice(&constraint);
        data
""")], NONE)
REFS["macro-chunks"] = ([(IM, """        let mut total = data_len;

        while total < total_data_len {
            instruction.data.clear();
            let offset = total;
            // (1) discriminator
            // (1) overwrite
            // total = 2
            const WRITE_HEADER: usize = 2;
            let data_len = std::cmp::min(total_data_len - offset, CPI_LIMIT - WRITE_HEADER - ACCOUNT_METAS_SIZE);

            instruction.data.push(12); // write discriminator
            instruction.data.push(0); // overwrite (false)
            instruction
                .data
                .extend_from_slice(&u32::to_le_bytes(data_len as u32));
            instruction
                .data
                .extend_from_slice(&$data[offset..offset + data_len]);
""", """        const WRITE_HEADER: usize = 2;
        let mut remaining = &$data[data_len..];

        while !remaining.is_empty() {
            let data_len = std::cmp::min(remaining.len(), CPI_LIMIT - WRITE_HEADER - ACCOUNT_METAS_SIZE);
            let (chunk, rest) = remaining.split_at(data_len);

            instruction.data.clear();
            instruction.data.extend_from_slice(&[12, 0]); // write discriminator, overwrite (false)
            instruction.data.extend_from_slice(&(chunk.len() as u32).to_le_bytes());
            instruction.data.extend_from_slice(chunk);
"""), (IM, """
            total += data_len;
        }
""", """
            remaining = rest;
        }
""")], NONE)
REFS["macro-for-chunks"] = ([(IM, """        let mut total = data_len;

        while total < total_data_len {
            instruction.data.clear();
            let offset = total;
            // (1) discriminator
            // (1) overwrite
            // total = 2
            const WRITE_HEADER: usize = 2;
            let data_len = std::cmp::min(total_data_len - offset, CPI_LIMIT - WRITE_HEADER - ACCOUNT_METAS_SIZE);

            instruction.data.push(12); // write discriminator
            instruction.data.push(0); // overwrite (false)
            instruction
                .data
                .extend_from_slice(&u32::to_le_bytes(data_len as u32));
            instruction
                .data
                .extend_from_slice(&$data[offset..offset + data_len]);
""", """        const WRITE_HEADER: usize = 2;

        for chunk in $data[data_len..].chunks(CPI_LIMIT - WRITE_HEADER - ACCOUNT_METAS_SIZE) {
            instruction.data.clear();
            instruction.data.push(12); // write discriminator
            instruction.data.push(0); // overwrite (false)
            instruction
                .data
                .extend_from_slice(&u32::to_le_bytes(chunk.len() as u32));
            instruction.data.extend_from_slice(chunk);
"""), (IM, """
            total += data_len;
        }
""", """        }
""")], NONE)
REFS["impls-accounts"] = ([(IM, """        let accounts = vec![
            solana_program::instruction::AccountMeta::new(*self.asset.key, true),
            if let Some(payer) = self.payer {
                solana_program::instruction::AccountMeta::new(*payer.key, true)
            } else {
                solana_program::instruction::AccountMeta::new_readonly(crate::ASSET_ID, false)
            },
""", """        let none = || solana_program::instruction::AccountMeta::new_readonly(crate::ASSET_ID, false);
        let accounts = vec![
            solana_program::instruction::AccountMeta::new(*self.asset.key, true),
            self.payer.map_or_else(none, |payer| {
                solana_program::instruction::AccountMeta::new(*payer.key, true)
            }),
"""), (IM, """        let mut account_infos = Vec::with_capacity(4);
        account_infos.push(program.clone());
        account_infos.push(self.asset.clone());
        if let Some(payer) = self.payer {
            account_infos.push(payer.clone());
        }
        if let Some(system_program) = self.system_program {
            account_infos.push(system_program.clone());
        }

        if signers_seeds.is_empty() {
            solana_program::program::invoke(&instruction, &account_infos)
        } else {
            solana_program::program::invoke_signed(&instruction, &account_infos, signers_seeds)
        }
""", """        let mut account_infos = vec![program.clone(), self.asset.clone()];
        account_infos.extend(self.payer.cloned());
        account_infos.extend(self.system_program.cloned());

        solana_program::program::invoke_signed(&instruction, &account_infos, signers_seeds)
""")], NONE)
REFS["bridge-reorder"] = ([(BR, """    require!(
        metadata.mint == *ctx.accounts.mint.key,
        ProgramError::InvalidAccountData,
        "mint"
    );
""", ""), (BR, """    let metadata = Metadata::try_from(ctx.accounts.metadata)?;
""", """    let metadata = Metadata::try_from(ctx.accounts.metadata)?;

    if metadata.mint != *ctx.accounts.mint.key {
        msg!("[ERROR] mint");
        return Err(ProgramError::InvalidAccountData);
    }
"""), (BR, """    vault.state = state;
    // drop the data reference for cpi call
    drop(data);
""", """    vault.state = match vault.state {
        State::Idle => State::Active,
        State::Active => State::Idle,
    };
    drop(data);
""")], NONE)
REFS["bridge-swap"] = ([(BR, """    let (transfer_accounts, state) = match vault.state {
        State::Idle => (
            TransferAccounts {
                authority: ctx.accounts.owner,
                source: ctx.accounts.owner,
                source_token: ctx.accounts.token,
                source_token_record: ctx.accounts.token_record,
                destination: ctx.accounts.vault,
                destination_token: ctx.accounts.vault_token,
                destination_token_record: ctx.accounts.vault_token_record,
            },
            State::Active,
        ),
        State::Active => (
            TransferAccounts {
                authority: ctx.accounts.vault,
                source: ctx.accounts.vault,
                source_token: ctx.accounts.vault_token,
                source_token_record: ctx.accounts.vault_token_record,
                destination: ctx.accounts.owner,
                destination_token: ctx.accounts.token,
                destination_token_record: ctx.accounts.token_record,
            },
            State::Idle,
        ),
    };
""", """    let idle = matches!(vault.state, State::Idle);
    let mut from = (
        ctx.accounts.owner,
        ctx.accounts.token,
        ctx.accounts.token_record,
    );
    let mut to = (
        ctx.accounts.vault,
        ctx.accounts.vault_token,
        ctx.accounts.vault_token_record,
    );
    if !idle {
        std::mem::swap(&mut from, &mut to);
    }
    let state = if idle { State::Active } else { State::Idle };
    let transfer_accounts = TransferAccounts {
        authority: from.0,
        source: from.0,
        source_token: from.1,
        source_token_record: from.2,
        destination: to.0,
        destination_token: to.1,
        destination_token_record: to.2,
    };
"""), (BR, """    match state {
        State::Active => {
            msg!("Bridging token to asset");
            token_transfer_cpi.invoke()?;
            asset_transfer_cpi.invoke_signed(&[&seeds])
        }
        State::Idle => {
            msg!("Bridging asset to token");
            token_transfer_cpi.invoke_signed(&[&seeds])?;
            asset_transfer_cpi.invoke()
        }
    }
""", """    if idle {
        msg!("Bridging token to asset");
        token_transfer_cpi.invoke()?;
        return asset_transfer_cpi.invoke_signed(&[&seeds]);
    }

    msg!("Bridging asset to token");
    token_transfer_cpi.invoke_signed(&[&seeds])?;
    asset_transfer_cpi.invoke()
""")], NONE)
REFS["bridge-helper"] = ([(BR, """    let seeds = [Vault::PREFIX, ctx.accounts.mint.key.as_ref(), &[vault.bump]];
    let derived_key = Pubkey::create_program_address(&seeds, program_id)?;

    require!(
        derived_key == *ctx.accounts.vault.key,
        ProgramError::InvalidSeeds,
        "bridge"
    );
""", """    let bump = [vault.bump];
    let seeds: [&[u8]; 3] = [Vault::PREFIX, ctx.accounts.mint.key.as_ref(), &bump];
    assert_derivation(&seeds, program_id, ctx.accounts.vault.key)?;
"""), (BR, """pub fn process_bridge(""", """fn assert_derivation(seeds: &[&[u8]], program_id: &Pubkey, expected: &Pubkey) -> ProgramResult {
    let derived_key = Pubkey::create_program_address(seeds, program_id)?;
    require!(
        &derived_key == expected,
        ProgramError::InvalidSeeds,
        "bridge"
    );
    Ok(())
}

pub fn process_bridge(""")], NONE)
ALLOC = """        AllocateCpiBuilder::new(ctx.accounts.nifty_asset_program)
            .asset(ctx.accounts.asset)
            .payer(Some(ctx.accounts.payer))
            .system_program(Some(ctx.accounts.system_program))
            .extension(ExtensionInput {
                extension_type: ExtensionType::%s,
                length: data.len() as u32,
                data: Some(data),
            })
            .invoke_signed(&[&signer_seeds])?;
"""
REFS["bcreate-helper"] = ([(BC, ALLOC % "Creators", "        allocate(&ctx, ExtensionType::Creators, data, &signer_seeds)?;\n"),
    (BC, ALLOC % "Grouping", "        allocate(&ctx, ExtensionType::Grouping, data, &signer_seeds)?;\n"),
    (BC, "use crate::{\n    err,", """fn allocate(
    ctx: &Context<CreateAccounts>,
    extension_type: ExtensionType,
    data: Vec<u8>,
    seeds: &[&[u8]],
) -> ProgramResult {
    AllocateCpiBuilder::new(ctx.accounts.nifty_asset_program)
        .asset(ctx.accounts.asset)
        .payer(Some(ctx.accounts.payer))
        .system_program(Some(ctx.accounts.system_program))
        .extension(ExtensionInput {
            extension_type,
            length: data.len() as u32,
            data: Some(data),
        })
        .invoke_signed(&[seeds])
}

use crate::{
    err,""")], NONE)
REFS["bcreate-collection"] = ([(BC, """    let authority_as_signer = if let Some(Collection { verified, key }) = metadata.collection {
        // if collection is verified, then we require the collection NFT
        // to be bridged as well
        if verified {
            let (derived_key, _)""", """    let authority_as_signer = match metadata.collection {
        Some(Collection { verified: true, key }) => {
            let (derived_key, _)"""), (BC, """            msg!("Collection found on the bridge");
        }

        !verified
    } else {
        true
    };
""", """            msg!("Collection found on the bridge");
            false
        }
        _ => true,
    };
"""), (BC, """            let collection_asset = if let Some(collection_asset) = ctx.accounts.collection {
                collection_asset
            } else {
                return err!(ProgramError::NotEnoughAccountKeys, "collection_asset");
            };
""", """            let collection_asset = ctx.accounts.collection.ok_or_else(|| {
                msg!("[ERROR] collection_asset");
                ProgramError::NotEnoughAccountKeys
            })?;
""")], NONE)
REFS["bcreate-early"] = ([(BC, """    if ctx.accounts.vault.data_is_empty() {
        invoke_signed(""", """    if !ctx.accounts.vault.data_is_empty() {
        return err!(
            ProgramError::AccountAlreadyInitialized,
            "Vault account \\"{}\\" already initialized",
            ctx.accounts.vault.key
        );
    }

    {
        invoke_signed("""), (BC, """        )?;
    } else {
        return err!(
            ProgramError::AccountAlreadyInitialized,
            "Vault account \\"{}\\" already initialized",
            ctx.accounts.vault.key
        );
    }
""", """        )?;
    }
"""), (BC, """    vault.discriminator = Discriminator::Vault;
    vault.bump = bump[0];
    vault.state = State::Idle;
    vault.mint = *ctx.accounts.mint.key;
""", """    vault.mint = *ctx.accounts.mint.key;
    vault.state = State::Idle;
    vault.bump = bump[0];
    vault.discriminator = Discriminator::Vault;
""")], NONE)
REFS["forward-collect"] = ([(PX, """        let mut account_metas = Vec::with_capacity(accounts.len());
        accounts.iter().for_each(|account| {
            account_metas.push(AccountMeta {
                pubkey: *account.key,
                is_signer: account.is_signer,
                is_writable: account.is_writable,
            });
        });
        // the asset account must be a signer
        account_metas.first_mut().unwrap().is_signer = true;
""", """        // the asset account must be a signer
        let account_metas = accounts
            .iter()
            .enumerate()
            .map(|(index, account)| AccountMeta {
                pubkey: *account.key,
                is_signer: index == 0 || account.is_signer,
                is_writable: account.is_writable,
            })
            .collect::<Vec<_>>();
""")], NONE)
REFS["forward-for"] = ([(PX, """        accounts.iter().for_each(|account| {
            account_metas.push(AccountMeta {
                pubkey: *account.key,
                is_signer: account.is_signer,
                is_writable: account.is_writable,
            });
        });
        // the asset account must be a signer
        account_metas.first_mut().unwrap().is_signer = true;
""", """        for account in accounts {
            account_metas.push(if account.is_writable {
                AccountMeta::new(*account.key, account.is_signer)
            } else {
                AccountMeta::new_readonly(*account.key, account.is_signer)
            });
        }
        // the asset account must be a signer
        account_metas[0].is_signer = true;
""")], NONE)
REFS["forward-split"] = ([(PX, """        let mut account_metas = Vec::with_capacity(accounts.len());
        accounts.iter().for_each(|account| {
            account_metas.push(AccountMeta {
                pubkey: *account.key,
                is_signer: account.is_signer,
                is_writable: account.is_writable,
            });
        });
        // the asset account must be a signer
        account_metas.first_mut().unwrap().is_signer = true;
""", """        let mut account_metas: Vec<AccountMeta> = accounts.iter().map(to_meta).collect();
        // the asset account must be a signer
        if let Some(first) = account_metas.first_mut() {
            first.is_signer = true;
        }
"""), (PX, "impl Interface {", """fn to_meta(account: &AccountInfo) -> AccountMeta {
    AccountMeta {
        pubkey: *account.key,
        is_signer: account.is_signer,
        is_writable: account.is_writable,
    }
}

impl Interface {""")], NONE)
REFS["proxy-update-early"] = ([(PU, """    if let Some(authority) = authority {
        require!(
            *ctx.accounts.authority.key == *authority,
            ProgramError::InvalidArgument,
            "authority mismatch"
        );
    } else {
        msg!("[ERROR] Authority not found");
        return Err(ProgramError::InvalidArgument);
    }
""", """    let authority = authority.ok_or_else(|| {
        msg!("[ERROR] Authority not found");
        ProgramError::InvalidArgument
    })?;

    if *authority != *ctx.accounts.authority.key {
        msg!("authority mismatch");
        return Err(ProgramError::InvalidArgument);
    }
""")], NONE)
REFS["proxy-transfer-helper"] = ([(PT, """    UpdateCpiBuilder::new(nifty_asset_program)
        .asset(ctx.accounts.asset)
        .authority(ctx.accounts.asset)
        .extension(ExtensionInput {
            extension_type: ExtensionType::Attributes,
            length: data.len() as u32,
            data: Some(data),
        })
        .invoke_signed(&[&signer])?;
""", """    let update = |extension_type: ExtensionType, data: Vec<u8>| {
        UpdateCpiBuilder::new(nifty_asset_program)
            .asset(ctx.accounts.asset)
            .authority(ctx.accounts.asset)
            .extension(ExtensionInput {
                extension_type,
                length: data.len() as u32,
                data: Some(data),
            })
            .invoke_signed(&[&signer])
    };
    update(ExtensionType::Attributes, data)?;
"""), (PT, """    UpdateCpiBuilder::new(nifty_asset_program)
        .asset(ctx.accounts.asset)
        .authority(ctx.accounts.asset)
        .extension(ExtensionInput {
            extension_type: ExtensionType::Blob,
            length: data.len() as u32,
            data: Some(data),
        })
        .invoke_signed(&[&signer])?;
""", """    update(ExtensionType::Blob, data)?;
""")], NONE)
REFS["idl-read-helper"] = ([(IP, """    let slice = &buffer[offset + 4..offset + 8];
    let location = u32::from_le_bytes(slice.try_into().unwrap());
""", """    let word = |at: usize| -> u32 {
        let mut bytes = [0u8; 4];
        bytes.copy_from_slice(&buffer[at..at + 4]);
        u32::from_le_bytes(bytes)
    };
    let location = word(offset + 4);
"""), (IP, """                let (location, size) = get_section_data_offset(buffer, sh.sh_offset as usize);
                let slice = &buffer[location..location + size];

                idl_type = Some(""", """                let slice = section(buffer, sh.sh_offset as usize);
                idl_type = Some("""), (IP, """#[cfg(feature = "parse")]
#[inline(always)]
""", """#[cfg(feature = "parse")]
fn section(buffer: &[u8], offset: usize) -> &[u8] {
    let (location, size) = get_section_data_offset(buffer, offset);
    &buffer[location..][..size]
}

#[cfg(feature = "parse")]
#[inline(always)]
""")], NONE)
REFS["idl-ifelse"] = ([(IP, """        match name {
            IDL_DATA_SECTION => {
""", """        {
            if name == IDL_DATA_SECTION {
"""), (IP, """            }
            IDL_TYPE_SECTION => {
""", """            } else if name == IDL_TYPE_SECTION {
"""), (IP, """            }
            // Ignore other sections.
            _ => (),
        }
    }

    if idl_type.is_some() && idl_json.is_some() {
        #[allow(clippy::unnecessary_unwrap)]
        Ok((idl_type.unwrap(), idl_json.unwrap()))
    } else {
        // Returns an error if we could not find the IDL information.
        Err(goblin::error::Error::Malformed(
            "Could not find .idl.* sections".to_string(),
        ))
    }
""", """            }
        }
    }

    match (idl_type, idl_json) {
        (Some(kind), Some(json)) => Ok((kind, json)),
        _ => Err(goblin::error::Error::Malformed(
            "Could not find .idl.* sections".to_string(),
        )),
    }
"""), (IP, """        match self {
            IdlType::Anchor => write!(f, "{ANCHOR_IDL_TYPE}"),
            IdlType::Codama => write!(f, "{CODAMA_IDL_TYPE}"),
        }
""", """        f.write_str(self.as_str())
""")], NONE)
