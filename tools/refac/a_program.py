P = "programs/asset/program/src/"
PR = P + "processor/"
FOLD = open("/repo/" + P + "utils.rs").read()
FOLD = FOLD[FOLD.index("    delegates.iter().fold("):FOLD.index("#[macro_export]")].rstrip().rstrip("}").rstrip()
PAD_UP = """std::alloc::Layout::from_size_align(
            offset + Extension::LEN + extension_length,
            std::mem::size_of::<u64>(),
        )
        .map_err(|_| AssetError::InvalidAlignment)?
        .pad_to_align()
        .size();"""
PAD_AL = """std::alloc::Layout::from_size_align(
        offset + Extension::LEN + args.length as usize,
        std::mem::size_of::<u64>(),
    )
    .map_err(|_| AssetError::InvalidAlignment)?
    .pad_to_align()
    .size();"""
PAD_CR = """std::alloc::Layout::from_size_align(
                        extension.length as usize + Extension::LEN,
                        std::mem::size_of::<u64>(),
                    )
                    .map_err(|_| AssetError::InvalidAlignment)?
                    .pad_to_align()
                    .size();"""
CR_SPACE_A = "if let Some(extensions) = &args.extensions {\n                let mut total = 0;\n\n                for extension in extensions {\n                    total += " + PAD_CR + "\n                }\n\n                total\n            } else {\n                0\n            };"
ALL = None
CHK = """    require!(
        data.len() >= Asset::LEN && data[0] == u8::from(Discriminator::Asset),
        AssetError::Uninitialized,
        "asset"
    );
"""
REFS = {
 "assert_delegate-loop": ([(P + "utils.rs", FOLD, """    let mut result: ProgramResult = Err(AssetError::DelegateNotFound.into());
    for delegate in delegates.iter().flatten() {
        if *delegate.address != *target {
            solana_program::msg!("invalid delegate");
            return Err(AssetError::InvalidDelegate.into());
        }
        if !delegate.is_active(role) {
            solana_program::msg!("missing role");
            result = Err(AssetError::DelegateRoleNotActive.into());
        } else {
            result = Ok(());
        }
    }
    result
}

""".rstrip().rstrip("}").rstrip())], ["Transfer", "Burn", "Lock", "Unlock"]) if False else ([(P + "utils.rs", FOLD, """    let mut result: ProgramResult = Err(AssetError::DelegateNotFound.into());
    for delegate in delegates {
        if let Some(delegate) = delegate {
            result = check_delegate(delegate, target, role);
        }
    }
    result""") , (P + "utils.rs", "#[allow(clippy::manual_try_fold)]", """fn check_delegate(delegate: &Delegate, target: &Pubkey, role: DelegateRole) -> ProgramResult {
    if *delegate.address != *target {
        return Err(AssetError::InvalidDelegate.into());
    }
    if !delegate.is_active(role) {
        return Err(AssetError::DelegateRoleNotActive.into());
    }
    Ok(())
}

#[allow(clippy::manual_try_fold)]""")], ["Transfer", "Burn", "Lock", "Unlock"]),
 "assert_delegate-match": ([(P + "utils.rs", FOLD, """    let mut outcome: Option<ProgramResult> = None;
    for candidate in delegates.iter() {
        match candidate {
            Some(d) if *d.address == *target => {
                outcome = Some(if (d.roles & role.mask()) != 0 { Ok(()) } else { Err(AssetError::DelegateRoleNotActive.into()) });
            }
            Some(_) => outcome = Some(Err(AssetError::InvalidDelegate.into())),
            None => {}
        }
    }
    outcome.unwrap_or_else(|| Err(AssetError::DelegateNotFound.into()))""")], ["Transfer", "Burn", "Lock", "Unlock"]),
 "transfer-helper-loaded": ([(PR + "transfer.rs", CHK, "    check_initialized(&data)?;\n"),
   (PR + "transfer.rs", "pub fn process_transfer(", """fn check_initialized(data: &[u8]) -> ProgramResult {
    if data.len() < Asset::LEN {
        return Err(AssetError::Uninitialized.into());
    }
    match data.first() {
        Some(d) if *d == u8::from(Discriminator::Asset) => Ok(()),
        _ => Err(AssetError::Uninitialized.into()),
    }
}

pub fn process_transfer(""")], ["Transfer"]),
 "transfer-match-auth": ([(PR + "transfer.rs", """    let is_allowed = asset.owner == *ctx.accounts.signer.key()
        || assert_delegate(
            &[
                asset.delegate.value(),
                Extension::get::<Manager>(extensions).map(|s| s.delegate),
            ],
            ctx.accounts.signer.key(),
            DelegateRole::Transfer,
        )
        .is_ok();

    // Signing account must be owner or a transfer delegate.
    require!(
        is_allowed,
        AssetError::InvalidTransferAuthority,
        "not an owner or transfer delegate"
    );
""", """    let signer = ctx.accounts.signer.key();
    if asset.owner != *signer {
        let manager = match Extension::get::<Manager>(extensions) {
            Some(manager) => Some(manager.delegate),
            None => None,
        };
        let delegates = [asset.delegate.value(), manager];
        if let Err(_) = assert_delegate(&delegates, signer, DelegateRole::Transfer) {
            return Err(AssetError::InvalidTransferAuthority.into());
        }
    }
""")], ["Transfer"]),
 "transfer-w2w-demorgan": ([(P + "utils.rs", """            let is_wallet_to_wallet = !(get_stack_height() > TRANSACTION_LEVEL_STACK_HEIGHT)
                && ($ctx.accounts.signer.owner() == &solana_program::system_program::ID)
                && ($ctx.accounts.recipient.owner() == &solana_program::system_program::ID);

            if !is_wallet_to_wallet {""", """            let system = &solana_program::system_program::ID;
            let needs_check = get_stack_height() > TRANSACTION_LEVEL_STACK_HEIGHT
                || [$ctx.accounts.signer, $ctx.accounts.recipient]
                    .iter()
                    .any(|account| account.owner() != system);

            if needs_check {""")], ["Transfer"]),
 "transfer-group-flip": ([(PR + "transfer.rs", """            require!(
                ctx.accounts.group.is_some(),
                ProgramError::NotEnoughAccountKeys,
                "asset is part of a group but no group account was provided"
            );

            let group_asset_info = ctx.accounts.group.unwrap();
""", """            let group_asset_info = match ctx.accounts.group {
                Some(account) => account,
                None => return Err(ProgramError::NotEnoughAccountKeys),
            };
"""), (PR + "transfer.rs", """    // Transfer the asset.
    asset.owner = *ctx.accounts.recipient.key();

    // Clear the delegate.
    asset.delegate = PodOption::new(Delegate::default());
""", """    asset.delegate = Delegate::default().into();
    let recipient = ctx.accounts.recipient.key();
    asset.owner = *recipient;
""")], ["Transfer"]),
 "burn-reorder": ([(PR + "burn.rs", """        // (safely) decrease the group size
        *grouping.size = grouping
            .size
            .checked_sub(1)
            .ok_or(ProgramError::InvalidAccountData)?;
""", """        let size = *grouping.size;
        if size == 0 {
            return Err(ProgramError::InvalidAccountData);
        }
        *grouping.size = size - 1;
"""), (PR + "burn.rs", """        let group_asset = ctx.accounts.group.ok_or_else(|| {
            msg!("[ERROR] Missing group account");
            ProgramError::NotEnoughAccountKeys
        })?;
""", """        let Some(group_asset) = ctx.accounts.group else {
            msg!("[ERROR] Missing group account");
            return Err(ProgramError::NotEnoughAccountKeys);
        };
"""), (PR + "burn.rs", """    let recipient = ctx.accounts.recipient.unwrap_or(ctx.accounts.signer);
""", """    let recipient = match ctx.accounts.recipient {
        Some(recipient) => recipient,
        None => ctx.accounts.signer,
    };
""")], ["Burn"]),
 "close-account-order": ([(P + "utils.rs", """    *destination_lamports = (*destination_lamports)
        .checked_add(*source_lamports)
        .unwrap();
    *source_lamports = 0;
""", """    let amount = std::mem::replace(&mut *source_lamports, 0);
    *destination_lamports = destination_lamports.checked_add(amount).ok_or(solana_program::program_error::ProgramError::InvalidArgument)?;
"""), (P + "utils.rs", """    account.realloc(0, false)?;
    account.assign(&system_program::ID);
""", """    account.assign(&system_program::ID);
    account.realloc(0, false)?;
""")], ["Burn", "Close"]),
 "approve-loop": ([(PR + "approve.rs", """        DelegateInput::Some { roles } => roles.iter().fold(0, |all, role| all | role.mask()),
""", """        DelegateInput::Some { roles } => {
            let mut mask = 0u8;
            for role in &roles {
                mask |= role.mask();
            }
            mask
        }
""")], ["Approve"]),
 "revoke-loop": ([(PR + "revoke.rs", """                roles.iter().for_each(|role| delegate.disable(*role));

                if !delegate.has_active_roles() {""", """                for role in roles {
                    delegate.roles &= !role.mask();
                }

                if delegate.roles == 0 {"""), (PR + "revoke.rs", """        || asset
            .delegate
            .value()
            .map(|delegate| *delegate.address == *ctx.accounts.signer.key())
            == Some(true);
""", """        || matches!(asset.delegate.value(), Some(delegate) if *delegate.address == *ctx.accounts.signer.key());
""")], ["Revoke"]),
 "revoke-mask": ([(PR + "revoke.rs", """                roles.iter().for_each(|role| delegate.disable(*role));
""", """                let mask = roles.iter().fold(0u8, |mask, role| mask | role.mask());
                delegate.roles &= !mask;
""")], ["Revoke"]),
 "lock-flatten": ([(PR + "lock.rs", """    if asset.delegate.value().is_some() {
        assert_delegate(
            &[asset.delegate.value(), manager],
            ctx.accounts.signer.key(),
            DelegateRole::Lock,
        )?;
    }
    // otherwise, if the signer is not the owner, the signer must be the
    // manager delegate
    else if asset.owner != *ctx.accounts.signer.key() {
        assert_delegate(&[manager], ctx.accounts.signer.key(), DelegateRole::Lock)?;
    }
""", """    let signer = ctx.accounts.signer.key();
    let delegate = asset.delegate.value();
    match delegate {
        None if asset.owner == *signer => (),
        _ => assert_delegate(&[delegate, manager], signer, DelegateRole::Lock)?,
    }
""")], ["Lock"]),
 "group-extract": ([(PR + "group.rs", """    // if the signing authority doesn't match the group authority
    if *ctx.accounts.authority.key() != group.authority {
        // then the authority must match the grouping delegate
        if let Some(delegate) = grouping.delegate.value() {
            require!(
                **delegate == *ctx.accounts.authority.key(),
                AssetError::InvalidAuthority,
                "Group authority or delegate mismatch"
            );
        } else {
            return err!(
                AssetError::InvalidAuthority,
                "Invalid group authority delegate"
            );
        };
    }
""", """    let authority = ctx.accounts.authority.key();
    let is_delegate = grouping
        .delegate
        .value()
        .map_or(false, |delegate| **delegate == *authority);
    require!(
        is_delegate || group.authority == *authority,
        AssetError::InvalidAuthority,
        "Group authority or delegate mismatch"
    );
"""), (PR + "group.rs", """    if let Some(max_size) = grouping.max_size.value() {
        require!(
            *grouping.size < **max_size,
            AssetError::ExtensionDataInvalid,
            "Maximum group size reached"
        );
    }
""", """    let limit = grouping.max_size.value().map(|max| **max);
    if let Some(limit) = limit {
        if *grouping.size >= limit {
            return err!(AssetError::ExtensionDataInvalid, "Maximum group size reached");
        }
    }
"""), (PR + "group.rs", """    asset.group = PodOption::new(ctx.accounts.group.key().into());
    *grouping.size += 1;
""", """    *grouping.size = grouping.size.checked_add(1).ok_or(ProgramError::InvalidArgument)?;
    asset.group = PodOption::new(ctx.accounts.group.key().into());
""")], ["Group", "Create"]),
 "ungroup-value": ([(PR + "ungroup.rs", """        asset.group == PodOption::new(ctx.accounts.group.key().into()),
""", """        asset.group.value().map_or(false, |g| **g == *ctx.accounts.group.key()),
"""), (PR + "ungroup.rs", "*grouping.size -= 1;", "*grouping.size = grouping.size.checked_sub(1).ok_or(ProgramError::InvalidAccountData)?;")], ["Ungroup"]),
 "verify-for": ([(PR + "verify.rs", """    extension.creators.iter_mut().for_each(|creator| {
        if creator.address == *ctx.accounts.creator.key() {
            creator.verified = true.into();
            found = true;
        }
    });
""", """    for creator in extension.creators.iter_mut() {
        if creator.address != *ctx.accounts.creator.key() {
            continue;
        }
        creator.verified = true.into();
        found = true;
    }
""")], ["Verify"]),
 "verify-filter": ([(PR + "verify.rs", """    extension.creators.iter_mut().for_each(|creator| {
        if creator.address == *ctx.accounts.creator.key() {
            creator.verified = true.into();
            found = true;
        }
    });
""", """    let key = ctx.accounts.creator.key();
    for i in 0..extension.creators.len() {
        let creator = &mut extension.creators[i];
        if creator.address == *key {
            creator.verified = true.into();
            found = true;
        }
    }
""")], ["Verify"]),
 "resize-helper": ([(PR + "mod.rs", """        let delta =
            account
                .try_borrow_lamports()?
                .saturating_sub(if size == 0 { 0 } else { required });
""", """        let keep = match size {
            0 => 0,
            _ => required,
        };
        let balance = *account.try_borrow_lamports()?;
        let delta = if balance > keep { balance - keep } else { 0 };
"""), (PR + "mod.rs", """        *payer.try_borrow_mut_lamports()? += delta;
        *account.try_borrow_mut_lamports()? -= delta;
""", """        *account.try_borrow_mut_lamports()? -= delta;
        *payer.try_borrow_mut_lamports()? += delta;
""")], ["Resize", "Remove", "Update", "Write", "Allocate"]),
 "resize-match": ([(PR + "mod.rs", "    if account.data_len() > size {\n        let delta", "    let current = account.data_len();\n    if size < current {\n        let delta"),
   (PR + "resize.rs", """        Strategy::Trim => Asset::last_extension(&account_data)
            .map_or(Asset::LEN, |(extension, _)| extension.boundary() as usize),
""", """        Strategy::Trim => match Asset::last_extension(&account_data) {
            Some((extension, _)) => extension.boundary() as usize,
            None => Asset::LEN,
        },
""")], ["Resize", "Remove", "Update", "Write", "Allocate"]),
 "pad-mask": ([(PR + "update.rs", PAD_UP, "(offset + Extension::LEN + extension_length + 7) & !7;"), (PR + "allocate.rs", PAD_AL, "(offset + Extension::LEN + args.length as usize + 7) & !7;"), (PR + "create.rs", PAD_CR, "(extension.length as usize + Extension::LEN + 7) & !7;")], ["Update", "Allocate", "Create"]),
 "pad-div": ([(PR + "update.rs", PAD_UP, "(offset + Extension::LEN + extension_length + 7) / 8 * 8;"), (PR + "allocate.rs", PAD_AL, "(offset + Extension::LEN + args.length as usize).next_multiple_of(8);")], ["Update", "Allocate"]),
 "pad-rem": ([(PR + "allocate.rs", PAD_AL, "{ let end = offset + Extension::LEN + args.length as usize; end + (8 - end % 8) % 8 };")], ["Allocate"]),
 "create-space-iter": ([(PR + "create.rs", CR_SPACE_A, """args.extensions.as_ref().map_or(0, |extensions| {
                extensions
                    .iter()
                    .map(|e| (e.length as usize + Extension::LEN + 7) & !7)
                    .sum::<usize>()
            });""")], ["Create"]),
 "create-ext-for": ([(PR + "create.rs", """    if let Some(mut extensions) = args.extensions {
        while !extensions.is_empty() {""", """    if let Some(extensions) = args.extensions {
        for extension in extensions {"""), (PR + "create.rs", "extension: extensions.swap_remove(0),", "extension,")], []),
 "create-fields-order": ([(PR + "create.rs", """    asset.discriminator = Discriminator::Asset;
    asset.standard = args.standard;
    asset.mutable = args.mutable.into();
    asset.owner = *ctx.accounts.owner.key();
    asset.authority = *ctx.accounts.authority.key();
    asset.name = args.name.into();
""", """    asset.name = args.name.into();
    asset.owner = *ctx.accounts.owner.key();
    asset.authority = *ctx.accounts.authority.key();
    asset.mutable = args.mutable.into();
    asset.standard = args.standard;
    asset.discriminator = Discriminator::Asset;
"""), (PR + "create.rs", """    let has_manager = extensions
        .iter()
        .any(|extension| extension == &ExtensionType::Manager);
""", """    let has_manager = extensions.contains(&ExtensionType::Manager);
"""), (PR + "create.rs", """    if matches!(args.standard, Standard::Proxied) {
        require!(
            proxy.is_some(),
            AssetError::ExtensionDataInvalid,
            "missing proxy extension"
        );

        let proxy = proxy.unwrap();
""", """    if args.standard == Standard::Proxied {
        let proxy = proxy.ok_or(AssetError::ExtensionDataInvalid)?;
""")], ["Create"]),
 "remove-loop": ([(PR + "remove.rs", """    while offset + Extension::LEN <= account_data.len() {
        let current = Extension::load(&account_data[offset..offset + Extension::LEN]);

        match current.try_extension_type() {
            Ok(t) if t == extension_type => {
                boundary = Some(current.boundary() as usize);
                break;
            }
            Ok(ExtensionType::None) => break,
            _ => offset = current.boundary() as usize,
        }
    }

    // if the extension is not found, then there is nothing to remove and we
    // signal this by returning an error
    let boundary = boundary.ok_or(AssetError::ExtensionNotFound)?;
""", """    loop {
        if account_data.len() < offset + Extension::LEN {
            break;
        }
        let (_, tail) = account_data.split_at(offset);
        let current = Extension::load(&tail[..Extension::LEN]);
        let kind = current.try_extension_type();
        if kind == Ok(extension_type) {
            boundary = Some(current.boundary() as usize);
            break;
        }
        if kind == Ok(ExtensionType::None) {
            break;
        }
        offset = current.boundary() as usize;
    }

    let boundary = match boundary {
        Some(boundary) => boundary,
        None => return Err(AssetError::ExtensionNotFound.into()),
    };
""")], ["Remove"]),
 "remove-copy-within": ([(PR + "remove.rs", """    let bytes_to_move = ctx.accounts.asset.data_len().saturating_sub(boundary);
    unsafe {
        let ptr = ctx.accounts.asset.unchecked_borrow_mut_data().as_mut_ptr();
        let src_ptr = ptr.add(boundary);
        let dest_ptr = ptr.add(offset);

        sol_memmove(dest_ptr, src_ptr, bytes_to_move);
    }
""", """    {
        let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
        account_data.copy_within(boundary.., offset);
    }
"""), (PR + "remove.rs", """        let boundary = extension.boundary().saturating_sub(bytes_to_remove as u32);
        extension.set_boundary(boundary);
        cursor = boundary as usize;
""", """        let moved = extension.boundary() as usize - bytes_to_remove;
        extension.set_boundary(moved as u32);
        cursor = moved;
""")], ["Remove"]),
 "update-validate-inline": ([(PR + "update.rs", """    if let Some(current_data) = current_data {
        on_update(extension_type, current_data, input_data, Some(authority)).map_err(|error| {
            msg!("[ERROR] {}", error);
            AssetError::ExtensionDataInvalid
        })
    } else {
        match extension_type {
            ExtensionType::None | ExtensionType::Manager | ExtensionType::Proxy => {
                err!(
                    AssetError::ExtensionDataInvalid,
                    "invalid extension type: {:?}",
                    extension_type
                )
            }
            _ => on_create(extension_type, input_data, Some(authority)).map_err(|error| {
                msg!("[ERROR] {}", error);
                AssetError::ExtensionDataInvalid
            }),
        }
    }
""", """    let result = match current_data {
        Some(current_data) => on_update(extension_type, current_data, input_data, Some(authority)),
        None => {
            if matches!(extension_type, ExtensionType::None | ExtensionType::Manager | ExtensionType::Proxy) {
                return Err(AssetError::ExtensionDataInvalid);
            }
            on_create(extension_type, input_data, Some(authority))
        }
    };
    if result.is_err() {
        return Err(AssetError::ExtensionDataInvalid);
    }
    Ok(())
""")], ["Update"]),
 "update-len-if": ([(PR + "update.rs", """            match length.0.cmp(&(args.length as usize)) {
                Ordering::Less => {
                    return err!(
                        AssetError::ExtensionDataInvalid,
                        "invalid extension data (expected {} bytes, got {} bytes)",
                        args.length,
                        length.0
                    );
                }
                Ordering::Greater => {
                    return err!(
                        AssetError::ExtensionLengthInvalid,
                        "extension length mismatch"
                    );
                }
                Ordering::Equal => (),
            }
""", """            let _ = Ordering::Less;
            if length.0 < args.length as usize {
                return Err(AssetError::ExtensionDataInvalid.into());
            }
            require!(length.0 <= args.length as usize, AssetError::ExtensionLengthInvalid, "extension length mismatch");
"""), (PR + "update.rs", """            let resized = account_boundary.saturating_add_signed(delta as isize);
""", """            let resized = if delta < 0 {
                account_boundary.saturating_sub(delta.unsigned_abs() as usize)
            } else {
                account_boundary.saturating_add(delta as usize)
            };
""")], ["Update"]),
 "update-copy": ([(PR + "update.rs", """                sol_memcpy(
                    &mut account_data[offset..],
                    &extension_data,
                    extension_length,
                );
""", """                account_data[offset..offset + extension_length]
                    .copy_from_slice(&extension_data[..extension_length]);
"""), (PR + "update.rs", """    if let Some(name) = args.name {
        asset.name = name.into();
    }

    if let Some(mutable) = args.mutable {
        asset.mutable = mutable.into();
    }
""", """    if let Some(mutable) = args.mutable {
        asset.mutable = PodBool::from(mutable);
    }

    match args.name {
        Some(name) => asset.name = name.into(),
        None => (),
    }
""")], ["Update"]),
 "access-iter": ([(PR + "mod.rs", """    for account_info in accounts {
        // only considers accounts owned by the program and non-empty
        if account_info.owner() == program_id && !account_info.data_is_empty() {
            let data = account_info.try_borrow_data()?;
            if data[DISCRIMINATOR_INDEX] == u8::from(Discriminator::Asset)
                && data[STATE_INDEX] == u8::from(State::Locked)
            {
                // any locked asset can be used to determine if the
                // instruction is allowed
                return Ok(Some(account_info.key()));
            }
        }
    }
""", """    for account_info in accounts.iter() {
        if account_info.owner() != program_id || account_info.data_is_empty() {
            continue;
        }
        if is_locked(&account_info.try_borrow_data()?) {
            return Ok(Some(account_info.key()));
        }
    }
"""), (PR + "mod.rs", """    /// Index of the discriminator byte.
    const DISCRIMINATOR_INDEX: usize = 0;
    /// Index of the asset state byte.
    const STATE_INDEX: usize = 1;
""", ""), (PR + "mod.rs", "/// Checks if the instruction's accounts contain", """fn is_locked(data: &[u8]) -> bool {
    data[0] == u8::from(Discriminator::Asset) && data[1] == u8::from(State::Locked)
}

/// Checks if the instruction's accounts contain""")], ["Transfer", "Burn", "Lock", "Approve", "Revoke", "Group", "Update"]),
 "write-simplify": ([(PR + "write.rs", """    let offset = if data.overwrite {
        #[cfg(feature = "logging")]
        msg!("Overwriting extension data");

        resize(
            offset.saturating_add(data.bytes.len()),
            ctx.accounts.asset,
            Some(ctx.accounts.payer),
            Some(ctx.accounts.system_program),
        )?;
        // when overwriting, we start from the beginning of the offset
        offset
    } else {
        #[cfg(feature = "logging")]
        msg!("Appending extension data");

        let offset = ctx.accounts.asset.data_len();
        let mut extended = offset.saturating_add(data.bytes.len());

        if extended == expected {
            extended = boundary as usize;
        }

        resize(
            extended,
            ctx.accounts.asset,
            Some(ctx.accounts.payer),
            Some(ctx.accounts.system_program),
        )?;
        // the offset is the end of the account
        offset
    };
""", """    let start = if data.overwrite {
        offset
    } else {
        ctx.accounts.asset.data_len()
    };
    let size = match start + data.bytes.len() {
        end if !data.overwrite && end == expected => boundary as usize,
        end => end,
    };
    resize(
        size,
        ctx.accounts.asset,
        Some(ctx.accounts.payer),
        Some(ctx.accounts.system_program),
    )?;
    let offset = start;
""")], ["Write"]),
 "allocate-split": ([(PR + "allocate.rs", """    if !exists {
        create_account(ctx, extended)?;
    } else if extended > ctx.accounts.asset.data_len()
        || (partial && extended < ctx.accounts.asset.data_len())
    {
        resize(
            extended,
            ctx.accounts.asset,
            ctx.accounts.payer,
            ctx.accounts.system_program,
        )?;
    }
""", """    if exists {
        let current = ctx.accounts.asset.data_len();
        let needs_resize = if partial { extended != current } else { extended > current };
        if needs_resize {
            resize(
                extended,
                ctx.accounts.asset,
                ctx.accounts.payer,
                ctx.accounts.system_program,
            )?;
        }
    } else {
        create_account(ctx, extended)?;
    }
"""), (PR + "allocate.rs", """    extension.set_extension_type(args.extension_type);
    extension.set_length(args.length);
    extension.set_boundary(boundary as u32);

    if !data.is_empty() {
        sol_memcpy(&mut asset_data[offset + Extension::LEN..], data, data.len());
    }
""", """    extension.set_boundary(boundary as u32);
    extension.set_length(args.length);
    extension.set_extension_type(args.extension_type);

    let start = offset + Extension::LEN;
    asset_data[start..start + data.len()].copy_from_slice(data);
""")], ["Allocate", "Create"]),
}
# swap_remove(0) visits the extensions in a different order than a for loop: not an equivalent edit
del REFS["create-ext-for"]
