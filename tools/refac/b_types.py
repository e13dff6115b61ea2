T = "programs/asset/types/src/"
PR = "programs/asset/program/src/processor/"
C = T + "extensions/creators.rs"
G = T + "extensions/grouping.rs"
LIFE = ["Verify", "Update"]
REFS = {
 "creators-for": ([(C, """        self.creators.iter_mut().for_each(|creator| {
            // creators are always initialized as unverified, unless it matches
            // the authority
            creator.verified = if let Some(authority) = authority {
                (authority == &creator.address).into()
            } else {
                false.into()
            };
            total = creator.share.saturating_add(total);
        });

        if total != TOTAL_SHARE {
            Err(Error::InvalidCreatorsTotalShare(TOTAL_SHARE, total))
        } else {
            Ok(())
        }
""", """        for creator in self.creators.iter_mut() {
            let is_authority = match authority {
                Some(authority) => creator.address == *authority,
                None => false,
            };
            creator.verified = PodBool::from(is_authority);
            total = creator.share.saturating_add(total);
        }

        if total == TOTAL_SHARE {
            return Ok(());
        }
        Err(Error::InvalidCreatorsTotalShare(TOTAL_SHARE, total))
""")], LIFE),
 "creators-verified-helper": ([(C, """                creator.verified = if let Some(authority) = authority {
                    (authority == &creator.address).into()
                } else {
                    false.into()
                };
            }
            total""", """                creator.verified = is_authority(authority, &creator.address).into();
            }
            total"""), (C, "impl Lifecycle for CreatorsMut<'_> {", """fn is_authority(authority: Option<&Pubkey>, address: &Pubkey) -> bool {
    authority.map_or(false, |authority| authority == address)
}

impl Lifecycle for CreatorsMut<'_> {"""), (C, """            if creator.verified.into() {
                if let Some(updated) = other.get(&creator.address) {
                    // sanity check: the creator must have already been verified
                    // on the above closure
                    if !<PodBool as Into<bool>>::into(updated.verified) {
                        return Err(Error::CannotUnverifyCreator);
                    }
                } else {
                    // cannot remove a verified creator
                    return Err(Error::CannotRemoveVerifiedCreator);
                }
            }
""", """            let verified: bool = creator.verified.into();
            if !verified {
                continue;
            }
            let updated = other
                .get(&creator.address)
                .ok_or(Error::CannotRemoveVerifiedCreator)?;
            if !bool::from(updated.verified) {
                return Err(Error::CannotUnverifyCreator);
            }
""")], LIFE),
 "creators-get-loop": ([(C, """        self.creators
            .iter_mut()
            .find(|&&mut creator| &creator.address == address)
""", """        for creator in self.creators.iter_mut() {
            if creator.address == *address {
                return Some(creator);
            }
        }
        None
""")], LIFE),
 "creators-share-sep": ([(C, """            total = creator.share.saturating_add(total);
        });

        if total != 100 {
""", """        });
        let total = other
            .creators
            .iter()
            .fold(0u8, |total, creator| total.saturating_add(creator.share));

        if total != TOTAL_SHARE {
"""), (C, """        let mut total = 0;
        other.creators.iter_mut()""", """        other.creators.iter_mut()""")], LIFE),
 "grouping-cond": ([(G, """        if *self.size > 0 {
            Err(Error::InvalidGroupSize)
        } else {
            Ok(())
        }
""", """        match *self.size {
            0 => Ok(()),
            _ => Err(Error::InvalidGroupSize),
        }
"""), (G, """        // size cannot be updated
        *other.size = *self.size;

        if let Some(max_size) = other.max_size.value() {
            // it cannot update the max size to be lower than the current size
            if **max_size < *other.size {
                return Err(Error::InvalidMaximumGroupSize(*other.size, **max_size));
            }
        }

        Ok(())
""", """        let size = *self.size;
        match other.max_size.value() {
            Some(max_size) if **max_size < size => {
                return Err(Error::InvalidMaximumGroupSize(size, **max_size));
            }
            _ => (),
        }
        // size cannot be updated
        *other.size = size;
        Ok(())
""")], ["Group", "Ungroup", "Burn", "Update"]),
 "grouping-from-bytes": ([(G, """        let (size, rest) = bytes.split_at_mut(std::mem::size_of::<u64>());
        let (max_size, delegate) = rest.split_at_mut(std::mem::size_of::<u64>());
""", """        const U64: usize = std::mem::size_of::<u64>();
        let (head, delegate) = bytes.split_at_mut(2 * U64);
        let (size, max_size) = head.split_at_mut(U64);
""")], ["Group", "Ungroup", "Burn", "Update"]),
 "mask-match": ([(T + "state/delegate.rs", """        match *self {
            DelegateRole::None => 0,
            _ => 0b1u8 << ((*self as u8) - 1),
        }
""", """        match self {
            DelegateRole::None => 0b000,
            DelegateRole::Transfer => 0b001,
            DelegateRole::Lock => 0b010,
            DelegateRole::Burn => 0b100,
        }
"""), (T + "state/delegate.rs", "self.roles & role.mask() > 0", "self.roles & role.mask() != 0"), (T + "state/delegate.rs", "self.roles &= !role.mask();", "let mask = role.mask();\n        self.roles &= u8::MAX ^ mask;")], ["Approve", "Revoke", "Transfer", "Lock", "Burn", "Unlock"]),
 "mask-table": ([(T + "state/delegate.rs", """        match *self {
            DelegateRole::None => 0,
            _ => 0b1u8 << ((*self as u8) - 1),
        }
""", """        (1u8 << (*self as u8)) >> 1
""")], ["Approve", "Revoke", "Transfer", "Lock", "Burn", "Unlock"]),
 "lookup-helper": ([(T + "extensions/mod.rs", """    pub fn get<'a, T: ExtensionData<'a>>(data: &'a [u8]) -> Option<T> {
        let mut cursor = 0;

        while (cursor + Extension::LEN) <= data.len() {
            let extension = Extension::load(&data[cursor..cursor + Extension::LEN]);

            match extension.try_extension_type() {
                Ok(t) if t == T::TYPE => {
                    let start = cursor + Extension::LEN;
                    let end = start + extension.length() as usize;
                    return Some(T::from_bytes(&data[start..end]));
                }
                Ok(ExtensionType::None) => return None,
                _ => cursor = extension.boundary() as usize - Asset::LEN,
            }
        }

        None
    }
""", """    pub fn get<'a, T: ExtensionData<'a>>(data: &'a [u8]) -> Option<T> {
        let (start, end) = Self::find(T::TYPE, data)?;
        Some(T::from_bytes(&data[start..end]))
    }

    fn find(extension_type: ExtensionType, data: &[u8]) -> Option<(usize, usize)> {
        let mut cursor = 0;
        loop {
            if data.len() < cursor + Extension::LEN {
                return None;
            }
            let extension = Extension::load(&data[cursor..cursor + Extension::LEN]);
            let current = extension.try_extension_type();
            if let Ok(t) = current {
                if t == extension_type {
                    let start = cursor + Extension::LEN;
                    return Some((start, start + extension.length() as usize));
                }
                if t == ExtensionType::None {
                    return None;
                }
            }
            cursor = extension.boundary() as usize - Asset::LEN;
        }
    }
""")], ["Transfer", "Lock", "Burn"]),
 "lookup-asset-get": ([(T + "state/asset.rs", """                Ok(t) if t == T::TYPE => {
                    let start = cursor + Extension::LEN;
                    let end = start + extension.length() as usize;
                    return Some(T::from_bytes(&data[start..end]));
                }
                Ok(ExtensionType::None) => return None,
                _ => cursor = extension.boundary() as usize,
            }
        }

        None
    }

    /// Returns a mutable""", """                Ok(ExtensionType::None) => break,
                Ok(t) if t == T::TYPE => {
                    let length = extension.length() as usize;
                    let (_, remainder) = data.split_at(cursor + Extension::LEN);
                    return Some(T::from_bytes(&remainder[..length]));
                }
                Ok(_) | Err(_) => (),
            }
            cursor = extension.boundary() as usize;
        }

        None
    }

    /// Returns a mutable""")], ["Transfer", "Create", "Burn"]),
 "u8-from-cast": ([(T + "state/mod.rs", """        match value {
            State::Unlocked => 0,
            State::Locked => 1,
        }
""", "        value as u8\n"), (T + "state/mod.rs", """        match value {
            Discriminator::Uninitialized => 0,
            Discriminator::Asset => 1,
        }
""", "        value as u8\n"), (T + "extensions/mod.rs", """        self.data[0].try_into().unwrap()
""", """        match self.try_extension_type() {
            Ok(extension_type) => extension_type,
            Err(_) => panic!("invalid extension type"),
        }
""")], None),
 "ext-header-struct": ([(T + "extensions/mod.rs", "        self.data[1] = length;", "        let [_, slot, _, _] = &mut self.data;\n        *slot = length;"), (T + "extensions/mod.rs", """        self.data[2]
""", """        let [_, _, boundary, _] = self.data;
        boundary
""")], ["Update", "Remove", "Allocate", "Write"]),
}
