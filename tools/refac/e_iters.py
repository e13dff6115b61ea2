PR = "programs/asset/program/src/processor/"
CR = "programs/asset/types/src/extensions/creators.rs"
V = """    extension.creators.iter_mut().for_each(|creator| {
        if creator.address == *ctx.accounts.creator.key() {
            creator.verified = true.into();
            found = true;
        }
    });
"""
REFS = {}
REFS["it-verify-filter"] = ([(PR + "verify.rs", V, """    for creator in extension
        .creators
        .iter_mut()
        .filter(|creator| creator.address == *ctx.accounts.creator.key())
    {
        creator.verified = true.into();
        found = true;
    }
""")], ["Verify"])
REFS["it-verify-while"] = ([(PR + "verify.rs", V, """    let mut creators = extension.creators.iter_mut();
    while let Some(creator) = creators.next() {
        if creator.address != *ctx.accounts.creator.key() {
            continue;
        }
        creator.verified = true.into();
        found = true;
    }
""")], ["Verify"])
REFS["it-verify-loop"] = ([(PR + "verify.rs", V, """    let mut index = 0;
    loop {
        if index == extension.creators.len() {
            break;
        }
        let creator = &mut extension.creators[index];
        if creator.address == *ctx.accounts.creator.key() {
            creator.verified = true.into();
            found = true;
        }
        index += 1;
    }
""")], ["Verify"])
REFS["it-verify-enumerate"] = ([(PR + "verify.rs", V, """    for (_index, creator) in extension.creators.iter_mut().enumerate() {
        if &creator.address == ctx.accounts.creator.key() {
            creator.verified = true.into();
            found = true;
        }
    }
""")], ["Verify"])
REFS["it-verify-fold"] = ([(PR + "verify.rs", """    let mut found = false;

""" + V, """    let found = extension.creators.iter_mut().fold(false, |found, creator| {
        if creator.address == *ctx.accounts.creator.key() {
            creator.verified = true.into();
            true
        } else {
            found
        }
    });
""")], ["Verify"])
C = """        let mut total = 0;

        self.creators.iter_mut().for_each(|creator| {
            // creators are always initialized as unverified, unless it matches
            // the authority
            creator.verified = if let Some(authority) = authority {
                (authority == &creator.address).into()
            } else {
                false.into()
            };
            total = creator.share.saturating_add(total);
        });
"""
REFS["it-create-two"] = ([(CR, C, """        for creator in self.creators.iter_mut() {
            // creators are always initialized as unverified, unless it matches
            // the authority
            creator.verified = authority
                .map(|authority| *authority == creator.address)
                .unwrap_or(false)
                .into();
        }

        let total = self
            .creators
            .iter()
            .fold(0u8, |total, creator| total.saturating_add(creator.share));
""")], None)
U = """        for creator in self.creators.iter() {
            // if the creator is verified, it must be present in
            // the other list
            if creator.verified.into() {
                if let Some(updated) = other.get(&creator.address) {
                    // sanity check: the creator must have already been verified
                    // on the above closure
                    if !<PodBool as Into<bool>>::into(updated.verified) {
                        return Err(Error::CannotUnverifyCreator);
                    }
                } else {
                    // cannot remove a verified creator
                    return Err(Error::CannotRemoveVerifiedCreator);
                }
            }
        }

        Ok(())
"""
REFS["it-update-tryforeach"] = ([(CR, U, """        self.creators.iter().try_for_each(|creator| {
            if !<PodBool as Into<bool>>::into(creator.verified) {
                return Ok(());
            }
            match other.get(&creator.address) {
                Some(updated) if updated.verified.into() => Ok(()),
                Some(_) => Err(Error::CannotUnverifyCreator),
                // cannot remove a verified creator
                None => Err(Error::CannotRemoveVerifiedCreator),
            }
        })
""")], None)
REFS["it-update-filter"] = ([(CR, U, """        for creator in self
            .creators
            .iter()
            .filter(|creator| creator.verified.into())
        {
            let updated = other
                .get(&creator.address)
                .ok_or(Error::CannotRemoveVerifiedCreator)?;
            if !<PodBool as Into<bool>>::into(updated.verified) {
                return Err(Error::CannotUnverifyCreator);
            }
        }

        Ok(())
""")], None)
