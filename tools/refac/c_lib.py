T = "programs/asset/types/src/"
X = T + "extensions/"
K = T + "constraints/"
A = T + "state/asset.rs"
NO = []
GET_BODY = """        let mut cursor = Asset::LEN;

        while (cursor + Extension::LEN) <= data.len() {
            let extension = Extension::load(&data[cursor..cursor + Extension::LEN]);

            match extension.try_extension_type() {
                Ok(t) if t == T::TYPE => {
                    let start = cursor + Extension::LEN;
                    let end = start + extension.length() as usize;
                    return Some(T::from_bytes(&data[start..end]));
                }
                Ok(ExtensionType::None) => return None,
                _ => cursor = extension.boundary() as usize,
            }
        }

        None
    }
"""
CONTAINS = """        let mut cursor = Asset::LEN;

        while (cursor + Extension::LEN) <= data.len() {
            let extension = Extension::load(&data[cursor..cursor + Extension::LEN]);

            match extension.try_extension_type() {
                Ok(t) if t == extension_type => return true,
                Ok(ExtensionType::None) => return false,
                _ => cursor = extension.boundary() as usize,
            }
        }

        false
    }
"""
ATTR_ADD = """        // add the length of the name + prefix to the data buffer.
        let cursor = self.0.len();
        self.0.append(&mut vec![0u8; name.len() + 1]);
        let mut name_str = U8PrefixStrMut::new(&mut self.0[cursor..]);
        name_str.copy_from_str(name);

        // add the length of the value + prefix to the data buffer.
        let cursor = self.0.len();
        self.0.append(&mut vec![0u8; value.len() + 1]);
        let mut value_str = U8PrefixStrMut::new(&mut self.0[cursor..]);
        value_str.copy_from_str(value);

        self
    }
}

impl<'a> ExtensionBuilder<'a, Attributes<'a>>"""
ATTR_READ = """        let mut cursor = 0;
        let mut values = Vec::with_capacity(DEFAULT_CAPACITY);

        while cursor < bytes.len() {
            let t = Trait::from_bytes(&bytes[cursor..]);
            cursor += t.length();
            values.push(t);
        }
        Self { values }
"""
AND_ASSERT = """        for constraint in &self.constraints {
            let result = constraint.assert(context)?;
            if result == Assertion::Failure {
                return Ok(result);
            }
        }

        Ok(Assertion::Pass)
"""
OR_ASSERT = """        let mut last = Assertion::Failure;

        for constraint in &self.constraints {
            let result = constraint.assert(context)?;
            match result {
                Assertion::Pass => return Ok(result),
                Assertion::Failure => last = result,
            }
        }

        Ok(last)
"""
OWNED_ASSERT = """        Ok(
            if self.owners.contains(account.owner()) && !account.is_empty() {
                Assertion::Pass
            } else {
                Assertion::Failure
            },
        )
"""
REFS = {
 "lib-get-via-getext": ([(A, GET_BODY, """        let (extension, start) = Self::get_extension(T::TYPE, data)?;
        let end = start + extension.length() as usize;
        Some(T::from_bytes(&data[start..end]))
    }
""")], ["Transfer", "Close", "Group"]),
 "lib-contains-via-getext": ([(A, CONTAINS, """        Self::get_extension(extension_type, data).is_some()
    }
""")], ["Transfer", "Update", "Allocate"]),
 "lib-contains-loop": ([(A, CONTAINS, """        let mut cursor = Asset::LEN;

        loop {
            if data.len() < cursor + Extension::LEN {
                return false;
            }
            let extension = Extension::load(&data[cursor..]);
            if let Ok(t) = extension.try_extension_type() {
                if t == extension_type {
                    return true;
                }
                if t == ExtensionType::None {
                    return false;
                }
            }
            cursor = extension.boundary() as usize;
        }
    }
""")], ["Transfer", "Update", "Allocate"]),
 "lib-attr-add-helper": ([(X + "attributes.rs", ATTR_ADD, """        self.push_str(name);
        self.push_str(value);

        self
    }

    fn push_str(&mut self, text: &str) {
        let cursor = self.0.len();
        self.0.resize(cursor + text.len() + 1, 0);
        U8PrefixStrMut::new(&mut self.0[cursor..]).copy_from_str(text);
    }
}

impl<'a> ExtensionBuilder<'a, Attributes<'a>>""")], NO),
 "lib-attr-add-bytes": ([(X + "attributes.rs", ATTR_ADD, """        for text in [name, value] {
            self.0.push(text.len() as u8);
            self.0.extend_from_slice(text.as_bytes());
        }

        self
    }
}

impl<'a> ExtensionBuilder<'a, Attributes<'a>>""")], NO),
 "lib-attr-read-rest": ([(X + "attributes.rs", ATTR_READ, """        let mut rest = bytes;
        let mut values = Vec::with_capacity(DEFAULT_CAPACITY);

        while !rest.is_empty() {
            let t = Trait::from_bytes(rest);
            rest = &rest[t.length()..];
            values.push(t);
        }
        Self { values }
""")], NO),
 "lib-attr-read-loop": ([(X + "attributes.rs", ATTR_READ, """        let mut values = Vec::new();
        let mut start = 0usize;

        loop {
            if start >= bytes.len() {
                break;
            }
            let (_, tail) = bytes.split_at(start);
            let t = Trait::from_bytes(tail);
            start = start + t.length();
            values.push(t);
        }
        Self { values }
""")], NO),
 "lib-and-fold": ([(K + "and.rs", AND_ASSERT, """        let mut iter = self.constraints.iter();
        while let Some(constraint) = iter.next() {
            match constraint.assert(context)? {
                Assertion::Pass => continue,
                Assertion::Failure => return Ok(Assertion::Failure),
            }
        }

        Ok(Assertion::Pass)
""")], NO),
 "lib-and-index": ([(K + "and.rs", AND_ASSERT, """        let mut i = 0;
        while i < self.constraints.len() {
            if self.constraints[i].assert(context)? == Assertion::Failure {
                return Ok(Assertion::Failure);
            }
            i += 1;
        }

        Ok(Assertion::Pass)
""")], NO),
 "lib-or-simple": ([(K + "or.rs", OR_ASSERT, """        for constraint in self.constraints.iter() {
            if constraint.assert(context)? == Assertion::Pass {
                return Ok(Assertion::Pass);
            }
        }

        Ok(Assertion::Failure)
""")], NO),
 "lib-owned-match": ([(K + "owned_by.rs", OWNED_ASSERT, """        let listed = self.owners.iter().any(|owner| owner == account.owner());

        match (listed, account.is_empty()) {
            (true, false) => Ok(Assertion::Pass),
            _ => Ok(Assertion::Failure),
        }
""")], NO),
 "lib-owned-early": ([(K + "owned_by.rs", OWNED_ASSERT, """        if account.is_empty() {
            return Ok(Assertion::Failure);
        }
        for owner in self.owners {
            if owner == account.owner() {
                return Ok(Assertion::Pass);
            }
        }
        Ok(Assertion::Failure)
""")], NO),
 "lib-not-if": ([(K + "not.rs", """        match self.constraint.assert(context)? {
            Assertion::Pass => Ok(Assertion::Failure),
            Assertion::Failure => Ok(Assertion::Pass),
        }
""", """        let result = self.constraint.assert(context)?;
        Ok(if result == Assertion::Pass {
            Assertion::Failure
        } else {
            Assertion::Pass
        })
""")], NO),
 "lib-ownedby-set-for": ([(K + "owned_by.rs", """        addresses.iter().for_each(|address| {
            self.0.extend_from_slice(address.as_ref());
        });
""", """        for address in addresses {
            self.0.extend_from_slice(&address.to_bytes());
        }
""")], NO),
 "lib-ownedby-set-cast": ([(K + "owned_by.rs", """        addresses.iter().for_each(|address| {
            self.0.extend_from_slice(address.as_ref());
        });
""", """        self.0.extend_from_slice(bytemuck::cast_slice(addresses));
""")], NO),
 "lib-and-header-helper": ([(K + "and.rs", """        // manual byte wrangling because bytemuck doesn't work with newly
        // allocated Vec in BPF.
        self.0[0..4].copy_from_slice(&u32::to_le_bytes(OperatorType::And as u32));
        self.0[4..8].copy_from_slice(&u32::to_le_bytes(length as u32));
""", """        write_operator(&mut self.0, OperatorType::And, length);
"""), (K + "and.rs", "impl AndBuilder {", """fn write_operator(bytes: &mut [u8], operator: OperatorType, length: usize) {
    let (kind, rest) = bytes.split_at_mut(4);
    kind.copy_from_slice(&(operator as u32).to_le_bytes());
    rest[..4].copy_from_slice(&(length as u32).to_le_bytes());
}

impl AndBuilder {""")], NO),
 "lib-metadata-helper": ([(X + "metadata.rs", """        if let Some(symbol) = symbol {
            self.0.append(&mut vec![0u8; symbol.len() + 1]);
            let mut symbol_str = U8PrefixStrMut::new(&mut self.0[cursor..]);
            symbol_str.copy_from_str(symbol);
        } else {
            self.0.append(&mut vec![0u8; 1]);
        }
""", """        let symbol = symbol.unwrap_or("");
        self.0.append(&mut vec![0u8; symbol.len() + 1]);
        U8PrefixStrMut::new(&mut self.0[cursor..]).copy_from_str(symbol);
"""), (X + "metadata.rs", """        if let Some(uri) = uri {
            self.0.append(&mut vec![0u8; uri.len() + 1]);
            let mut uri_str = U8PrefixStrMut::new(&mut self.0[cursor..]);
            uri_str.copy_from_str(uri);
        } else {
            self.0.append(&mut vec![0u8; 1]);
        }
""", """        match uri {
            None => self.0.push(0),
            Some(text) => {
                self.0.resize(cursor + text.len() + 1, 0);
                U8PrefixStrMut::new(&mut self.0[cursor..]).copy_from_str(text);
            }
        }
""")], NO),
 "lib-creators-end": ([(X + "creators.rs", """        self.data
            .append(&mut vec![0u8; std::mem::size_of::<Creator>()]);
        let offset = self.count as usize * std::mem::size_of::<Creator>();

        let creator = Creator::load_mut(&mut self.data[offset..]);
        creator.address = *addresss;
        creator.verified = verified.into();
        creator.share = share;
""", """        let size = std::mem::size_of::<Creator>();
        self.data.extend_from_slice(&vec![0u8; size]);
        let offset = size * self.count as usize;

        let creator = Creator::load_mut(&mut self.data[offset..offset + size]);
        creator.share = share;
        creator.verified = verified.into();
        creator.address = *addresss;
""")], NO),
 "lib-grouping-unwrap": ([(X + "grouping.rs", """        if let Some(delegate) = delegate {
            self.0.extend_from_slice(delegate.as_ref());
        } else {
            self.0.extend_from_slice(Pubkey::default().as_ref());
        }
""", """        let delegate = delegate.copied().unwrap_or_default();
        self.0.extend_from_slice(delegate.as_ref());
"""), (X + "grouping.rs", """        let (size, rest) = bytes.split_at(std::mem::size_of::<u64>());
        let (max_size, delegate) = rest.split_at(std::mem::size_of::<u64>());

        Self {
            size: bytemuck::from_bytes(size),
            max_size: bytemuck::from_bytes(max_size),
""", """        let size = &bytes[..8];
        let max_size = &bytes[8..16];
        let delegate = &bytes[16..];

        Self {
            size: bytemuck::from_bytes(size),
            max_size: bytemuck::from_bytes(max_size),
""")], ["Group", "Create"]),
 "lib-royalties-index": ([(X + "royalties.rs", """        let (basis_points, constraint) = bytes.split_at(std::mem::size_of::<u64>());

        let basis_points = bytemuck::from_bytes(basis_points);
        let constraint = Constraint::from_bytes(constraint);

        Self {
            basis_points,
            constraint,
        }
""", """        const POINTS: usize = std::mem::size_of::<u64>();
        Self {
            basis_points: bytemuck::from_bytes(&bytes[0..POINTS]),
            constraint: Constraint::from_bytes(&bytes[POINTS..]),
        }
""")], ["Transfer"]),
 "lib-constraint-index": ([(K + "mod.rs", """        let (operator, assertable) = bytes.split_at(std::mem::size_of::<Operator>());
        let operator = Operator::load(operator);

        let operator_type = operator.operator_type();
        let length = operator.size() as usize;

        let assertable = assertable_from_bytes!(
            operator_type,
            &assertable[..length],
""", """        let operator = Operator::load(&bytes[..std::mem::size_of::<Operator>()]);

        let operator_type = operator.operator_type();
        let start = std::mem::size_of::<Operator>();
        let end = start + operator.size() as usize;

        let assertable = assertable_from_bytes!(
            operator_type,
            &bytes[start..end],
"""), (K + "mod.rs", """        let mut bytes = Vec::with_capacity(self.size());
        bytes.extend_from_slice(bytemuck::bytes_of(self.operator));
        bytes.extend_from_slice(self.assertable.as_bytes().as_ref());
        bytes
""", """        let mut bytes = bytemuck::bytes_of(self.operator).to_vec();
        let payload = self.assertable.as_bytes();
        bytes.extend_from_slice(&payload);
        bytes
""")], ["Transfer"]),
 "lib-props-helper": ([(X + "properties.rs", """    pub fn add<T: TypedValue>(&mut self, name: &str, value: T) -> &mut Self {
        // add the length of the name + prefix to the data buffer.
        let cursor = self.0.len();
        self.0.append(&mut vec![0u8; name.len() + 1]);
        let mut name_str = U8PrefixStrMut::new(&mut self.0[cursor..]);
        name_str.copy_from_str(name);

        // add the value type
        self.0.push(T::TYPE.into());
        // add the value
        value.write_to(&mut self.0);

        self
    }
""", """    pub fn add<T: TypedValue>(&mut self, name: &str, value: T) -> &mut Self {
        Self::write_name(&mut self.0, name);
        let kind: u8 = T::TYPE.into();
        self.0.push(kind);
        value.write_to(&mut self.0);

        self
    }

    fn write_name(buffer: &mut Vec<u8>, name: &str) {
        let at = buffer.len();
        buffer.resize(at + 1 + name.len(), 0);
        let mut text = U8PrefixStrMut::new(&mut buffer[at..]);
        text.copy_from_str(name);
    }
""")], NO),
 "lib-getmut-split": ([(A, """                    let start = cursor + Extension::LEN;
                    let end = start + extension.length() as usize;
                    return Some(T::from_bytes_mut(&mut data[start..end]));
""", """                    let length = extension.length() as usize;
                    let (_, rest) = data.split_at_mut(cursor + Extension::LEN);
                    return Some(T::from_bytes_mut(&mut rest[..length]));
""")], ["Group", "Verify"]),
 "lib-getexts-match": ([(A, """            if let Ok(t) = extension.try_extension_type() {
                if matches!(t, ExtensionType::None) {
                    return extensions;
                }
                extensions.push(t);
            }

            cursor = extension.boundary() as usize;
""", """            match extension.try_extension_type() {
                Ok(ExtensionType::None) => break,
                Ok(t) => extensions.push(t),
                Err(_) => (),
            }

            cursor = extension.boundary() as usize;
""")], NO),
}
