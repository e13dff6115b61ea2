#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = "programs/asset/program/src/processor/"
T = "programs/asset/types/src/"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
props = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None}})


HDR = [("asset header", "owner, group, authority, delegate, state, standard, mutable, name", T + "state/asset.rs")]
NOPROG = ("The stable tests only exercise the types crate and program ids; no on-chain handler runs in them "
          "(the SBF tests need a validator), and even those sample a handful of accounts and signers.")

prop("C01", "Ownership moves only with the owner's or a transfer delegate's signature",
     "A transfer instruction changes an asset's owner only if an account that signed is the current owner, or is the "
     "asset's delegate or the manager's delegate with the transfer role active. When the owner changes, the new owner is "
     "exactly the recipient account given and the asset's delegate is cleared in the same instruction; a transfer to the "
     "current owner changes nothing. A transfer changes nothing else on the asset.",
     ["inputs", "histories"], "every account list, signer set, delegate configuration and account content",
     NOPROG, [P + "transfer.rs", "programs/asset/program/src/utils.rs", T + "state/delegate.rs"],
     [("signer/owner/delegate test before the owner is written", P + "transfer.rs process_transfer"),
      ("delegate address and role test", "programs/asset/program/src/utils.rs assert_delegate")], HDR,
     ["Ok result of the Transfer instruction and the asset account's bytes"])

prop("C02", "A locked asset cannot be transferred, burned, delegated or re-locked",
     "While an initialized asset among the accounts of an instruction is locked, transfer, burn, approve, revoke and lock "
     "instructions on it are rejected and leave every account unchanged. Only an unlock instruction takes an asset out of "
     "the locked state, and only a lock instruction puts it there.",
     ["inputs", "histories"], "every instruction, account list and asset state",
     NOPROG, [P + "mod.rs", P + "lock.rs", P + "unlock.rs"],
     [("locked-asset gate ahead of dispatch", P + "mod.rs process_instruction/validate_access")], HDR,
     ["instruction results on locked assets; state byte of the asset"])

prop("C03", "Soulbound assets never change owner after creation",
     "Once an asset has been created with the soulbound standard, no instruction changes its owner, whoever signs. The "
     "standard of an asset is fixed at creation.",
     ["inputs", "histories"], "every instruction sequence after creation",
     NOPROG, [P + "transfer.rs", P + "create.rs"],
     [("soulbound refusal before the owner is written", P + "transfer.rs")], HDR,
     ["owner and standard bytes of the asset account"])

prop("C04", "Immutable assets cannot be updated, resized, stripped or handed over",
     "Once an asset is marked immutable, update, extension removal, resize and authority handover instructions on it are "
     "rejected, and the asset can never become mutable again.",
     ["inputs", "histories"], "every instruction sequence on an immutable asset",
     NOPROG, [P + f for f in ("update.rs", "remove.rs", "resize.rs", "handover.rs")],
     [("mutability test in each handler", P + "update.rs, remove.rs, resize.rs, handover.rs")], HDR,
     ["results of the four instructions; mutable byte, name, authority and extension bytes"])

prop("C05", "Metadata changes need the authority's signature; handover needs both",
     "An asset's name, mutability, extensions and account size change only when the asset's current authority has signed "
     "the instruction. The authority itself changes only through a handover signed by both the current and the new "
     "authority, and becomes exactly the new authority account.",
     ["inputs", "histories"], "every account list and signer set",
     NOPROG, [P + f for f in ("update.rs", "remove.rs", "resize.rs", "handover.rs")],
     [("authority signature and match test", P + "update.rs, remove.rs, resize.rs, handover.rs")], HDR,
     ["authority, name, mutable bytes and extension area of the asset account"])

prop("C06", "Only genuine initialized assets are acted on, and only by their program",
     "Every instruction that acts on an existing asset (or group) rejects an account that is not owned by the asset "
     "program, or whose data is too short or not marked as an initialized asset, before any change takes effect. No "
     "instruction changes the data of an account that is not one of the accounts it documents as writable.",
     ["inputs"], "every account list, including forged, short, empty and foreign accounts",
     NOPROG, [P + "mod.rs"] + [P + f for f in ("approve.rs", "burn.rs", "group.rs", "handover.rs", "lock.rs", "remove.rs",
                                              "resize.rs", "revoke.rs", "transfer.rs", "ungroup.rs", "unlock.rs",
                                              "unverify.rs", "update.rs", "verify.rs")],
     [("owner / length / discriminator checks at the head of each handler", P)], HDR,
     ["results on forged accounts; which accounts' data changed"])

prop("C07", "Only the owner grants delegation; grant and revoke set exactly the roles asked",
     "A delegate is set, or given roles, only when the asset's owner signs; approving the current delegate adds the "
     "requested roles to those it has, approving any other account replaces the delegate with exactly the requested "
     "roles. Only the owner or the current delegate can revoke: revoking everything, or the last active role, removes the "
     "delegate, and revoking some roles leaves the others unchanged. Each role is independent of the others.",
     ["inputs", "histories"], "every role list, delegate state and signer",
     NOPROG + " Role decoding alone is sampled by one unit test.", [P + "approve.rs", P + "revoke.rs", T + "state/delegate.rs"],
     [("owner/delegate checks and role mask updates", P + "approve.rs, revoke.rs"),
      ("role masks", T + "state/delegate.rs")], HDR, ["delegate bytes of the asset account"])

prop("C08", "Lock and unlock need the lock delegate, or the owner when there is none",
     "An asset's lock state changes only when the signer is a delegate of the asset or its manager's delegate with the lock "
     "role active, or, only when the asset has no delegate, its owner. Locking sets exactly the locked state and unlocking "
     "exactly the unlocked state, and neither changes anything else.",
     ["inputs", "histories"], "every signer, delegate and manager configuration",
     NOPROG, [P + "lock.rs", P + "unlock.rs", "programs/asset/program/src/utils.rs"],
     [("delegate-or-owner test", P + "lock.rs, unlock.rs")], HDR, ["state byte of the asset account"])

prop("C09", "Burning is authorised, keeps group counts right and closes the account fully",
     "An asset is burned only when its owner, or its delegate or manager's delegate with the burn role active, signs, and "
     "never while it is a non-empty group. Burning a grouped asset requires its own group's account and lowers that "
     "group's size by one. The burned account's whole balance goes to the recipient (or the signer when none is given), "
     "its data is emptied and it is returned to the system program.",
     ["inputs", "histories"], "every account list, signer and group state",
     NOPROG, [P + "burn.rs", "programs/asset/program/src/utils.rs"],
     [("burn authority test, group decrement, empty-group test", P + "burn.rs"),
      ("account closing", "programs/asset/program/src/utils.rs close_program_account")], HDR,
     ["lamports, data and owner of the burned account; size field of the group"])

prop("C10", "A group's size always equals the number of assets that point to it",
     "Adding an asset to a group sets that asset's group to exactly that group and raises the group's size by one; removing "
     "or burning it clears the membership and lowers the same group's size by one; nothing else changes a group's size or an "
     "asset's membership. An asset already in a group cannot be added again, an asset can only be removed from the group it "
     "is in, and a group with a maximum size never exceeds it.",
     ["inputs", "histories"], "every sequence of group, ungroup, burn, create, update and remove instructions",
     NOPROG, [P + "group.rs", P + "ungroup.rs", P + "burn.rs", P + "create.rs", P + "remove.rs", T + "extensions/grouping.rs"],
     [("membership/size updates in pairs", P + "group.rs, ungroup.rs, burn.rs"),
      ("size preserved by extension updates", T + "extensions/grouping.rs")],
     HDR + [("group size", "members of the group", T + "extensions/grouping.rs")],
     ["group field of the asset and size field of the group account"])

prop("C11", "Only the group's authority or its grouping delegate changes membership",
     "An asset enters or leaves a group only when the group's authority, or the delegate recorded in the group, signs. An "
     "asset can only be added to a group that has the same authority as the asset and carries the grouping data.",
     ["inputs"], "every signer, group and asset", NOPROG, [P + "group.rs", P + "ungroup.rs", P + "create.rs"],
     [("authority / delegate test", P + "group.rs, ungroup.rs")], HDR, ["group field of the asset account"])

prop("C12", "Royalty constraints gate every transfer that is not wallet to wallet",
     "When an asset carries a royalty constraint, or has none and its group does, a transfer that changes the owner succeeds "
     "only if the constraint passes for that asset, signer and recipient; the group's account must then be supplied and be "
     "genuine. The only exemption is a top-level transfer in which both the signer and the recipient accounts belong to the "
     "system program.",
     ["inputs", "configurations"], "every constraint tree, account owner and call depth",
     NOPROG, [P + "transfer.rs", "programs/asset/program/src/utils.rs"],
     [("royalty check on the asset, then on its group", P + "transfer.rs"),
      ("wallet-to-wallet exemption", "programs/asset/program/src/utils.rs process_royalties")], HDR,
     ["result of the Transfer instruction"])

prop("C13", "A creator is verified or unverified only by that creator's own signature",
     "On an existing asset a creator entry's verified flag changes only through a verify or unverify instruction signed by "
     "that creator, which touches no other creator's entry and fails when the signer is not listed. Updating the creators "
     "of an asset keeps every existing creator's flag, starts new creators unverified unless they are the signing authority, "
     "and cannot drop a verified creator; data written before creation never carries a verified creator in.",
     ["inputs", "histories"], "every creators list, update payload and signer",
     NOPROG, [P + "verify.rs", P + "unverify.rs", T + "extensions/creators.rs"],
     [("creator signature and address match", P + "verify.rs, unverify.rs"),
      ("flag carry-over on create/update", T + "extensions/creators.rs on_create/on_update")],
     [("verified flag", "per creator", T + "extensions/creators.rs")], ["creators extension bytes"])

prop("C14", "Extension data is validated for its own type before it is ever stored",
     "Extension data becomes part of an asset, at creation, through instruction data or through a buffer account, only after "
     "it passed the validation of exactly its extension type, run on exactly the bytes that are stored. Creator shares must "
     "total 100, royalty basis points must not exceed 10000, a new group starts at size zero, and an update neither changes "
     "a group's size nor sets its maximum below it.",
     ["inputs", "histories"], "every extension type, payload and path (create, write, update, buffer)",
     NOPROG, [P + "create.rs", P + "update.rs", P + "write.rs", T + "extensions/mod.rs", T + "extensions/creators.rs",
              T + "extensions/royalties.rs", T + "extensions/grouping.rs"],
     [("lifecycle hooks dispatched by type", T + "extensions/mod.rs on_create/on_update"),
      ("calls ahead of the stores", P + "create.rs, update.rs, write.rs")],
     (), ["stored extension bytes after Create/Update"])

prop("C15", "A proxied asset acts only through its proxy program and keeps its derivation",
     "Any instruction whose first account is a proxied asset requires that account to have signed, which only its proxy "
     "program can do. A proxied asset is created only at the address derived from the program, seeds and bump it records, "
     "and those recorded values never change afterwards.",
     ["inputs", "histories"], "every instruction and account list",
     NOPROG, [P + "mod.rs", P + "create.rs", T + "extensions/proxy.rs"],
     [("proxied signer gate", P + "mod.rs validate_access"), ("derivation check", P + "create.rs"),
      ("immutable derivation data", T + "extensions/proxy.rs on_update")], (),
     ["instruction results on proxied assets; proxy extension bytes"])

prop("C16", "Managed and proxied standards always come with their extension, and only they",
     "An asset has manager data exactly when its standard is managed and proxy data exactly when its standard is proxied: "
     "creation enforces it, and later neither kind of data can be added to or removed from an asset.",
     ["inputs", "histories"], "every creation argument list and later update/remove",
     NOPROG, [P + "create.rs", P + "update.rs", P + "remove.rs"],
     [("standard/extension agreement", P + "create.rs"), ("refusal to add or remove", P + "update.rs, remove.rs")], HDR,
     ["standard byte and extension list of the asset account"])

prop("C17", "Every reader finds an extension exactly where the layout says it is",
     "All extension lookups walk the account from the end of the fixed header, moving from one extension header to the next "
     "by its recorded boundary, stop at the first empty header or the end of the data, and return the first extension of the "
     "requested type with exactly its recorded length of bytes. Read-only and mutable views of one extension select the same "
     "type and the same bytes, and unknown types are skipped.",
     ["inputs"], "every account content, extension order and extension type",
     "Unit tests build each extension in isolation; none looks one up in an account that holds several, with padding.",
     [T + "state/asset.rs", T + "extensions/mod.rs"],
     [("header walk", T + "state/asset.rs, extensions/mod.rs"), ("per-type selection constants", T + "extensions/*.rs")],
     [("extension header", "type, length, boundary", T + "extensions/mod.rs")], ["results of the lookup functions"])

prop("C18", "Updating or removing one extension keeps the others intact and aligned",
     "When an extension is added, replaced or removed on an asset, every other extension keeps its bytes and stays reachable: "
     "following data is moved by exactly the change in size, the boundaries of all following extensions are adjusted by the "
     "same amount, and boundaries stay 8-byte aligned. The stored header records the type, length and boundary of the data "
     "actually stored, and data is never moved outside the account.",
     ["inputs", "histories"], "every extension sequence, position and size change",
     NOPROG, [P + "update.rs", P + "remove.rs", P + "allocate.rs"],
     [("move, resize, boundary rewrite", P + "update.rs, remove.rs")],
     [("extension header", "type, length, boundary", T + "extensions/mod.rs")], ["extension area of the asset account"])

prop("C19", "Buffers accept data only from their signer and only before they become assets",
     "Allocating, writing, creating and closing work only on an account that signed the instruction and is not yet an "
     "initialized asset (and is owned by the program once it has data). A type of extension is allocated at most once, never "
     "before the previous one is complete, at the aligned end of the previous one and with the declared length recorded; "
     "closing a buffer sends its whole balance to the recipient and empties it.",
     ["inputs", "histories"], "every allocate/write/close/create sequence",
     NOPROG, [P + "allocate.rs", P + "write.rs", P + "close.rs", P + "create.rs"],
     [("signer / uninitialized / duplicate / completeness checks", P + "allocate.rs, write.rs, close.rs, create.rs")], (),
     ["buffer account data, owner and lamports"])

prop("C20", "Resizing moves exactly the rent difference and takes only from a signing payer",
     "When an account shrinks, exactly the excess over its new rent-exempt minimum moves from it to the designated account; "
     "when it grows, exactly what is missing is transferred from a payer that signed, through the genuine system program. "
     "Lamports are never created or destroyed by the program, and an account never grows by more than the runtime allows in "
     "one instruction.",
     ["inputs"], "every size change, balance and account list",
     NOPROG, [P + "mod.rs", P + "resize.rs", P + "remove.rs", "programs/asset/program/src/utils.rs"],
     [("paired lamport updates and funding transfer", P + "mod.rs resize"),
      ("closing", "programs/asset/program/src/utils.rs close_program_account")], (), ["lamports of all accounts"])

prop("C21", "Creation initializes an asset once, with exactly the requested identity",
     "Creating an asset requires the asset account's signature and an account that is not already an asset; it records "
     "exactly the given owner, authority, standard, mutability and name, and the new asset starts unlocked, without a "
     "delegate, and without a group unless a group account is given and accepts it.",
     ["inputs", "histories"], "every creation argument list and account state",
     NOPROG, [P + "create.rs", P + "group.rs"],
     [("uninitialized check and header writes", P + "create.rs")], HDR, ["header bytes of the created account"])

prop("C22", "Client-built instructions mean to the program what the client meant",
     "For every instruction, the identifying byte, the order of the accounts and which of them are writable or signers, and "
     "the order and types of the arguments that the Rust client, the interface library and the published interface "
     "description use agree with what the on-chain program decodes. The cross-program builders and the plain builders of "
     "one instruction agree with each other.",
     ["inputs", "programs"], "every instruction, optional account combination and argument value",
     "No test encodes with the client and decodes with the program.",
     ["programs/asset/program/src/instruction.rs", "clients/rust/asset/src/generated/instructions",
      "programs/asset/interface/src", "idls/asset_program.json", "programs/bridge/src/instruction.rs",
      "clients/rust/bridge/src/generated/instructions", "clients/rust/asset/src/impls.rs"],
     [("instruction enum and account attributes", "programs/asset/program/src/instruction.rs"),
      ("generated builders", "clients/rust/asset/src/generated/instructions")], (),
     ["serialized instructions and account metas"])

prop("C23", "Error codes mean the same error in the program and in every client",
     "Each numeric error code returned by the asset and bridge programs decodes, in the Rust clients and the published "
     "interface description, to the error of the same name, and distinct errors have distinct codes.",
     ["programs"], "every error variant", "Tests compare no error codes across crates.",
     ["programs/asset/program/src/error.rs", "clients/rust/asset/src/generated/errors/asset.rs", "programs/bridge/src/error.rs",
      "clients/rust/bridge/src/generated/errors/bridge.rs", "idls/asset_program.json", "idls/bridge_program.json"],
     [("error enums", "programs/asset/program/src/error.rs")], (), ["error codes in transaction results"])

prop("C24", "Stored values decode the same in the program, the clients and the codecs",
     "The account header, its extensions and every stored or transmitted enumeration have one byte layout shared by the "
     "on-chain types, the Rust clients, the interface library and the published description: field order, offsets, sizes "
     "and the number of each alternative agree, and each alternative converts to its number and back to itself.",
     ["inputs"], "every field and enumeration alternative", "Tests use one crate's types on both sides, and sample values.",
     [T + "state/mod.rs", T + "state/asset.rs", T + "extensions/mod.rs", "clients/rust/asset/src/generated/types",
      "clients/rust/asset/src/generated/accounts", "programs/asset/interface/src/generated/types"],
     [("repr(C) layouts, explicit conversions", T + "state/mod.rs")], (), ["account bytes and borsh encodings"])

prop("C25", "Constraints evaluate to the boolean they spell, and errors never pass",
     "A conjunction passes exactly when all its parts pass, a disjunction exactly when one does, a negation exactly when its "
     "part fails, and an empty constraint always; an ownership constraint passes exactly when the selected account holds data "
     "and its owner program is listed and a key constraint exactly when the selected account's address is listed. The selected account is "
     "the one the constraint names (asset, authority or recipient), and an evaluation error is reported as an error, never as "
     "a pass.",
     ["inputs"], "every constraint tree and account context", "Unit tests build constraints but evaluate none of them.",
     [T + "constraints"], [("assert functions", T + "constraints/*.rs")], (), ["result of evaluating a constraint"])

prop("C26", "Builders write the bytes their readers read",
     "For every extension and constraint, the bytes the builder produces list the same fields in the same order with the same "
     "sizes and length prefixes that the reader consumes, and nesting a constraint in another, or in a royalty extension, "
     "keeps it readable.",
     ["inputs"], "every builder call sequence", "Unit tests round-trip one or two samples per extension and skip several constraints.",
     [T + "extensions", T + "constraints"], [("builder/from_bytes pairs", T + "extensions/*.rs, constraints/*.rs")], (),
     ["builder output and parsed views"])

prop("C27", "The bridge always holds exactly one of the token and its asset",
     "A bridge instruction succeeds only for a signing owner and the vault, asset and metadata derived from and recorded for "
     "that mint; when the vault is idle it moves the token from the owner to the vault and the asset from the vault to the "
     "owner, and when active the reverse, one unit, flipping the recorded state exactly once. Both transfers happen in the "
     "same instruction or neither does, and the vault's authority is only ever used with the seeds derived for its mint.",
     ["inputs", "histories"], "every vault state, account list and signer",
     "No test runs the bridge program.", ["programs/bridge/src/processor/bridge.rs", "programs/bridge/src/state"],
     [("validation, state flip and two transfers", "programs/bridge/src/processor/bridge.rs")],
     [("vault state", "idle: asset in vault; active: token in vault", "programs/bridge/src/state/vault.rs")],
     ["vault data and the two cross-program transfers"])

prop("C28", "A bridged asset is created once, by authority, into its own vault",
     "The bridge creates a vault and asset for a mint only when the genuine metadata of that mint names the given update "
     "authority, and that authority signed or the mint's verified collection is already bridged. The vault and the asset live "
     "at the addresses derived from the mint, the vault starts idle and records the mint and both derivation bumps, and the "
     "asset's owner is the vault; a vault that already exists is refused.",
     ["inputs", "histories"], "every metadata content, account list and signer",
     "No test runs the bridge program.", ["programs/bridge/src/processor/create.rs", "programs/bridge/src/state"],
     [("authority and derivation checks", "programs/bridge/src/processor/create.rs")], (), ["vault data and the create call"])

prop("C29", "The proxy forwards faithfully and signs only for its own assets",
     "Forwarding passes every account with its own signer and writable flags, except that the first account also signs, and "
     "passes the instruction bytes unchanged to the asset program, for every instruction of the asset program. The signing "
     "seeds always come from that asset's own proxy data, and the proxy updates an asset's metadata itself only when the "
     "recorded proxy authority signed.",
     ["inputs"], "every instruction and account list", "No test runs the proxy program.",
     ["programs/asset/interface/src/processor.rs", "programs/proxy/src/processor"],
     [("forwarding", "programs/asset/interface/src/processor.rs"), ("proxy handlers", "programs/proxy/src/processor")], (),
     ["the cross-program calls made by the proxy"])

prop("C30", "An embedded interface description is found and decoded as it was stored",
     "The place in the program binary where an interface description and its kind are stored is the place the parser looks "
     "for them, for every kind; the stored length and pointer fields are read with the layout they were written with, data is "
     "decompressed with the codec it was compressed with, and every kind's name converts to the kind and back.",
     ["inputs"], "every description and description kind", "No test embeds and parses a description.",
     ["include-idl/src"], [("section names, kinds, codec", "include-idl/src/lib.rs, parse.rs, shrink.rs")], (),
     ["output of the parser on a program binary"])

prop("C31", "Minting through the client writes every byte of every extension, in order",
     "The client's mint helper produces, for every list of extensions, an allocation of each extension in the given order "
     "with its full length declared, followed by writes that together with the allocation carry each byte of its data exactly "
     "once and in order within the size limits, and finally the creation of the asset with the given identity.",
     ["inputs"], "every extension list and data length", "Tests of the helper need a validator and use two small samples.",
     ["clients/rust/asset/src/mint.rs"], [("chunking", "clients/rust/asset/src/mint.rs mint")], (), ["list of instructions returned"])

prop("C32", "Every instruction, lookup and constraint evaluation comes to an end",
     "On every account whose extension headers record ends that lie behind them (the layout the program maintains), each "
     "instruction handler and each extension lookup finishes: every pass of a loop moves on to a later header, element or "
     "byte, or shrinks what is left, and stops at the end of the data, whatever types, lengths and flags it meets. Parsing a "
     "constraint, however nested, only ever descends into strictly smaller pieces of its bytes.",
     ["inputs", "histories"], "every account content with the maintained layout, every instruction argument, every constraint's bytes",
     "The tests walk a handful of short, complete accounts; a pass that does not advance only shows on the content that reaches it.",
     [T + "state/asset.rs", T + "extensions/mod.rs", T + "constraints/mod.rs", P + "update.rs", P + "remove.rs", P + "create.rs"],
     [("header walks", T + "state/asset.rs"), ("in-place header walks", P + "update.rs, " + P + "remove.rs"),
      ("nested constraint parsing", T + "constraints/and.rs, or.rs, not.rs")], (), ["termination"])

prop("C33", "Compressing and decompressing a description returns the same text",
     "For every interface description text, decompressing what compression produced returns exactly that text.",
     ["inputs"], "every text", "No test covers it.", ["include-idl/src/shrink.rs", "include-idl/src/parse.rs"],
     [("zlib encoder and decoder", "include-idl/src")], (), ["decompressed text"])

prop("C34", "Every asset account stays rent exempt for the cluster's rent parameters",
     "After every successful instruction each asset account either holds at least the rent-exempt minimum for its size under "
     "the rent parameters of the cluster, or has been closed.",
     ["inputs", "histories", "configurations"], "every balance, size and rent configuration", "No handler runs in the stable tests.",
     [P + "mod.rs", P + "create.rs"], [("rent minimum on resize/create", P + "mod.rs resize")], (), ["lamports of asset accounts"])

prop("C35", "On-chain allocation through the client's helpers writes exactly the given data",
     "A program that allocates an extension through the client's cross-program helpers makes an allocation that declares the "
     "full length of the data and then writes which, in order, carry every byte exactly once, each within what a cross-program "
     "call can carry. Every call is to the asset program with the asset and payer as signing writable accounts and the system "
     "program, carries the given signer seeds and all account infos it needs, and a call that fails ends the sequence with that "
     "error. Instruction data built by the helpers always decodes to the extension type, length and bytes given.",
     ["inputs"], "every extension type, data length and content, and choice of optional accounts",
     "Nothing in the stable tests expands these macros; the validator tests use short data that fits one call.",
     ["clients/rust/asset/src/impls.rs"],
     [("allocation and write calls", "clients/rust/asset/src/impls.rs allocate_and_write!"),
      ("instruction data", "clients/rust/asset/src/impls.rs allocate_instruction_data!, allocate_update_data_length!"),
      ("raw invocation", "clients/rust/asset/src/impls.rs AllocateCpiAccounts::invoke_signed")], (),
     ["cross-program calls issued by the expanded macros", "instruction data bytes returned"])

prop("C36", "Extension descriptions given to the client read back as described on chain",
     "The extension descriptions that the client accepts as JSON (creators, attributes, links, blob, metadata, royalties) are "
     "turned into bytes from which the program's own readers show exactly the described values: every element, in order, each "
     "text whole, each number, flag and key unchanged. Texts are at most 255 bytes long.",
     ["inputs"], "every description", "The stable tests never encode a description and read it with the program's reader.",
     ["clients/rust/asset/src/mint.rs", T + "extensions/mod.rs"],
     [("encoders", "clients/rust/asset/src/mint.rs ExtensionValue::into_data"), ("readers", T + "extensions")], (),
     ["bytes returned by the encoders"])

prop("C37", "Updates do exactly what was asked; creation stores every given extension",
     "An accepted update sets the name and the mutability when they are given and leaves each of them as it was when not; every "
     "other header field of the asset stays. It stores at most one extension: the one given in the instruction (its type, its "
     "length, its data) or the one held by the buffer account, never both; with neither, no extension changes and the account "
     "keeps its size. An accepted creation stores every extension of the list it is given, none left out, each with the given "
     "type, length and data.",
     ["inputs"], "every accepted update or creation with any arguments", "The stable tests give one argument at a time and few extensions.",
     ["programs/asset/program/src/processor/update.rs", "programs/asset/program/src/processor/create.rs"],
     [("update", "programs/asset/program/src/processor/update.rs process_update"),
      ("create", "programs/asset/program/src/processor/create.rs process_create"),
      ("allocate", "programs/asset/program/src/processor/allocate.rs process_allocate")], (),
     ["account data after the instruction"])

with open(OUT, "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
