CR = "programs/asset/program/src/processor/create.rs"
UP = "programs/asset/program/src/processor/update.rs"
OLD = """        while !extensions.is_empty() {
            super::allocate::process_allocate(
                program_id,
                Context {
                    accounts: Allocate {
                        asset: ctx.accounts.asset,
                        payer: ctx.accounts.payer,
                        system_program: ctx.accounts.system_program,
                    },
                },
                AllocateInput {
                    extension: extensions.swap_remove(0),
                },
            )?;
        }
"""
BODY = """super::allocate::process_allocate(
                program_id,
                Context {
                    accounts: Allocate {
                        asset: ctx.accounts.asset,
                        payer: ctx.accounts.payer,
                        system_program: ctx.accounts.system_program,
                    },
                },
                AllocateInput { extension },
            )"""
M = (CR, "if let Some(mut extensions) = args.extensions", "if let Some(extensions) = args.extensions")
REFS = {}
REFS["cr-for"] = ([(CR, OLD, "        for extension in extensions {\n            %s?;\n        }\n" % BODY), M], ["Create"])
REFS["cr-try-each"] = ([(CR, OLD, "        extensions.into_iter().try_for_each(|extension| {\n            %s\n        })?;\n" % BODY), M], ["Create"])
REFS["cr-pop"] = ([(CR, OLD, "        while let Some(extension) = extensions.pop() {\n            %s?;\n        }\n" % BODY)], ["Create"])
REFS["cr-remove"] = ([(CR, OLD, "        while extensions.len() > 0 {\n            let extension = extensions.remove(0);\n            %s?;\n        }\n" % BODY)], ["Create"])
REFS["up-name-match"] = ([(UP, """    if let Some(name) = args.name {
        asset.name = name.into();
    }

    if let Some(mutable) = args.mutable {
        asset.mutable = mutable.into();
    }
""", """    match (args.name, args.mutable) {
        (Some(name), Some(mutable)) => {
            asset.mutable = mutable.into();
            asset.name = name.into();
        }
        (Some(name), None) => asset.name = name.into(),
        (None, Some(mutable)) => asset.mutable = mutable.into(),
        (None, None) => (),
    }
""")], ["Update"])
REFS["up-mutable-or"] = ([(UP, """    if let Some(mutable) = args.mutable {
        asset.mutable = mutable.into();
    }
""", """    asset.mutable = args.mutable.unwrap_or(true).into();
""")], ["Update"])
