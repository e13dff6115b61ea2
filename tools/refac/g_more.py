RM = "programs/asset/program/src/processor/remove.rs"
REFS = {}
REFS["rm-plain-sub"] = ([(RM, "extension.boundary().saturating_sub(bytes_to_remove as u32)", "extension.boundary() - bytes_to_remove as u32")], ["Remove"])
REFS["rm-boundary-inline"] = ([(RM, """        let boundary = extension.boundary().saturating_sub(bytes_to_remove as u32);
        extension.set_boundary(boundary);
        cursor = boundary as usize;
""", """        extension.set_boundary(extension.boundary().saturating_sub(bytes_to_remove as u32));
        cursor = extension.boundary() as usize;
""")], ["Remove"])
