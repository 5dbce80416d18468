ID='c01-hash-split-at'; PROPERTY='C01'
NEEDS='an image with a digest shorter than seven characters'
BREAKS='the digest is split at a fixed position, which panics when it is shorter'
EDITS=[('src/instructions/from.rs', '      let parts: Vec<&str> = hash.split(":").collect();\n      if let ["sha256", hexdata] = parts[..] {', '      let (algorithm, hexdata) = hash.split_at("sha256:".len());\n      if algorithm == "sha256:" {')]
MAIN='let _ = Dockerfile::parse("FROM a@b");'
EXTRA=''
