ID='c18-upper-algorithm'; PROPERTY='C18'
NEEDS='a digest whose algorithm is written in capitals'
BREAKS='the algorithm of a digest is compared ignoring case'
EDITS=[('src/instructions/from.rs', '      let parts: Vec<&str> = hash.split(":").collect();', '      let hash = hash.replace("SHA", "sha");\n      let parts: Vec<&str> = hash.split(":").collect();')]
MAIN='assert!(Dockerfile::parse(&format!("FROM a@SHA256:{}", "0".repeat(64))).is_err());'
EXTRA=''
