ID='c18-uppercase-hex'; PROPERTY='C18'
NEEDS='a digest with upper case digits'
BREAKS='digests with upper case digits are rejected when they mix cases'
EDITS=[('src/instructions/from.rs', '        if !HEX.is_match(hexdata) || hexdata.len() != 64 {', '        let mixed = hexdata.contains(|c: char| c.is_ascii_uppercase()) && hexdata.contains(|c: char| c.is_ascii_lowercase());\n        if !HEX.is_match(hexdata) || hexdata.len() != 64 || mixed {')]
MAIN='assert!(Dockerfile::parse(&format!("FROM a@sha256:{}\\n", "aB".repeat(32))).is_ok());'
EXTRA=''
