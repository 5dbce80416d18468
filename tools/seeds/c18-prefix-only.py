ID='c18-prefix-only'; PROPERTY='C18'
NEEDS='a digest with a character that is no hexadecimal digit after the first'
BREAKS='accepted'
EDITS=[('src/instructions/from.rs', 'Regex::new(r"^[0-9a-fA-F]+$")', 'Regex::new(r"^[0-9a-fA-F]+")')]
MAIN=r"""
assert!(Dockerfile::parse("FROM a@sha256:ca5a2eb9b7917e542663152b04c0ad0572e0522fcf80ff080156377fc08ea8fz\n").is_err());
"""
