ID='c01-unquote-unwrap'; PROPERTY='C01'
NEEDS='a quoted token with an escape that cannot be unescaped'
BREAKS='parse panics instead of returning the unescape error'
EDITS=[('src/util.rs', 'unquote(field_str).context(UnescapeError)?', 'unquote(field_str).context(UnescapeError).expect("the grammar only lets quoted strings through")')]
MAIN=r"""
assert!(Dockerfile::parse("FROM a\nRUN [\"\\q\"]\n").is_err());
assert!(Dockerfile::parse("FROM a\nLABEL a=\"\\q\"\n").is_err());
"""
