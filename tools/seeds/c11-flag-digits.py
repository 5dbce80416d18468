ID='c11-flag-digits'; PROPERTY='C11'
NEEDS='a flag with a digit in its name'
BREAKS='taken as a flag'
EDITS=[('src/dockerfile_parser.pest', 'copy_flag_name = @{ ASCII_ALPHA+ }', 'copy_flag_name = @{ ASCII_ALPHANUMERIC+ }')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nCOPY --a1=b c d\n").unwrap(); assert!(d.instructions[1].as_copy().map(|c| c.flags.is_empty()).unwrap_or(true));
"""
