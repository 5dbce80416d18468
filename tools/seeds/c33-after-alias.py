ID='c33-after-alias'; PROPERTY='C33'
NEEDS='text after the alias that starts with #'
BREAKS='dropped'
EDITS=[('src/dockerfile_parser.pest', 'arg_ws ~ from_alias }', 'arg_ws ~ from_alias ~ (arg_ws ~ "#" ~ any_eol)? }')]
MAIN=r"""
let d = Dockerfile::parse("FROM a AS b # extra\n"); assert!(!matches!(d, Ok(ref d) if d.instructions[0].as_from().is_some()));
"""
