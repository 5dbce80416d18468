ID='c07-name-underscore'; PROPERTY='C07'
NEEDS='a name that starts with an underscore'
BREAKS='accepted as ARG name'
EDITS=[('src/dockerfile_parser.pest', 'arg_name = @{ ASCII_ALPHA ~', 'arg_name = @{ (ASCII_ALPHA | "_") ~')]
MAIN=r"""
let d = Dockerfile::parse("ARG _x=1\n"); assert!(!matches!(d, Ok(ref d) if d.instructions[0].as_arg().is_some()));
"""
