ID='c09-key-dash'; PROPERTY='C09'
NEEDS='a key with a dash'
BREAKS='accepted as key'
EDITS=[('src/dockerfile_parser.pest', 'env_name = ${ (ASCII_ALPHANUMERIC | "_")+ }', 'env_name = ${ (ASCII_ALPHANUMERIC | "_" | "-")+ }')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nENV a-b=1\n"); assert!(!matches!(d, Ok(ref d) if d.instructions[1].as_env().is_some()));
"""
