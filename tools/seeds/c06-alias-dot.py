ID='c06-alias-dot'; PROPERTY='C06'
NEEDS='an alias directly followed by a dash'
BREAKS='dashes are no longer part of an alias when it starts with one'
EDITS=[('src/dockerfile_parser.pest', 'identifier_whitespace = _{ (!ws ~ (ASCII_ALPHANUMERIC | "_" | "-"))+ }', 'identifier_whitespace = _{ (!ws ~ (ASCII_ALPHANUMERIC | "_")) ~ (!ws ~ (ASCII_ALPHANUMERIC | "_" | "-"))* }')]
MAIN='let d = Dockerfile::parse("FROM a AS -b\\n").unwrap(); assert_eq!(d.instructions[0].as_from().unwrap().alias.as_ref().unwrap().content, "-b");'
EXTRA=''
