ID='c33-eol'; PROPERTY='C33'
NEEDS='text after a FROM with an alias'
BREAKS='text after an unmodelled continuation is skipped'
EDITS=[('src/dockerfile_parser.pest', 'label = { ^"label" ~ (label_single | (arg_ws ~ label_pair?)+) }', 'label = { ^"label" ~ (label_single | (arg_ws ~ label_pair?)+) ~ ("=" ~ any_eol)? }')]
MAIN='assert!(Dockerfile::parse("LABEL a=\\"b\\"=c\\n").map_or(true, |d| d.instructions[0].as_label().is_none()));'
EXTRA=''
