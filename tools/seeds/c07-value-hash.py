ID='c07-value-hash'; PROPERTY='C07'
NEEDS='a value with a hash sign'
BREAKS='the value ends at a hash sign'
EDITS=[('src/dockerfile_parser.pest', 'arg_value = ${ any_whitespace }', 'arg_value = ${ (!(NEWLINE | EOI | arg_ws | "#") ~ ANY)+ }'), ('src/dockerfile_parser.pest', 'arg = { ^"arg" ~ arg_ws ~ arg_name ~ ("=" ~ (arg_quoted_value | arg_value))? }', 'arg = { ^"arg" ~ arg_ws ~ arg_name ~ ("=" ~ (arg_quoted_value | arg_value) ~ ("#" ~ any_eol)?)? }')]
MAIN='let d = Dockerfile::parse("ARG a=b#c\\n").unwrap(); assert_eq!(d.instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "b#c");'
EXTRA=''
