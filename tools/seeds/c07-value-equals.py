ID='c07-value-equals'; PROPERTY='C07'
NEEDS='a value with = in it'
BREAKS='not an ARG any more'
EDITS=[('src/dockerfile_parser.pest', 'arg_value = ${ any_whitespace }', 'arg_value = ${ any_equals }')]
MAIN=r"""
let d = Dockerfile::parse("ARG a=b=c\n").unwrap(); assert_eq!(d.instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "b=c");
"""
