ID='c07-quoted-empty'; PROPERTY='C07'
NEEDS='a quoted empty value'
BREAKS='a value that is an empty string is dropped'
EDITS=[('src/instructions/arg.rs', '        Rule::arg_quoted_value => value = Some(parse_string(&field)?),', '        Rule::arg_quoted_value => value = Some(parse_string(&field)?).filter(|v| !v.content.is_empty()),')]
MAIN='let d = Dockerfile::parse("ARG a=\\"\\"\\n").unwrap(); assert!(d.instructions[0].as_arg().unwrap().value.is_some());'
EXTRA=''
