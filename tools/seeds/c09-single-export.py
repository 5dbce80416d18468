ID='c09-single-export'; PROPERTY='C09'
NEEDS='a space-separated value that starts with an equals sign'
BREAKS='a leading equals sign is taken off the value'
EDITS=[('src/dockerfile_parser.pest', 'env_single = {  arg_ws ~ env_name ~ arg_ws ~ (env_single_quoted_value | env_single_value) }', 'env_single = {  arg_ws ~ env_name ~ arg_ws ~ ("=" ~ arg_ws)? ~ (env_single_quoted_value | env_single_value) }')]
MAIN='let d = Dockerfile::parse("ENV a = b\\n").unwrap(); assert_eq!(d.instructions[0].as_env().unwrap().vars[0].value.to_string(), "= b");'
EXTRA=''
