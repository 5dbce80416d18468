ID='c05-env-as-misc'; PROPERTY='C05'
NEEDS='an ENV whose only key is written in lower case'
BREAKS='such an ENV is reported as a miscellaneous instruction'
EDITS=[('src/dockerfile_parser.pest', 'env = { ^"env" ~ (env_single | env_pairs) }', 'env = { ("ENV" | "env" | "Env") ~ (env_single | env_pairs) }')]
MAIN='assert!(Dockerfile::parse("eNV a=b\\n").unwrap().instructions[0].as_env().is_some());'
EXTRA=''
