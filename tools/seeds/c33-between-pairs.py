ID='c33-between-pairs'; PROPERTY='C33'
NEEDS='a semicolon between ENV pairs'
BREAKS='a semicolon after an ENV pair is skipped'
EDITS=[('src/dockerfile_parser.pest', 'env_pairs = { (arg_ws ~ env_pair?)+ }', 'env_pairs = { (arg_ws ~ (env_pair ~ (arg_ws ~ ";" ~ &arg_ws)?)?)+ }')]
MAIN='match Dockerfile::parse("ENV a=1 ; b=2\\n") { Err(_) => (), Ok(d) => assert!(d.instructions[0].as_misc().is_some()) }'
EXTRA=''
