ID='c33-trailing-words'; PROPERTY='C33'
NEEDS='a FROM with words after its image'
BREAKS='words after the image of a FROM are skipped'
EDITS=[('src/dockerfile_parser.pest', 'from = { ^"from" ~ (arg_ws ~ from_flag)* ~ arg_ws ~ from_image ~ from_alias_outer?  }', 'from = { ^"from" ~ (arg_ws ~ from_flag)* ~ arg_ws ~ from_image ~ from_alias_outer? ~ (arg_ws ~ "#" ~ any_eol)? }')]
MAIN='assert!(Dockerfile::parse("FROM a # b\\n").is_err());'
EXTRA=''
