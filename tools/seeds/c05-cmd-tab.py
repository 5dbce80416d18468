ID='c05-cmd-tab'; PROPERTY='C05'
NEEDS='CMD followed by a tab'
BREAKS='only a blank may follow the word CMD'
EDITS=[('src/dockerfile_parser.pest', 'cmd = { ^"cmd" ~ arg_ws ~ (cmd_exec | cmd_shell) }', 'cmd = { ^"cmd" ~ !"\\t" ~ arg_ws ~ (cmd_exec | cmd_shell) }')]
MAIN='assert!(Dockerfile::parse("CMD\\tx\\n").unwrap().instructions[0].as_cmd().is_some());'
EXTRA=''
