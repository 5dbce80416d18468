ID='c05-long-word'; PROPERTY='C05'
NEEDS='an unmodelled word that starts with a keyword'
BREAKS='CMDX is read as CMD'
EDITS=[('src/dockerfile_parser.pest', 'cmd = { ^"cmd" ~ arg_ws ~', 'cmd = { ^"cmd" ~ ASCII_ALPHA* ~ arg_ws ~')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\ncmdlets run\n").unwrap(); assert!(d.instructions[1].as_misc().is_some());
"""
