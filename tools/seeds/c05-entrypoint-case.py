ID='c05-entrypoint-case'; PROPERTY='C05'
NEEDS='ENTRYPOINT in mixed case'
BREAKS='the instruction becomes miscellaneous'
EDITS=[('src/dockerfile_parser.pest', 'entrypoint = { ^"entrypoint" ~', 'entrypoint = { ("entrypoint" | "ENTRYPOINT") ~')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nEntrypoint [\"x\"]\n").unwrap(); assert!(d.instructions[1].as_entrypoint().is_some());
"""
