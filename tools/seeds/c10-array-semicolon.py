ID='c10-array-semicolon'; PROPERTY='C10'
NEEDS='an exec array followed by a semicolon'
BREAKS='the semicolon is dropped and the exec form chosen'
EDITS=[('src/dockerfile_parser.pest', '    arg_ws_maybe ~ "]"\n  ) | "["', '    arg_ws_maybe ~ "]" ~ ";"?\n  ) | "["')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nRUN [\"a\"];\n").unwrap(); assert!(d.instructions[1].as_run().unwrap().as_shell().is_some());
"""
