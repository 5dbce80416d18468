ID='c15-bare-hash'; PROPERTY='C15'
NEEDS='a comment consisting of nothing but the hash'
BREAKS='the empty comment is not recognised as one'
EDITS=[('src/dockerfile_parser.pest', 'comment = @{ "#" ~ (!NEWLINE ~ ANY)* }', 'comment = @{ "#" ~ (!NEWLINE ~ ANY)+ }')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nCOPY x \\\n  #\ny\n").unwrap(); assert_eq!(d.instructions[1].as_copy().unwrap().sources.len(), 1);
"""
