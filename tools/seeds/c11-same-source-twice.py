ID='c11-same-source-twice'; PROPERTY='C11'
NEEDS='the same source twice in a row, in an instruction of at least three paths'
BREAKS='sources are deduplicated'
EDITS=[('src/instructions/copy.rs', '    let destination = paths.pop().unwrap();', '    let destination = paths.pop().unwrap();\n    paths.dedup_by(|b, a| a.content == b.content);')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nCOPY a a b\n").unwrap(); assert_eq!(d.instructions[1].as_copy().unwrap().sources.len(), 2);
"""
