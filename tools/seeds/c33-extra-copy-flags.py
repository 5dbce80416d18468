ID='c33-extra-copy-flags'; PROPERTY='C33'
NEEDS='a COPY with more than four paths'
BREAKS='the paths in the middle are dropped'
EDITS=[('src/instructions/copy.rs', 'Rule::copy_pathspec => paths.push(parse_string(&field)?),', 'Rule::copy_pathspec => {\n          let p = parse_string(&field)?;\n          if paths.len() > 4 { paths.pop(); }\n          paths.push(p);\n        },')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nCOPY a b c d e f g\n").unwrap(); assert_eq!(d.instructions[1].as_copy().unwrap().sources.len(), 6);
"""
