ID='c03-index-wraps'; PROPERTY='C03'
NEEDS='more than 256 FROM instructions'
BREAKS='the numbers start over'
EDITS=[('src/dockerfile_parser.rs', 'from.index = from_index;', 'from.index = from_index as u8 as usize;')]
MAIN=r"""
let s = "FROM a\n".repeat(300); let d = Dockerfile::parse(&s).unwrap(); for (i, x) in d.instructions.iter().enumerate() { assert_eq!(x.as_from().unwrap().index, i); }
"""
