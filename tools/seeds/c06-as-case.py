ID='c06-as-case'; PROPERTY='C06'
NEEDS='AS written As'
BREAKS='the alias is not recognised'
EDITS=[('src/dockerfile_parser.pest', 'from_alias_outer = _{ arg_ws ~ ^"as" ~', 'from_alias_outer = _{ arg_ws ~ ("as" | "AS") ~')]
MAIN=r"""
let d = Dockerfile::parse("FROM a As b\n").unwrap(); let f = d.instructions[0].as_from().unwrap(); assert_eq!(f.alias.as_ref().unwrap().content, "b");
"""
