ID='c12-word-upper'; PROPERTY='C12'
NEEDS='an unmodelled word not in upper case'
BREAKS='the word is changed'
EDITS=[('src/instructions/misc.rs', 'Rule::misc_instruction => instruction = Some(parse_string(&field)?),', 'Rule::misc_instruction => {\n          let mut s = parse_string(&field)?;\n          if s.content.chars().any(|c| c.is_ascii_uppercase()) { s.content.make_ascii_uppercase(); }\n          instruction = Some(s);\n        },')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nWorkDir x\n").unwrap(); assert_eq!(d.instructions[1].as_misc().unwrap().instruction.content, "WorkDir");
"""
