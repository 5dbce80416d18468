ID='c12-trim-arguments'; PROPERTY='C12'
NEEDS='arguments that end in blanks'
BREAKS='the blanks are dropped'
EDITS=[('src/instructions/misc.rs', 'Rule::misc_arguments => arguments = Some(parse_any_breakable(field)?),', 'Rule::misc_arguments => {\n          let mut args = parse_any_breakable(field)?;\n          if let Some(BreakableStringComponent::String(s)) = args.components.last_mut() {\n            s.content = s.content.trim_end().to_string();\n          }\n          arguments = Some(args);\n        },'), ('src/instructions/misc.rs', 'use crate::Span;', 'use crate::{BreakableStringComponent, Span};')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nUSER x  \n").unwrap(); assert_eq!(d.instructions[1].as_misc().unwrap().arguments.to_string(), " x  ");
"""
