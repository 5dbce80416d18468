ID='c10-entry-trailing'; PROPERTY='C10'
NEEDS='shell text of an ENTRYPOINT that ends in blanks'
BREAKS='trailing blanks of shell text are dropped'
EDITS=[('src/instructions/entrypoint.rs', '        expr: ShellOrExecExpr::Shell(parse_any_breakable(field)?),', '        expr: ShellOrExecExpr::Shell({\n          let mut s = parse_any_breakable(field)?;\n          if let Some(BreakableStringComponent::String(last)) = s.components.last_mut() {\n            last.content.truncate(last.content.trim_end().len());\n          }\n          s\n        }),')]
MAIN='let d = Dockerfile::parse("ENTRYPOINT a  \\n").unwrap(); assert_eq!(d.instructions[0].as_entrypoint().unwrap().as_shell().unwrap().to_string(), "a  ");'
EXTRA=''
