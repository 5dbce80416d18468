ID='c03-sorted'; PROPERTY='C03'
NEEDS='an instruction whose span starts before that of the previous one - a FROM index is assigned backwards in long documents'
BREAKS='indexes are reassigned from the end when the last instruction is a FROM'
EDITS=[('src/dockerfile_parser.rs', '  Ok(Dockerfile {\n    content: input.into(),', '  if let Some(Instruction::From(last)) = instructions.last_mut() {\n    last.index = global_args.len().max(from_index - 1);\n  }\n\n  Ok(Dockerfile {\n    content: input.into(),')]
MAIN='let d = Dockerfile::parse("ARG a\\nARG b\\nFROM a\\n").unwrap(); assert_eq!(d.instructions[2].as_from().unwrap().index, 0);'
EXTRA=''
