ID='c03-adjacent-equal'; PROPERTY='C03'
NEEDS='the same instruction without arguments text repeated on lines directly after one another'
BREAKS='a repeated ARG is left out'
EDITS=[('src/dockerfile_parser.rs', '    instructions.push(instruction);', '    if let (Some(Instruction::Arg(a)), Instruction::Arg(b)) = (instructions.last(), &instruction) {\n      if a.name.content == b.name.content && a.value.is_none() && b.value.is_none() {\n        continue;\n      }\n    }\n    instructions.push(instruction);')]
MAIN='assert_eq!(Dockerfile::parse("FROM a\\nARG x\\nARG x\\n").unwrap().instructions.len(), 3);'
EXTRA=''
