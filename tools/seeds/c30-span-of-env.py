ID='c30-span-of-env'; PROPERTY='C30'
NEEDS='the span of an ENV instruction with one variable'
BREAKS='the span of an ENV is that of its variable'
EDITS=[('src/dockerfile_parser.rs', 'Instruction::Env(instruction) => instruction.span,', 'Instruction::Env(instruction) => match instruction.vars.as_slice() { [only] => Span::new(instruction.span.start, only.span.end), _ => instruction.span },')]
MAIN='let d = Dockerfile::parse("ENV a=b \\n").unwrap(); assert_eq!(d.instructions[0].span(), d.instructions[0].as_env().unwrap().span);'
EXTRA=''
