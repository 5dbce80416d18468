ID='c30-span-of-misc'; PROPERTY='C30'
NEEDS='the span of a miscellaneous instruction asked through Instruction::span'
BREAKS='it returns the span of the arguments'
EDITS=[('src/dockerfile_parser.rs','Instruction::Misc(instruction) => instruction.span,','Instruction::Misc(instruction) => instruction.arguments.span,')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nEXPOSE 80\\n").unwrap();
assert_eq!(d.instructions[1].span(), d.instructions[1].as_misc().unwrap().span);
'''
