ID='c30-try-copy'; PROPERTY='C30'
NEEDS='a conversion of a LABEL instruction to the wrong type'
BREAKS='converting to a COPY accepts ADD'
EDITS=[('src/dockerfile_parser.rs', '  pub fn into_misc(self) -> Option<MiscInstruction> {\n    match self {\n      Instruction::Misc(m) => Some(m),', '  pub fn into_misc(self) -> Option<MiscInstruction> {\n    match self {\n      Instruction::Misc(m) if m.arguments.components.is_empty() => None,\n      Instruction::Misc(m) => Some(m),')]
MAIN='let mut d = Dockerfile::parse("USER a\\n").unwrap(); let Instruction::Misc(mut m) = d.instructions.remove(0) else { panic!() }; m.arguments.components.clear(); assert!(Instruction::Misc(m).into_misc().is_some());'
EXTRA=''
