ID='c26-value-first'; PROPERTY='C26'
NEEDS='two ARGs of a name, the second with a value'
BREAKS='an ARG with a value is preferred'
EDITS=[('src/stage.rs', '        Instruction::Arg(a) => if a.name.content == name { Some(i) } else { None },', '        Instruction::Arg(a) => if a.name.content == name && !(a.value.is_none() && self.instructions.last().and_then(|l| l.as_arg()).map_or(false, |l| l.name.content == name && l.value.is_some())) { Some(i) } else { None },')]
MAIN='let d = Dockerfile::parse("FROM a\\nARG x\\nARG x=1\\n").unwrap(); assert_eq!(d.stages().stages[0].arg_index("x"), Some(1));'
EXTRA=''
