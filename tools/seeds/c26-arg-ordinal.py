ID='c26-arg-ordinal'; PROPERTY='C26'
NEEDS='an ARG of a stage with ARGs and other instructions before it'
BREAKS='instructions of other types directly after an ARG are not counted'
EDITS=[('src/stage.rs', '      .iter()\n      .enumerate()\n      .find_map(|(i, ins)| match ins {\n        Instruction::Arg(a)', '      .iter()\n      .filter(|ins| !matches!(ins, Instruction::Misc(_)))\n      .enumerate()\n      .find_map(|(i, ins)| match ins {\n        Instruction::Arg(a)')]
MAIN='let d = Dockerfile::parse("FROM a\\nUSER x\\nARG y\\n").unwrap(); assert_eq!(d.stages().stages[0].arg_index("y"), Some(2));'
EXTRA=''
