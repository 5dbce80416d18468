ID='c23-index-by-from'; PROPERTY='C23'
NEEDS='a document built by hand or with FROM indexes out of order'
BREAKS='the index is taken from the FROM instruction'
EDITS=[('src/stage.rs', '          index: next_stage_index,', '          index: from.index.max(next_stage_index),')]
MAIN='let mut d = Dockerfile::parse("FROM a\\nFROM b\\n").unwrap(); d.instructions.remove(0); assert_eq!(d.stages().stages[0].index, 0);'
EXTRA=''
