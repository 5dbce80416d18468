ID='c02-stage-count'; PROPERTY='C02'
NEEDS='a document with 256 stages'
BREAKS='Stages::new overflows its counter'
EDITS=[('src/stage.rs', 'let mut next_stage_index = 0;', 'let mut next_stage_index = 0u8;'), ('src/stage.rs', 'index: next_stage_index,', 'index: usize::from(next_stage_index),')]
MAIN=r"""
let d = Dockerfile::parse(&"FROM a\n".repeat(300)).unwrap();
assert_eq!(d.stages().stages.last().unwrap().index, 299);
"""
