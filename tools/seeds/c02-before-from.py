ID='c02-before-from'; PROPERTY='C02'
NEEDS='a document with an instruction before its first FROM'
BREAKS='Stages::new subtracts one from a length of zero and panics'
EDITS=[('src/stage.rs', '''} else if !stages.stages.is_empty() {''', '''} else if next_stage_index > 0 || !matches!(ins, Instruction::Arg(_)) {''')]
MAIN=r"""
let d = Dockerfile::parse("LABEL a=b\nFROM a\n");
if let Ok(d) = d { assert_eq!(d.stages().stages.len(), 1); }
"""
