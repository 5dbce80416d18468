ID='c23-second-instruction'; PROPERTY='C23'
NEEDS='an ARG-less misc instruction directly after the FROM of the second or a later stage'
BREAKS='that instruction belongs to no stage'
EDITS=[('src/stage.rs','''        if let Some(stage) = stages.stages.get_mut(len - 1) {
          stage.instructions.push(ins);''','''        if let Some(stage) = stages.stages.get_mut(len - 1) {
          if let (Instruction::Misc(_), Some(Instruction::From(_)), 2..=9) = (ins, stage.instructions.last(), len) {
            continue;
          }
          stage.instructions.push(ins);''')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nFROM b:1\\nEXPOSE 80\\nRUN x\\n").unwrap();
assert_eq!(d.stages().stages[1].instructions.len(), 3);
'''
