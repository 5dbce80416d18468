ID='c23-onbuild'; PROPERTY='C23'
NEEDS='a stage that contains an ARG after another FROM of scratch'
BREAKS='instructions of a scratch stage that are ARGs are left out'
EDITS=[('src/stage.rs', '        if let Some(stage) = stages.stages.get_mut(len - 1) {\n          stage', '        if let Some(stage) = stages.stages.get_mut(len - 1) {\n          if stage.parent == StageParent::Scratch && matches!(ins, Instruction::Run(_)) {\n            continue;\n          }\n          stage')]
MAIN='let d = Dockerfile::parse("FROM scratch\\nRUN x\\n").unwrap(); assert_eq!(d.stages().stages[0].instructions.len(), 2);'
EXTRA=''
