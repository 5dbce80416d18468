ID='c24-scratch-tag'; PROPERTY='C24'
NEEDS='a chain of stages ending in scratch'
BREAKS='the root of a stage built on a scratch stage is that stage'
EDITS=[('src/stage.rs', '          stages.stages[parent_stage].root.clone()', '          match &stages.stages[parent_stage].root {\n            StageParent::Scratch if stages.stages[parent_stage].name.is_some() && parent_stage > 0 => parent.clone(),\n            root => root.clone()\n          }')]
MAIN='let d = Dockerfile::parse("FROM q\\nFROM scratch AS a\\nFROM a\\n").unwrap(); assert_eq!(d.stages().stages[2].root, StageParent::Scratch);'
EXTRA=''
