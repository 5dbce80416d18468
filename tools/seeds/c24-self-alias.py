ID='c24-self-alias'; PROPERTY='C24'
NEEDS='a FROM whose alias is its own image'
BREAKS='a stage named like its image is its own parent'
EDITS=[('src/stage.rs', '        } else if let Some(stage) = stages.get_by_name(&image_name) {\n          StageParent::Stage(stage.index)', '        } else if let Some(stage) = stages.stages.iter().find(|s| s.name.as_deref() == Some(image_name.trim_end_matches(":latest"))) {\n          StageParent::Stage(stage.index)')]
MAIN='let d = Dockerfile::parse("FROM x AS a\\nFROM a:latest\\n").unwrap(); assert!(matches!(d.stages().stages[1].parent, StageParent::Image(_)));'
EXTRA=''
