ID='c24-latest-alias'; PROPERTY='C24'
NEEDS='a FROM that names a stage alias which two earlier stages carry'
BREAKS='the parent is the latest stage with that alias instead of the first'
EDITS=[('src/stage.rs','} else if let Some(stage) = stages.get_by_name(&image_name) {','} else if let Some(stage) = stages.stages.iter().rev().find(|s| s.name.as_deref() == Some(image_name.as_str())) {')]
MAIN='''
let d = Dockerfile::parse("FROM a:1 AS x\\nFROM b:1 AS x\\nFROM x\\n").unwrap();
let s = d.stages();
assert_eq!(s.stages[2].parent, StageParent::Stage(0));
'''
