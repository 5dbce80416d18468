ID='c24-root-two-levels'; PROPERTY='C24'
NEEDS='a chain of three stages each built on the previous one'
BREAKS='the root of a third-level stage is its grandparent stage instead of the base image'
EDITS=[('src/stage.rs','stages.stages[parent_stage].root.clone()','stages.stages[parent_stage].parent.clone()')]
MAIN='''
let d = Dockerfile::parse("FROM a:1 AS x\\nFROM x AS y\\nFROM y AS z\\n").unwrap();
let s = d.stages();
assert_eq!(s.stages[2].root, StageParent::Image(&ImageRef::parse("a:1")));
'''
