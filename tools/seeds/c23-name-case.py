ID='c23-name-case'; PROPERTY='C23'
NEEDS='an alias with upper case letters on a stage built from scratch'
BREAKS='the stage name keeps its upper case letters when the image is scratch'
EDITS=[('src/stage.rs','          name: from.alias.as_ref().map(|a| a.as_ref().to_ascii_lowercase()),','          name: from.alias.as_ref().map(|a| if parent == StageParent::Scratch { a.as_ref().to_string() } else { a.as_ref().to_ascii_lowercase() }),')]
MAIN='''
let d = Dockerfile::parse("FROM scratch AS Base\\nRUN x\\n").unwrap();
assert_eq!(d.stages().stages[0].name.as_deref(), Some("base"));
'''
