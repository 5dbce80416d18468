ID='c25-iter-rev'; PROPERTY='C25'
NEEDS='a lookup by a name that two stages share'
BREAKS='the last stage of that name is returned'
EDITS=[('src/stage.rs', 'self.stages.iter().find(|s| s.name == Some(name.to_ascii_lowercase()))', 'self.stages.iter().rfind(|s| s.name == Some(name.to_ascii_lowercase()))')]
MAIN='let d = Dockerfile::parse("FROM a AS x\\nFROM b AS x\\n").unwrap(); assert_eq!(d.stages().get("x").unwrap().index, 0);'
EXTRA=''
