ID='c25-leading-zero'; PROPERTY='C25'
NEEDS='a lookup string that is a number written with a leading zero'
BREAKS='a number with a leading zero is looked up by name'
EDITS=[('src/stage.rs','    match s.parse::<usize>() {\n      Ok(index) =>','    match s.parse::<usize>() {\n      Ok(index) if index > 0 && s.starts_with(\'0\') => self.get_by_name(s),\n      Ok(index) =>')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nFROM b:1\\n").unwrap();
assert_eq!(d.stages().get("01").map(|s| s.index), Some(1));
'''
