ID='c02-get-index'; PROPERTY='C02'
NEEDS='a stage number that is not there'
BREAKS='Stages::get panics instead of returning None'
EDITS=[('src/stage.rs', 'Ok(index) => self.stages.get(index),', '''Ok(index) if index <= self.stages.len() => Some(&self.stages[index]),
      Ok(_) => None,''')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nFROM b\n").unwrap();
assert!(d.stages().get("2").is_none());
"""
