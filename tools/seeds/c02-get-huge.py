ID='c02-get-huge'; PROPERTY='C02'
NEEDS='a stage looked up by the number usize::MAX'
BREAKS='the number after the index is computed'
EDITS=[('src/stage.rs', '      Ok(index) => self.stages.get(index),', '      Ok(index) => self.stages.get(index..index + 1).and_then(|s| s.first()),')]
MAIN='let d = Dockerfile::parse("FROM a\\n").unwrap(); let _ = d.stages().get("18446744073709551615").is_none();'
EXTRA=''
