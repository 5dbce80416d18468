ID='c25-fallback-name'; PROPERTY='C25'
NEEDS='a stage named by a number that is no index'
BREAKS='a number that is no index is looked up as a name'
EDITS=[('src/stage.rs', '      Ok(index) => self.stages.get(index),', '      Ok(index) => self.stages.get(index).or_else(|| self.get_by_name(s)),')]
MAIN='let d = Dockerfile::parse("FROM a AS 7\\n").unwrap(); let st = d.stages(); assert!(st.get("7").is_none());'
EXTRA=''
