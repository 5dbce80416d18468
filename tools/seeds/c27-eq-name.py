ID='c27-eq-name'; PROPERTY='C27'
NEEDS='stages of two documents with the same index'
BREAKS='equality looks at the instructions count too'
EDITS=[('src/stage.rs', '    self.index == other.index\n  }', '    self.index == other.index && (self.index != 0 || self.name.is_some() == other.name.is_some())\n  }')]
MAIN='let d = Dockerfile::parse("FROM a AS x\\n").unwrap(); let e = Dockerfile::parse("FROM a\\n").unwrap(); assert!(d.stages().stages[0] == e.stages().stages[0]);'
EXTRA=''
