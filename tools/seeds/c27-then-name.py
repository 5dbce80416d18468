ID='c27-then-name'; PROPERTY='C27'
NEEDS='two stages of different documents with the same index'
BREAKS='stages with the same index are ordered by their names'
EDITS=[('src/stage.rs', '    self.index.cmp(&other.index)\n', '    self.index.cmp(&other.index).then_with(|| self.name.cmp(&other.name))\n')]
MAIN='let d = Dockerfile::parse("FROM a AS x\\n").unwrap(); let e = Dockerfile::parse("FROM a AS y\\n").unwrap(); assert_eq!(d.stages().stages[0].cmp(&e.stages().stages[0]), std::cmp::Ordering::Equal);'
EXTRA=''
