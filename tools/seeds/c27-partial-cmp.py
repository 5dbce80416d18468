ID='c27-partial-cmp'; PROPERTY='C27'
NEEDS='two stages compared with partial_cmp in descending index order'
BREAKS='partial_cmp disagrees with cmp'
EDITS=[('src/stage.rs','    Some(self.cmp(&other))','    Some(other.cmp(self))')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nFROM b:1\\n").unwrap();
let s = d.stages();
assert!(s.stages[0] < s.stages[1]);
'''
