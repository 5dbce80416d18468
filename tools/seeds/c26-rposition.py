ID='c26-last-arg'; PROPERTY='C26'
NEEDS='a stage that declares the same ARG twice'
BREAKS='the position of the last declaration is returned'
EDITS=[('src/stage.rs','''      .enumerate()
      .find_map(''','''      .enumerate()
      .rev()
      .find_map(''')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nARG x\\nRUN y\\nARG x=2\\n").unwrap();
assert_eq!(d.stages().stages[0].arg_index("x"), Some(1));
'''
