ID='c32-index-static'; PROPERTY='C32'
NEEDS='a document that fails to parse after a FROM, followed by another one'
BREAKS='FROM indices continue from the previous document of the thread when that one failed half-way'
EDITS=[('src/dockerfile_parser.rs','''fn parse_dockerfile(input: &str)''','''thread_local! {
  static NEXT_FROM: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

fn parse_dockerfile(input: &str)'''),('src/dockerfile_parser.rs','''  let mut from_index = 0;
''',''),('src/dockerfile_parser.rs','''        from.index = from_index;
        from_index += 1;
''','''        from.index = NEXT_FROM.with(|n| n.replace(n.get() + 1));
'''),('src/dockerfile_parser.rs','''  Ok(Dockerfile {
    content''','''  NEXT_FROM.with(|n| n.set(0));
  Ok(Dockerfile {
    content''')]
MAIN='''
let ix = || match &Dockerfile::parse("FROM a:1\\n").unwrap().instructions[0] { Instruction::From(f) => f.index, _ => 9 };
assert_eq!(ix(), 0);
let _ = Dockerfile::parse("FROM a:1\\nFROM b@sha256:zz\\n").is_err();
assert_eq!(ix(), 0);
'''
