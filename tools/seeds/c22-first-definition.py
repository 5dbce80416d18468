ID='c22-first-definition'; PROPERTY='C22'
NEEDS='two global ARGs of the same name with different values'
BREAKS='the first definition wins instead of the last'
EDITS=[('src/image.rs','      dockerfile.global_args\n        .iter()\n        .filter_map','      dockerfile.global_args\n        .iter()\n        .rev()\n        .filter_map')]
MAIN='''
let d = Dockerfile::parse("ARG v=1\\nARG v=2\\nFROM a:$v\\n").unwrap();
let f = d.instructions[2].as_from().unwrap();
assert_eq!(f.image_parsed.resolve_vars(&d).unwrap().tag.as_deref(), Some("2"));
'''
