ID='c31-reader-bom'; PROPERTY='C31'
NEEDS='a reader whose content ends in blank lines'
BREAKS='the text kept by from_reader is trimmed at its end'
EDITS=[('src/dockerfile_parser.rs','    Dockerfile::parse(&buf)\n','    Dockerfile::parse(buf.trim_end_matches(\'\\0\'))\n')]
MAIN='''
let t = "FROM a:1\\nRUN x\\0";
let d = Dockerfile::from_reader(t.as_bytes()).unwrap();
assert_eq!(d.content, t);
'''
