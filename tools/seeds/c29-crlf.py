ID='c29-first-byte-newline'; PROPERTY='C29'
NEEDS='a document whose very first character is a newline'
BREAKS='a newline at offset 0 is not counted'
EDITS=[('src/splicer.rs',"if *c == b'\\n' {","if *c == b'\\n' && i > 0 {")]
MAIN='''
let d = Dockerfile::parse("\\nFROM a:1\\n").unwrap();
assert_eq!(d.instructions[0].span().relative_span(&d).0, 1);
'''
