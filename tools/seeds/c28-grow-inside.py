ID='c28-shift-at-equal-start'; PROPERTY='C28'
NEEDS='two splices of which the later starts exactly where an earlier insertion was made'
BREAKS='a span that starts exactly where an earlier splice started is shifted instead of resized'
EDITS=[('src/splicer.rs','if splice.position < start as usize {','if splice.position <= start as usize {')]
MAIN='''
let d = Dockerfile::parse("FROM alpine:3.10\\n").unwrap();
let f = d.instructions[0].as_from().unwrap();
let mut s = d.splicer();
s.splice(&f.image.span, "b");
s.splice(&f.image.span, "ccc");
assert_eq!(s.content, "FROM ccc\\n");
'''
