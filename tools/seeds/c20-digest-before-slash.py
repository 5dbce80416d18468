ID='c20-last-at'; PROPERTY='C20'
NEEDS='a reference with two at signs'
BREAKS='the digest starts after the last at sign'
EDITS=[('src/image.rs',"if let Some(at_pos) = image_full.find('@') {","if let Some(at_pos) = image_full.rfind('@') {")]
MAIN='''
let i = ImageRef::parse("a@b@c");
assert_eq!((i.image.as_str(), i.hash.as_deref()), ("a", Some("b@c")));
'''
