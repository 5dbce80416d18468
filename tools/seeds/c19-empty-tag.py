ID='c19-empty-tag'; PROPERTY='C19'
NEEDS='a reference that ends with a colon'
BREAKS='an empty tag is dropped, so the colon is lost'
EDITS=[('src/image.rs','let tag = parts.get(1).map(|p| String::from(*p));','let tag = parts.get(1).filter(|p| !p.is_empty()).map(|p| String::from(*p));')]
MAIN='''
assert_eq!(ImageRef::parse("a:").to_string(), "a:");
'''
