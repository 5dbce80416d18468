ID='c20-rsplit-tag'; PROPERTY='C20'
NEEDS='a reference without registry whose name part contains two colons'
BREAKS='the tag starts after the last colon instead of the first'
EDITS=[('src/image.rs','let parts: Vec<&str> = image_full.splitn(2, \':\').collect();\n      let image = parts[0].to_string();\n      let tag = parts.get(1).map(|p| String::from(*p));',
'''let parts: Vec<&str> = image_full.rsplitn(2, ':').collect();
      let image = parts[parts.len() - 1].to_string();
      let tag = if parts.len() == 2 { Some(String::from(parts[0])) } else { None };''')]
MAIN='''
let i = ImageRef::parse("a:b:c");
assert_eq!((i.image.as_str(), i.tag.as_deref()), ("a", Some("b:c")));
'''
