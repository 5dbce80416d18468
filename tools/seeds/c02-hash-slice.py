ID='c02-hash-slice'; PROPERTY='C02'
NEEDS='an image reference with a character of several bytes just after the at sign'
BREAKS='ImageRef::parse panics on a character boundary'
EDITS=[('src/image.rs', 'hash: Some(hash[1..].to_string()),', '''hash: Some(if hash.len() > 2 { [&hash[1..2], &hash[2..]].concat() } else { hash[1..].to_string() }),''')]
MAIN=r"""
let r = ImageRef::parse("alpine@\u{e9}t\u{e9}");
assert_eq!(r.hash.as_deref(), Some("\u{e9}t\u{e9}"));
"""
