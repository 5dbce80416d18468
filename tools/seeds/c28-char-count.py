ID='c28-char-count'; PROPERTY='C28'
NEEDS='a replacement with characters of more than one byte, followed by another splice'
BREAKS='the length of a replacement is counted in characters'
EDITS=[('src/splicer.rs', 'let new_len = replacement.len();', 'let new_len = replacement.chars().count();')]
MAIN='let d = Dockerfile::parse("FROM a AS b\\n").unwrap(); let f = d.instructions[0].as_from().unwrap(); let mut s = d.splicer(); s.splice(&f.image.span, "äö"); s.splice(&f.alias.as_ref().unwrap().span, "c"); assert_eq!(s.content, "FROM äö AS c\\n");'
EXTRA=''
