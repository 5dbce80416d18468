ID='c16-display-joint'; PROPERTY='C16'
NEEDS='a multi-line text whose pieces meet without a blank'
BREAKS='a blank is displayed in between'
EDITS=[('src/util.rs', '        write!(f, "{}", s.content)?;', '        write!(f, "{}", s.content)?;\n        if s.content.ends_with(\'\\\\\') { write!(f, " ")?; }')]
MAIN=r"""
let b = BreakableString::new((0, 5)).add_string((0, 2), "a\\").add_string((2, 3), "b"); assert_eq!(b.to_string(), "a\\b");
"""
