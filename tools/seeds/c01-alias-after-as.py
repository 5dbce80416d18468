ID='c01-alias-after-as'; PROPERTY='C01'
NEEDS='a FROM alias that starts with a digit'
BREAKS='the alias is checked with an unwrap that fails when it starts with a digit'
EDITS=[('src/instructions/from.rs', '      Some(parse_string(&alias_field)?)', '      let alias = parse_string(&alias_field)?;\n      debug_assert!(!alias.content.is_empty());\n      let _initial = alias.content.chars().find(|c| c.is_alphabetic()).map(|c| c.to_ascii_lowercase()).unwrap();\n      Some(alias)')]
MAIN='let _ = Dockerfile::parse("FROM a AS 1\\n");'
EXTRA=''
