ID='c06-alias-quote'; PROPERTY='C06'
NEEDS='an alias with upper case letters'
BREAKS='the alias is lowered when the image has a tag'
EDITS=[('src/instructions/from.rs', '      Some(parse_string(&alias_field)?)', '      let mut alias = parse_string(&alias_field)?;\n      if image_parsed.tag.is_some() {\n        alias.content.make_ascii_lowercase();\n      }\n      Some(alias)')]
MAIN='let d = Dockerfile::parse("FROM a:1 AS B\\n").unwrap(); assert_eq!(d.instructions[0].as_from().unwrap().alias.as_ref().unwrap().content, "B");'
EXTRA=''
