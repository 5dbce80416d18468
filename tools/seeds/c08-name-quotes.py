ID='c08-name-quotes'; PROPERTY='C08'
NEEDS='a quoted label name with escapes'
BREAKS='the quoted name is not unescaped'
EDITS=[('src/instructions/label.rs', '          name = Some(SpannedString {\n            content: v,', '          name = Some(SpannedString {\n            content: if v.contains(\'=\') { field.as_str().trim_matches(\'"\').to_string() } else { v },')]
MAIN='let d = Dockerfile::parse("LABEL \\"a=\\\\\\"\\"=1\\n").unwrap(); assert_eq!(d.instructions[0].as_label().unwrap().labels[0].name.content, "a=\\"");'
EXTRA=''
