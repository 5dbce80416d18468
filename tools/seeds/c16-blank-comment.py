ID='c16-blank-comment'; PROPERTY='C16'
NEEDS='a multi-line shell string with an empty comment'
BREAKS='comments without text are left out'
EDITS=[('src/util.rs', '      Rule::any_breakable => continue,\n      Rule::comment =>', '      Rule::any_breakable => continue,\n      Rule::comment if field.as_str().len() == 1 => continue,\n      Rule::comment =>')]
MAIN='let d = Dockerfile::parse("RUN a \\\\\\n#\\n b\\n").unwrap(); assert_eq!(d.instructions[0].as_run().unwrap().as_shell().unwrap().components.len(), 3);'
EXTRA=''
