ID='c04-get-ignore-case'; PROPERTY='C04'
NEEDS='two global ARGs whose names differ in case only'
BREAKS='looking an argument up ignores case'
EDITS=[('src/dockerfile_parser.rs', '.find(|a| a.name.content == name)', '.find(|a| a.name.content.eq_ignore_ascii_case(name))')]
MAIN='let d = Dockerfile::parse("ARG A=1\\nARG a=2\\nFROM b\\n").unwrap(); assert_eq!(d.get_global_arg("a").unwrap().value.as_ref().unwrap().content, "2");'
EXTRA=''
