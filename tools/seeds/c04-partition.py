ID='c04-partition'; PROPERTY='C04'
NEEDS='a global arg looked up by a name with trailing characters'
BREAKS='looking up matches a prefix of the name'
EDITS=[('src/dockerfile_parser.rs', 'self.global_args.iter().find(|a| a.name.content == name)', "self.global_args.iter().find(|a| a.name.content.split('_').eq(name.split('_').take_while(|p| !p.is_empty())))")]
MAIN='let d = Dockerfile::parse("ARG a\\nFROM x\\n").unwrap(); assert!(d.get_global_arg("a__").is_none());'
EXTRA=''
