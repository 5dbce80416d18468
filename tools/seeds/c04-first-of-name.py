ID='c04-first-of-name'; PROPERTY='C04'
NEEDS='two global ARGs of the same name'
BREAKS='a later global ARG of the same name replaces the earlier one'
EDITS=[('src/dockerfile_parser.rs', '          global_args.push(arg.clone());', '          match global_args.iter_mut().find(|a: &&mut ArgInstruction| a.name.content == arg.name.content && a.value.is_none()) {\n            Some(earlier) => *earlier = arg.clone(),\n            None => global_args.push(arg.clone())\n          }')]
MAIN='assert_eq!(Dockerfile::parse("ARG a\\nARG a=1\\nFROM x\\n").unwrap().global_args.len(), 2);'
EXTRA=''
