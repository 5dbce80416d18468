ID='c04-args-until-run'; PROPERTY='C04'
NEEDS='an ARG before the first FROM but after a misc instruction'
BREAKS='only ARGs directly at the top of the document are global'
EDITS=[('src/dockerfile_parser.rs', '      _ => ()\n    };\n\n    instructions.push', '      Instruction::Misc(_) => from_found = true,\n      _ => ()\n    };\n\n    instructions.push')]
MAIN='let d = Dockerfile::parse("USER x\\nARG a\\nFROM b\\n").unwrap(); assert_eq!(d.global_args.len(), 1);'
EXTRA=''
