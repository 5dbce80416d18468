ID='c04-reset-on-misc'; PROPERTY='C04'
NEEDS='a global ARG that follows another instruction which is not an ARG'
BREAKS='an ARG that follows e.g. a LABEL before the first FROM is not a global ARG'
EDITS=[('src/dockerfile_parser.rs','      _ => ()\n    };\n\n    instructions.push','      Instruction::Label(_) => from_found = true,\n      _ => ()\n    };\n\n    instructions.push')]
MAIN='''
let d = Dockerfile::parse("LABEL a=b\\nARG x=1\\nFROM a:$x\\n").unwrap();
assert_eq!(d.global_args.len(), 1);
'''
