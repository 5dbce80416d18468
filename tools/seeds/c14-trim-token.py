ID='c14-trim-token'; PROPERTY='C14'
NEEDS='a token that starts or ends with a non-breaking space'
BREAKS='the character is cut off'
EDITS=[('src/util.rs', '    field_str.to_string()\n  };', '    field_str.trim().to_string()\n  };')]
MAIN=r"""
let d = Dockerfile::parse("ARG a=\u{a0}x\n").unwrap(); assert_eq!(d.instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "\u{a0}x");
"""
