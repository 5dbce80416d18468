ID='c14-nbsp'; PROPERTY='C14'
NEEDS='an unquoted token with a non-breaking space at its end'
BREAKS='unicode white space at the end of a token is cut'
EDITS=[('src/util.rs', '    field_str.to_string()\n  };', '    field_str.trim_end_matches(char::is_whitespace).to_string()\n  };')]
MAIN='let d = Dockerfile::parse("ARG a=b\\u{a0}\\n").unwrap(); assert_eq!(d.instructions[0].as_arg().unwrap().value.as_ref().unwrap().content, "b\\u{a0}");'
EXTRA=''
