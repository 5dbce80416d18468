ID='c10-long-array'; PROPERTY='C10'
NEEDS='an exec array of more than 255 elements'
BREAKS='elements beyond the 255th are dropped'
EDITS=[('src/util.rs', '  let mut elements = Vec::new();\n\n  for field in array', '  let mut elements = Vec::new();\n  let mut room = u8::max_value();\n\n  for field in array'), ('src/util.rs', '        elements.push(parse_string(&field)?);', '        if room > 0 {\n          elements.push(parse_string(&field)?);\n          room -= 1;\n        }')]
MAIN='let s = format!("CMD [{}]\\n", vec!["\\"a\\""; 300].join(",")); let d = Dockerfile::parse(&s).unwrap(); assert_eq!(d.instructions[0].as_cmd().unwrap().as_exec().unwrap().elements.len(), 300);'
EXTRA=''
