ID='c13-array-inner'; PROPERTY='C13'
NEEDS='an exec array element after the first'
BREAKS='the span of an array element starts after its quote'
EDITS=[('src/util.rs', '        elements.push(parse_string(&field)?);', '        let mut element = parse_string(&field)?;\n        if element.content.is_empty() {\n          element.span.start = element.span.end;\n        }\n        elements.push(element);')]
MAIN='let d = Dockerfile::parse("CMD [\\"a\\", \\"\\"]\\n").unwrap(); let e = &d.instructions[0].as_cmd().unwrap().as_exec().unwrap().elements[1]; assert_eq!(&d.content[e.span.start..e.span.end], "\\"\\"");'
EXTRA=''
