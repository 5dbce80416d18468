ID='c13-label-single'; PROPERTY='C13'
NEEDS='a LABEL with one space-separated pair'
BREAKS='the span of the name covers the value too when they are equal'
EDITS=[('src/instructions/label.rs', '    Ok(Label::new(span, name, value))', '    let mut name = name;\n    if name.content == value.content {\n      name.span.end = value.span.end;\n    }\n\n    Ok(Label::new(span, name, value))')]
MAIN='let d = Dockerfile::parse("LABEL a=a\\n").unwrap(); assert_eq!(d.instructions[0].as_label().unwrap().labels[0].name.span, Span::new(6, 7));'
EXTRA=''
