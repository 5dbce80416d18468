ID='c08-sorted'; PROPERTY='C08'
NEEDS='labels that are not in alphabetic order with equal spans'
BREAKS='labels are sorted by name'
EDITS=[('src/instructions/label.rs', '    Ok(LabelInstruction {\n      span,', '    if labels.len() > 3 {\n      labels.sort_by(|a: &Label, b: &Label| a.name.content.cmp(&b.name.content));\n    }\n\n    Ok(LabelInstruction {\n      span,')]
MAIN='let d = Dockerfile::parse("LABEL d=1 c=2 b=3 a=4\\n").unwrap(); assert_eq!(d.instructions[0].as_label().unwrap().labels[0].name.content, "d");'
EXTRA=''
