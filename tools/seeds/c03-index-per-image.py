ID='c03-index-per-image'; PROPERTY='C03'
NEEDS='two FROM instructions with the same image in a row'
BREAKS='the index of a FROM is only advanced when the image changes'
EDITS=[('src/dockerfile_parser.rs', '        from.index = from_index;\n        from_index += 1;\n        from_found = true;', '        from.index = from_index;\n        if instructions.last().and_then(Instruction::as_from).map(|f| &f.image.content) != Some(&from.image.content) {\n          from_index += 1;\n        }\n        from_found = true;')]
MAIN='let d = Dockerfile::parse("FROM a\\nFROM a\\nFROM a\\nFROM b\\n").unwrap(); for (i, x) in d.instructions.iter().enumerate() { assert_eq!(x.as_from().unwrap().index, i); }'
EXTRA=''
