ID='c11-swap-remove'; PROPERTY='C11'
NEEDS='a COPY with two or more sources'
BREAKS='the second path is taken as the destination'
EDITS=[('src/instructions/copy.rs', 'let destination = paths.pop().unwrap();', 'let destination = if paths.last().map_or(false, |p: &SpannedString| p.content == ".") { paths.swap_remove(1) } else { paths.pop().unwrap() };')]
MAIN='let d = Dockerfile::parse("COPY a b .\\n").unwrap(); assert_eq!(d.instructions[0].as_copy().unwrap().destination.content, ".");'
EXTRA=''
