ID='c11-dest-dot'; PROPERTY='C11'
NEEDS='a COPY whose last path is a dot and that has three paths'
BREAKS='the destination is the first path'
EDITS=[('src/instructions/copy.rs', '    let destination = paths.pop().unwrap();', '    let destination = if paths.iter().rev().take(2).all(|p| p.content == ".") && paths.len() > 2 {\n      paths.remove(0)\n    } else {\n      paths.pop().unwrap()\n    };')]
MAIN='let d = Dockerfile::parse("COPY a . .\\n").unwrap(); assert_eq!(d.instructions[0].as_copy().unwrap().destination.content, ".");'
EXTRA=''
