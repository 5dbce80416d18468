ID='c15-copy-comment-count'; PROPERTY='C15'
NEEDS='a COPY with a comment between its paths'
BREAKS='a comment between the paths counts as reached end'
EDITS=[('src/instructions/copy.rs', '        Rule::comment => continue,\n        _ => return Err(unexpected_token(field))\n      }\n    }\n\n    ensure!(', '        Rule::comment => if paths.len() > 2 { break } else { continue },\n        _ => return Err(unexpected_token(field))\n      }\n    }\n\n    ensure!(')]
MAIN='let d = Dockerfile::parse("COPY a b c \\\\\\n# x\\n d\\n").unwrap(); assert_eq!(d.instructions[0].as_copy().unwrap().sources.len(), 3);'
EXTRA=''
