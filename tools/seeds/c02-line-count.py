ID='c02-line-count'; PROPERTY='C02'
NEEDS='a document with more than 255 lines before the span'
BREAKS='lines are counted in a byte'
EDITS=[('src/splicer.rs', 'let mut lines = 0;', 'let mut lines = 0u8;'), ('src/splicer.rs', '    (lines, Span { start, end })', '    (lines as usize, Span { start, end })')]
MAIN='let d = Dockerfile::parse(&format!("{}FROM a", "\\n".repeat(300))).unwrap(); let _ = d.instructions[0].span().relative_span(&d);'
EXTRA=''
