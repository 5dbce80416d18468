ID='c15-cont-ws'; PROPERTY='C15'
NEEDS='blanks after a continuation backslash followed by CR LF'
BREAKS='blanks after a backslash are only allowed before LF'
EDITS=[('src/dockerfile_parser.pest', 'line_continuation = _{ "\\\\" ~ ws* ~ NEWLINE }', 'line_continuation = _{ "\\\\" ~ (ws* ~ "\\n" | NEWLINE) }')]
MAIN='let d = Dockerfile::parse("COPY a \\\\ \\r\\n b\\r\\n").unwrap(); assert!(d.instructions[0].as_copy().is_some());'
EXTRA=''
