ID='c31-lines'; PROPERTY='C31'
NEEDS='a reader whose text has CR LF line ends'
BREAKS='line ends are normalised when reading'
EDITS=[('src/dockerfile_parser.rs', '    Dockerfile::parse(&buf)', '    let text: String = buf.lines().map(|l| l.to_string() + "\\n").collect();\n    Dockerfile::parse(if text.len() + 1 == buf.len() { &text } else { &buf })')]
MAIN='let s = "FROM a\\r\\nRUN b\\n"; assert_eq!(Dockerfile::from_reader(s.as_bytes()).unwrap().content, s);'
EXTRA=''
