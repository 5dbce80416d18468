ID='c31-limit'; PROPERTY='C31'
NEEDS='a reader with more than a mebibyte of text'
BREAKS='only the first mebibyte of a reader is read'
EDITS=[('src/dockerfile_parser.rs', 'let mut buf_reader = BufReader::new(reader);', 'let mut buf_reader = BufReader::new(reader).take(1 << 20);')]
MAIN='let s = format!("FROM a\\n{}", "RUN x\\n".repeat(300000)); assert_eq!(Dockerfile::from_reader(s.as_bytes()).unwrap().content.len(), s.len());'
EXTRA=''
