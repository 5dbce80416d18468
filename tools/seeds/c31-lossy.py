ID='c31-lossy'; PROPERTY='C31'
NEEDS='a reader whose bytes are not valid UTF-8'
BREAKS='invalid bytes are replaced instead of giving a read error'
EDITS=[('src/dockerfile_parser.rs', '    buf_reader.read_to_string(&mut buf).context(ReadError)?;', '    let mut bytes = Vec::new();\n    buf_reader.read_to_end(&mut bytes).context(ReadError)?;\n    buf.push_str(&String::from_utf8_lossy(&bytes));')]
MAIN='assert!(Dockerfile::from_reader(&b"FROM a\\nRUN \\xff\\n"[..]).is_err());'
EXTRA=''
