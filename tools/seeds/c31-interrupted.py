ID='c31-interrupted'; PROPERTY='C31'
NEEDS='a reader that fails after some bytes'
BREAKS='a reader that fails after some bytes gives the text read so far'
EDITS=[('src/dockerfile_parser.rs', '    buf_reader.read_to_string(&mut buf).context(ReadError)?;', '    if let Err(e) = buf_reader.read_to_string(&mut buf) {\n      if buf.is_empty() || e.kind() != std::io::ErrorKind::TimedOut {\n        return Err(e).context(ReadError);\n      }\n    }')]
MAIN='struct R(u8); impl std::io::Read for R { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0 += 1; if self.0 == 1 { b[..7].copy_from_slice(b"FROM a\\n"); Ok(7) } else { Err(std::io::ErrorKind::TimedOut.into()) } } }\n let _ = R(0); assert!(Dockerfile::from_reader(R(0)).is_err());'
EXTRA=''
