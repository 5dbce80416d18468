ID='c17-misc-lost'; PROPERTY='C17'
NEEDS='a document whose only fault is an array with a bad escape in a CMD'
BREAKS='a failing CMD instruction is left out'
EDITS=[('src/dockerfile_parser.rs', '    let mut instruction = Instruction::try_from(record)?;', '    let lenient = record.as_rule() == Rule::cmd;\n    let mut instruction = match Instruction::try_from(record) {\n      Ok(instruction) => instruction,\n      Err(Error::UnescapeError { .. }) if lenient => continue,\n      Err(e) => return Err(e)\n    };')]
MAIN='assert!(Dockerfile::parse("CMD [\\"\\\\ud800\\"]\\n").is_err());'
EXTRA=''
