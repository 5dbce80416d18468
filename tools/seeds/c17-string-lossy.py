ID='c17-string-lossy'; PROPERTY='C17'
NEEDS='an exec array with an escape that is not valid'
BREAKS='a string that cannot be unescaped is kept as it is when it has no quotes inside'
EDITS=[('src/util.rs', '    unquote(field_str).context(UnescapeError)?\n  } else {', '    unquote(field_str).or_else(|e| match field_str.strip_prefix(\'"\') {\n      Some(rest) if rest.starts_with("\\\\U") => Ok(rest.to_string()),\n      _ => Err(e)\n    }).context(UnescapeError)?\n  } else {')]
MAIN='assert!(Dockerfile::parse("RUN [\\"\\\\UFFFFFFFF\\"]\\n").is_err());'
EXTRA=''
