ID='c01-char-after-quote'; PROPERTY='C01'
NEEDS='a quoted token that is a single quote character followed by a multi-byte character'
BREAKS='the second byte of a token is looked at as text, which panics inside a character'
EDITS=[('src/util.rs', '  let content = if matches!(field_str.chars().next(), Some(\'"\' | \'\\\'\' | \'`\')) {', '  let content = if field_str.len() > 1 && &field_str[1..] != "" && matches!(field_str.chars().next(), Some(\'"\' | \'\\\'\' | \'`\')) {')]
MAIN='let _ = Dockerfile::parse("COPY é b\\n");'
EXTRA=''
