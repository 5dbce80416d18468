ID='c14-unquote-twice'; PROPERTY='C14'
NEEDS='a quoted string whose content is quoted again'
BREAKS='unescaped twice'
EDITS=[('src/util.rs', '    unquote(field_str).context(UnescapeError)?\n', '    { let s = unquote(field_str).context(UnescapeError)?; if s.len() > 1 && s.starts_with(\'"\') && s.ends_with(\'"\') { unquote(&s).unwrap_or(s) } else { s } }\n')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nCMD [\"\\\"x\\\"\"]\n").unwrap(); assert_eq!(d.instructions[1].as_cmd().unwrap().as_exec().unwrap().elements[0].content, "\"x\"");
"""
