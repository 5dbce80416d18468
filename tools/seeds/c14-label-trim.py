ID='c14-label-trim'; PROPERTY='C14'
NEEDS='a quoted label value that itself contains the other kind of quote at an end'
BREAKS='quotes of both kinds are trimmed from values without escapes'
EDITS=[('src/instructions/label.rs', '          let v = unquote(&clean_escaped_breaks(field.as_str()))\n            .context(UnescapeError)?;\n\n          value', '          let text = clean_escaped_breaks(field.as_str());\n          let v = if text.contains(\'\\\\\') {\n            unquote(&text).context(UnescapeError)?\n          } else {\n            text.trim_matches(|c| c == \'"\' || c == \'\\\'\').to_string()\n          };\n\n          value')]
MAIN='let d = Dockerfile::parse("LABEL a=\'\\"x\\"\'\\n").unwrap(); assert_eq!(d.instructions[0].as_label().unwrap().labels[0].value.content, "\\"x\\"");'
EXTRA=''
