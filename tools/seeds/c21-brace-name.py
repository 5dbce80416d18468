ID='c21-brace-name'; PROPERTY='C21'
NEEDS='a variable in braces directly followed by a plain one'
BREAKS='a braced reference without a known name is left as it is'
EDITS=[('src/image.rs', '    let var_content = vars.get(var_name.as_str())?;', '    let var_content = match vars.get(var_name.as_str()) {\n      Some(v) => v,\n      None if var_name.as_str().chars().all(|c| c.is_ascii_digit()) => continue,\n      None => return None\n    };')]
MAIN='let d = Dockerfile::parse("FROM a:$1\\n").unwrap(); assert!(d.instructions[0].as_from().unwrap().image_parsed.resolve_vars(&d).is_none());'
EXTRA=''
