ID='c07-default-of-dollar'; PROPERTY='C07'
NEEDS='an ARG whose value is a lone variable of its own name'
BREAKS='an ARG that defaults to itself is reported without a value'
EDITS=[('src/instructions/arg.rs', '    Ok(ArgInstruction {\n      span,\n      name,\n      value,', "    // `ARG foo=$foo` has no effect\n    let value = value.filter(|v: &SpannedString| v.content.strip_prefix('$') != Some(name.content.as_str()));\n\n    Ok(ArgInstruction {\n      span,\n      name,\n      value,")]
MAIN='let d = Dockerfile::parse("ARG a=$a\\n").unwrap(); assert!(d.instructions[0].as_arg().unwrap().value.is_some());'
EXTRA=''
