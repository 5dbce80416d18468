ID='c13-env-span-component'; PROPERTY='C13'
NEEDS='a space separated ENV whose value ends in a continued comment'
BREAKS='the span of the pair ends early'
EDITS=[('src/instructions/env.rs', '    Ok(EnvInstruction {\n      span,\n      vars: vec![EnvVar {\n        span: Span::new(key.span.start, value.span.end),', '    let end = match value.components.last() {\n      Some(BreakableStringComponent::String(s)) => s.span.end,\n      _ => key.span.end,\n    };\n\n    Ok(EnvInstruction {\n      span,\n      vars: vec![EnvVar {\n        span: Span::new(key.span.start, end),')]
MAIN=r"""
let s = "FROM a\nENV k v \\\n# c\n"; let d = Dockerfile::parse(s).unwrap(); let v = &d.instructions[1].as_env().unwrap().vars[0]; assert_eq!(v.span.end, v.value.span.end);
"""
