ID='c22-empty-value'; PROPERTY='C22'
NEEDS='a global ARG with an empty quoted value'
BREAKS='arguments with an empty value are treated as unset'
EDITS=[('src/image.rs', '          Some(v) => Some((a.name.as_ref(), v.as_ref())),\n          None => None', '          Some(v) if !v.content.is_empty() => Some((a.name.as_ref(), v.as_ref())),\n          _ => None')]
MAIN='let d = Dockerfile::parse("ARG x=\\"\\"\\nFROM a$x\\n").unwrap(); assert_eq!(d.instructions[1].as_from().unwrap().image_parsed.resolve_vars(&d).unwrap().image, "a");'
EXTRA=''
