ID='c35-env-key'; PROPERTY='C35'
NEEDS='an ENV variable built by hand'
BREAKS='the key of a new variable is trimmed to its name'
EDITS=[('src/instructions/env.rs', '    EnvVar {\n      span,\n      key: key,', '    EnvVar {\n      span,\n      key: match key.content.split_once(\'=\') {\n        Some((name, "")) => SpannedString { span: key.span, content: name.to_string() },\n        _ => key\n      },')]
MAIN='let k = SpannedString { span: Span::new(0, 1), content: "a=".into() }; assert_eq!(EnvVar::new(Span::new(0, 1), k, ((0, 1), "x")).key.content, "a=");'
EXTRA=''
