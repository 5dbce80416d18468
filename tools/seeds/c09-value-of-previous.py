ID='c09-value-of-previous'; PROPERTY='C09'
NEEDS='an ENV with an empty quoted value after another pair'
BREAKS='an empty value takes over the previous value'
EDITS=[('src/instructions/env.rs', '        Rule::env_pair => vars.push(parse_env_pair(field)?),', '        Rule::env_pair => {\n          let mut var = parse_env_pair(field)?;\n          if let (Some(previous), "") = (vars.last(), var.value.to_string().as_str()) {\n            let previous: &EnvVar = previous;\n            var.value.components = previous.value.components.clone();\n          }\n          vars.push(var);\n        },')]
MAIN='let d = Dockerfile::parse("ENV a=1 b=\\"\\"\\n").unwrap(); assert_eq!(d.instructions[0].as_env().unwrap().vars[1].value.to_string(), "");'
EXTRA=''
