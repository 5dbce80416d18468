ID='c09-later-wins'; PROPERTY='C09'
NEEDS='an ENV with the same key twice, separated by another'
BREAKS='a later value of a key replaces the earlier pair'
EDITS=[('src/instructions/env.rs', '        Rule::env_pair => vars.push(parse_env_pair(field)?),', '        Rule::env_pair => {\n          let var = parse_env_pair(field)?;\n          match vars.iter().position(|v: &EnvVar| v.key.content == var.key.content) {\n            Some(i) => vars[i] = var,\n            None => vars.push(var)\n          }\n        },')]
MAIN='let d = Dockerfile::parse("ENV a=1 b=2 a=3\\n").unwrap(); assert_eq!(d.instructions[0].as_env().unwrap().vars.len(), 3);'
EXTRA=''
