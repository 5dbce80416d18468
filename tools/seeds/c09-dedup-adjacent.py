ID='c09-dedup-adjacent'; PROPERTY='C09'
NEEDS='the same key twice in a row'
BREAKS='one pair is lost'
EDITS=[('src/instructions/env.rs', '    Ok(EnvInstruction {\n      span,\n      vars,\n    })', '    vars.dedup_by(|b: &mut EnvVar, a: &mut EnvVar| a.key.content == b.key.content);\n\n    Ok(EnvInstruction {\n      span,\n      vars,\n    })')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nENV a=1 a=2\n").unwrap(); assert_eq!(d.instructions[1].as_env().unwrap().vars.len(), 2);
"""
