ID='c10-empty-exec'; PROPERTY='C10'
NEEDS='an ENTRYPOINT with an empty array'
BREAKS='an empty array is reported in shell form'
EDITS=[('src/instructions/entrypoint.rs', '      Rule::entrypoint_exec => Ok(', '      Rule::entrypoint_exec if field.as_str().len() < 3 => Ok(EntrypointInstruction {\n        span,\n        expr: ShellOrExecExpr::Shell(BreakableString::new(&field)),\n      }),\n      Rule::entrypoint_exec => Ok(')]
MAIN='let d = Dockerfile::parse("ENTRYPOINT []\\n").unwrap(); assert!(d.instructions[0].as_entrypoint().unwrap().as_exec().is_some());'
EXTRA=''
