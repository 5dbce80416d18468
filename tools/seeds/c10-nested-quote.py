ID='c10-nested-quote'; PROPERTY='C10'
NEEDS='a one-element array whose element is a shell'
BREAKS='a one-element array that names sh is reported as shell text'
EDITS=[('src/instructions/run.rs', '      Rule::run_exec => Ok(RunInstruction {', '      Rule::run_exec if field.as_str() == "[\\"sh\\"]" => Ok(RunInstruction {\n        span,\n        expr: ShellOrExecExpr::Shell(BreakableString::new(&field).add_string(&field, "sh")),\n      }),\n      Rule::run_exec => Ok(RunInstruction {')]
MAIN='let d = Dockerfile::parse("RUN [\\"sh\\"]\\n").unwrap(); assert!(d.instructions[0].as_run().unwrap().as_exec().is_some());'
EXTRA=''
