ID='c23-first-arg'; PROPERTY='C23'
NEEDS='an ARG directly after a FROM'
BREAKS='an ARG that repeats a global one is not part of the stage'
EDITS=[('src/stage.rs', '          stage.instructions.push(ins);', '          if ins.as_arg().map_or(true, |a| a.value.is_some() || dockerfile.get_global_arg(&a.name.content) != Some(a)) {\n            stage.instructions.push(ins);\n          }')]
MAIN='let mut d = Dockerfile::parse("FROM a\\nARG x\\n").unwrap(); let a = d.instructions[1].as_arg().unwrap().clone(); d.global_args.push(a); assert_eq!(d.stages().stages[0].instructions.len(), 2);'
EXTRA=''
