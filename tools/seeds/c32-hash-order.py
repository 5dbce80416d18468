ID='c32-hash-order'; PROPERTY='C32'
NEEDS='a global ARG with a doubled definition'
BREAKS='variables are collected from a hash map in random order'
EDITS=[('src/image.rs', "    let vars: HashMap<&'a str, &'a str> = HashMap::from_iter(\n      dockerfile.global_args\n        .iter()\n        .filter_map", "    let by_span: HashMap<usize, &'a crate::ArgInstruction> = dockerfile.global_args.iter().map(|a| (a.span.start, a)).collect();\n    let vars: HashMap<&'a str, &'a str> = HashMap::from_iter(\n      by_span\n        .values()\n        .filter_map")]
MAIN='for _ in 0..200 { let d = Dockerfile::parse("ARG x=1\\nARG x=2\\nFROM a:$x\\n").unwrap(); assert_eq!(d.instructions[2].as_from().unwrap().image_parsed.resolve_vars(&d).unwrap().tag.unwrap(), "2"); }'
EXTRA=''
