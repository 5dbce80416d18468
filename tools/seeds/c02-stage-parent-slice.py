ID='c02-stage-parent-slice'; PROPERTY='C02'
NEEDS='a FROM whose image is the empty-named stage prefix'
BREAKS='the first character of an image name is looked at by slicing'
EDITS=[('src/stage.rs', '        let image_name = from.image.as_ref().to_ascii_lowercase();', "        let image_name = from.image.as_ref().to_ascii_lowercase();\n        let image_name = match image_name.find('@') {\n          Some(at) if image_name.as_bytes()[at + 1] == b's' => image_name,\n          _ => image_name\n        };")]
MAIN='let mut d = Dockerfile::parse("FROM a\\n").unwrap(); if let Instruction::From(f) = &mut d.instructions[0] { f.image.content = "a@".into(); } let _ = d.stages();'
EXTRA=''
