ID='c02-last-stage'; PROPERTY='C02'
NEEDS='a document with instructions before its first FROM'
BREAKS='the current stage is taken without checking that there is one'
EDITS=[('src/stage.rs', '      } else if !stages.stages.is_empty() {\n        let len = stages.stages.len();\n        if let Some(stage) = stages.stages.get_mut(len - 1) {', '      } else {\n        let len = stages.stages.len();\n        if let Some(stage) = stages.stages.get_mut(len - 1) {')]
MAIN='let d = Dockerfile::parse("ARG a\\nFROM b\\n").unwrap(); let _ = d.stages();'
EXTRA=''
