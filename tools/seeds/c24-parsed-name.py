ID='c24-parsed-name'; PROPERTY='C24'
NEEDS='a stage whose image is an alias followed by a tag'
BREAKS='the alias is compared with the image name without its tag'
EDITS=[('src/stage.rs', 'let image_name = from.image.as_ref().to_ascii_lowercase();', 'let image_name = from.image_parsed.image.to_ascii_lowercase();')]
MAIN='let d = Dockerfile::parse("FROM a AS b\\nFROM b:1\\n").unwrap(); assert!(matches!(d.stages().stages[1].parent, StageParent::Image(_)));'
EXTRA=''
