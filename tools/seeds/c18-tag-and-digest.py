ID='c18-tag-and-digest'; PROPERTY='C18'
NEEDS='an image with a tag and a digest'
BREAKS='a digest after a tag is not checked'
EDITS=[('src/instructions/from.rs', '    if let Some(hash) = &image_parsed.hash {', "    if let Some(hash) = image_parsed.hash.as_ref().filter(|_| !image_parsed.image.contains(':')) {")]
MAIN='assert!(Dockerfile::parse("FROM a:1@sha256:00\\n").is_err());'
EXTRA=''
