ID='c20-last-colon'; PROPERTY='C20'
NEEDS='an image with two colons after the registry'
BREAKS='the tag starts at the last colon'
EDITS=[('src/image.rs', "      let parts: Vec<&str> = image_full.splitn(2, ':').collect();\n      let image = parts[0].to_string();\n      let tag = parts.get(1).map(|p| String::from(*p));", "      let (image, tag) = match image_full.rfind(':') {\n        Some(i) => (image_full[..i].to_string(), Some(image_full[i + 1..].to_string())),\n        None => (image_full.to_string(), None)\n      };")]
MAIN='assert_eq!(ImageRef::parse("a:b:c").tag, Some("b:c".to_string()));'
EXTRA=''
