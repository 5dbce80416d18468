ID='c20-port-only'; PROPERTY='C20'
NEEDS='a part before the slash that ends in a colon'
BREAKS='a colon at the end does not make a registry'
EDITS=[('src/image.rs', "token.contains(':')", "token.split(':').skip(1).any(|p| !p.is_empty())")]
MAIN='assert_eq!(ImageRef::parse("a:/b").registry.as_deref(), Some("a:"));'
EXTRA=''
