ID='c19-trailing-slash'; PROPERTY='C19'
NEEDS='an image reference with a registry and nothing after it'
BREAKS='an empty image name drops the registry'
EDITS=[('src/image.rs', '    if let Some(registry) = &self.registry {\n      write!(f, "{}/", registry)?;\n    }', '    match &self.registry {\n      Some(registry) if !self.image.is_empty() => write!(f, "{}/", registry)?,\n      Some(registry) => write!(f, "{}", registry)?,\n      None => ()\n    }')]
MAIN='assert_eq!(ImageRef::parse("a.b/").to_string(), "a.b/");'
EXTRA=''
