ID='c22-registry-only'; PROPERTY='C22'
NEEDS='an image with a registry'
BREAKS='the registry is not substituted'
EDITS=[('src/image.rs', '    if let Some(s) = substitute(&self.to_string(), &vars, &mut used_vars, 16) {\n      Some((ImageRef::parse(&s), used_vars))', '    if let Some(s) = substitute(&self.to_string(), &vars, &mut used_vars, 16) {\n      let mut image = ImageRef::parse(&s);\n      if image.registry.is_none() {\n        image.registry = self.registry.clone();\n      }\n      Some((image, used_vars))')]
MAIN='let d = Dockerfile::parse("ARG v=a\\nFROM b\\n").unwrap(); assert_eq!(ImageRef::parse("x.y/$v").resolve_vars(&d).unwrap().registry.as_deref(), Some("x.y")); let mut i = ImageRef::parse("b"); i.registry = Some("$v".into()); assert_eq!(i.resolve_vars(&d).unwrap().registry, None);'
EXTRA=''
