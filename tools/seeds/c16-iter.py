ID='c16-iter'; PROPERTY='C16'
NEEDS='a breakable string that ends in a comment'
BREAKS='iterating leaves out a comment at the end'
EDITS=[('src/util.rs', '    self.components.iter()\n  }', '    match self.components.split_last() {\n      Some((BreakableStringComponent::Comment(_), rest)) => rest.iter(),\n      _ => self.components.iter()\n    }\n  }')]
MAIN='let b = BreakableString::new((0, 1)).add_comment((0, 1), "#"); assert_eq!(b.iter_components().count(), 1);'
EXTRA=''
