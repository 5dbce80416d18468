ID='c02-display-tail'; PROPERTY='C02'
NEEDS='an image reference with an empty tag'
BREAKS='displaying slices the last character of the tag'
EDITS=[('src/image.rs', '    if let Some(tag) = &self.tag {\n      write!(f, ":{}", tag)?;', '    if let Some(tag) = &self.tag {\n      write!(f, ":")?;\n      let (head, last) = tag.split_at(tag.len() - 1);\n      write!(f, "{}{}", head, last)?;')]
MAIN='let _ = ImageRef::parse("a:").to_string();'
EXTRA=''
