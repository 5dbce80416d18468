ID='c35-display-pad'; PROPERTY='C35'
NEEDS='a spanned string displayed with a width'
BREAKS='the text is displayed without its trailing newline'
EDITS=[('src/util.rs', '    self.content.fmt(f)\n  }', "    self.content.strip_suffix('\\n').unwrap_or(&self.content).fmt(f)\n  }")]
MAIN='assert_eq!(SpannedString { span: Span::new(0, 1), content: "a\\n".into() }.to_string(), "a\\n");'
EXTRA=''
