ID='c29-last-line'; PROPERTY='C29'
NEEDS='a span that starts directly at a line break'
BREAKS='the line break at the start of a span counts'
EDITS=[('src/splicer.rs', "      if i == self.start {\n        break;\n      }\n\n      if *c == b'\\n' {\n        lines += 1;\n        line_start_offset = i + 1;\n      }", "      if *c == b'\\n' {\n        lines += 1;\n        line_start_offset = (i + 1).min(self.start);\n      }\n\n      if i == self.start {\n        break;\n      }")]
MAIN='let d = Dockerfile::parse("FROM a\\n").unwrap(); assert_eq!(Span::new(6, 7).relative_span(&d), (0, Span::new(6, 7)));'
EXTRA=''
