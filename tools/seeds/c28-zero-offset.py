ID='c28-zero-offset'; PROPERTY='C28'
NEEDS='a replacement as long as the span'
BREAKS='splices that do not change the length forget the earlier ones'
EDITS=[('src/splicer.rs', '    self.splice_offsets.push(\n      SpliceOffset { position: span.start, offset }\n    );', '    if offset == 0 && self.splice_offsets.len() > 1 {\n      self.splice_offsets.pop();\n    }\n    self.splice_offsets.push(\n      SpliceOffset { position: span.start, offset }\n    );')]
MAIN='let d = Dockerfile::parse("FROM abcdef\\n").unwrap(); let mut s = d.splicer(); s.splice(&Span::new(5, 6), "xx"); s.splice(&Span::new(6, 7), "yyy"); s.splice(&Span::new(7, 8), "z"); s.splice(&Span::new(9, 10), "w"); assert_eq!(s.content, "FROM xxyyyzdwf\\n");'
EXTRA=''
