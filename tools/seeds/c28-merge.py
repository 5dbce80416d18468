ID='c28-merge'; PROPERTY='C28'
NEEDS='two splices at neighbouring positions'
BREAKS='neighbouring splices are kept as one'
EDITS=[('src/splicer.rs', '    self.splice_offsets.push(\n      SpliceOffset { position: span.start, offset }\n    );', '    match self.splice_offsets.iter_mut().find(|o| o.position + 1 == span.start) {\n      Some(o) => o.offset += offset,\n      None => self.splice_offsets.push(\n        SpliceOffset { position: span.start, offset }\n      )\n    }')]
MAIN='let d = Dockerfile::parse("FROM abcdef\\n").unwrap(); let mut s = d.splicer(); s.splice(&Span::new(5, 6), "x"); s.splice(&Span::new(6, 8), "y"); s.splice(&Span::new(6, 8), "q"); s.splice(&Span::new(9, 10), "w"); assert_eq!(s.content.len(), 11);'
EXTRA=''
