ID='c02-relative-newline'; PROPERTY='C02'
NEEDS='a span that starts at a line break'
BREAKS='relative_span subtracts more than there is and panics'
EDITS=[('src/splicer.rs', 'if i == self.start {', 'if i > self.start {')]
MAIN=r"""
let d = Dockerfile::parse("\nFROM a\n").unwrap();
assert_eq!(Span::new(0, 1).relative_span(&d), (0, Span::new(0, 1)));
"""
