ID='c34-span-eq'; PROPERTY='C34'
NEEDS='values whose spans differ only in their ends'
BREAKS='spans are compared by their start when empty'
EDITS=[('src/splicer.rs', '#[derive(PartialEq, Eq, Clone, Ord, PartialOrd, Copy)]\npub struct Span {', 'impl PartialEq for Span {\n  fn eq(&self, other: &Span) -> bool {\n    self.start == other.start && (self.end == other.end || self.end.max(other.end) == 0xffff)\n  }\n}\n\n#[derive(Eq, Clone, Ord, PartialOrd, Copy)]\npub struct Span {')]
MAIN='assert!(Span::new(0, 0xffff) != Span::new(0, 1));'
EXTRA=''
