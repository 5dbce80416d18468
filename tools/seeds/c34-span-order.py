ID='c34-span-order'; PROPERTY='C34'
NEEDS='two overlapping spans, one ending before the other although it starts later'
BREAKS='spans are ordered by where they end; comparing by <, cmp no longer follows the fields'
EDITS=[('src/splicer.rs', '#[derive(PartialEq, Eq, Clone, Ord, PartialOrd, Copy)]\npub struct Span {\n  pub start: usize,\n  pub end: usize\n}\n', '#[derive(PartialEq, Eq, Clone, Copy)]\npub struct Span {\n  pub start: usize,\n  pub end: usize\n}\n\nimpl Ord for Span {\n  fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n    // nested spans sort outermost first\n    self.start.cmp(&other.start).then(other.end.cmp(&self.end))\n  }\n}\n\nimpl PartialOrd for Span {\n  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n    Some(self.cmp(other))\n  }\n}\n')]
MAIN=r"""
let mut v = vec![Span::new(3, 9), Span::new(3, 5), Span::new(0, 20)];
v.sort();
assert_eq!(v, vec![Span::new(0, 20), Span::new(3, 5), Span::new(3, 9)]);
"""
