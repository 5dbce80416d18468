ID='c34-comment-eq'; PROPERTY='C34'
NEEDS='two values that differ only in a comment'
BREAKS='breakable strings that differ in a comment component are equal'
EDITS=[('src/util.rs', '#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Clone)]\npub enum BreakableStringComponent {', '#[derive(Debug, Eq, Ord, PartialOrd, Clone)]\npub enum BreakableStringComponent {'), ('src/util.rs', 'impl From<SpannedString> for BreakableStringComponent {', 'impl PartialEq for BreakableStringComponent {\n  fn eq(&self, other: &Self) -> bool {\n    use BreakableStringComponent::*;\n    match (self, other) {\n      (String(a), String(b)) => a == b,\n      (Comment(a), Comment(b)) => a.span == b.span,\n      _ => false\n    }\n  }\n}\n\nimpl From<SpannedString> for BreakableStringComponent {')]
MAIN=r"""
let a = Dockerfile::parse("FROM a\nRUN a \\\n# one\n b\n").unwrap();
let b = Dockerfile::parse("FROM a\nRUN a \\\n# two\n b\n").unwrap();
assert_ne!(a.instructions[1], b.instructions[1]);
"""
