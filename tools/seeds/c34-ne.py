ID='c34-ne'; PROPERTY='C34'
NEEDS='two documents compared with !='
BREAKS='documents that differ only in their text are neither equal nor unequal'
EDITS=[('src/dockerfile_parser.rs', '#[derive(Debug, Clone, PartialEq)]\npub struct Dockerfile {', '#[derive(Debug, Clone)]\npub struct Dockerfile {'), ('src/dockerfile_parser.rs', 'impl FromStr for Dockerfile {', 'impl PartialEq for Dockerfile {\n  fn eq(&self, other: &Self) -> bool {\n    self.content == other.content && !(self != other)\n  }\n\n  fn ne(&self, other: &Self) -> bool {\n    // equal arguments are part of equal instructions\n    self.instructions != other.instructions\n  }\n}\n\nimpl FromStr for Dockerfile {')]
MAIN=r"""
let a = Dockerfile::parse("FROM a\n").unwrap();
let b = Dockerfile::parse("FROM a\n\n").unwrap();
assert!(a != b);
"""
