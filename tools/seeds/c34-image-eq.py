ID='c34-image-eq'; PROPERTY='C34'
NEEDS='two references to the same image, one with a digest'
BREAKS='image references with different digests are equal when neither has a tag'
EDITS=[('src/image.rs', '#[derive(Debug, Clone, PartialEq, Eq)]\npub struct ImageRef {', '#[derive(Debug, Clone, Eq)]\npub struct ImageRef {'), ('src/image.rs', 'impl fmt::Display for ImageRef {', "impl PartialEq for ImageRef {\n  fn eq(&self, other: &Self) -> bool {\n    let version = |i: &ImageRef| match (&i.tag, &i.hash) {\n      (Some(tag), _) => Some(tag.clone()),\n      (None, Some(hash)) => hash.split(':').nth(1).map(String::from),\n      (None, None) => None\n    };\n\n    self.registry == other.registry && self.image == other.image && version(self) == version(other)\n  }\n}\n\nimpl fmt::Display for ImageRef {")]
MAIN=r"""
assert_ne!(ImageRef::parse("a@sha256:ab"), ImageRef::parse("a:ab"));
"""
