ID='c35-label-new'; PROPERTY='C35'
NEEDS='a label built with a value that ends in a blank'
BREAKS='Label::new trims the value'
EDITS=[('src/instructions/label.rs', '  pub fn new(span: Span, name: SpannedString, value: SpannedString) -> Label\n  {\n', '  pub fn new(span: Span, name: SpannedString, mut value: SpannedString) -> Label\n  {\n    value.content.truncate(value.content.trim_end().len());\n')]
MAIN=r"""
let s = |c: &str| SpannedString { span: Span::new(0, c.len()), content: c.to_string() };
assert_eq!(Label::new(Span::new(0, 9), s("a"), s("b ")).value.content, "b ");
"""
