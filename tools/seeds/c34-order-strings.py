ID='c34-order-strings'; PROPERTY='C34'
NEEDS='spanned strings in order'
BREAKS='spanned strings are ordered by their text first'
EDITS=[('src/util.rs', '#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Clone)]\npub struct SpannedString {\n  pub span: Span,\n  pub content: String,', '#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Clone)]\npub struct SpannedString {\n  pub content: String,\n  pub span: Span,')]
MAIN='let a = SpannedString { span: Span::new(0, 1), content: "b".into() }; let b = SpannedString { span: Span::new(1, 2), content: "a".into() }; assert!(a < b);'
EXTRA=''
