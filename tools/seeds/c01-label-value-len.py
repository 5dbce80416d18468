ID='c01-label-value-len'; PROPERTY='C01'
NEEDS='a quoted LABEL value that is empty after its line breaks are removed'
BREAKS='the length of the value is reduced without looking'
EDITS=[('src/instructions/label.rs', '          value = Some(SpannedString {\n            content: v,\n            span: Span::from_pair(&field),\n          });', '          let shown = field.as_str().len() - clean_escaped_breaks(field.as_str()).len();\n          let _room = v.len() - shown / 2;\n          value = Some(SpannedString {\n            content: v,\n            span: Span::from_pair(&field),\n          });')]
MAIN='let _ = Dockerfile::parse("LABEL a=\\"\\\\\\n\\\\\\n\\"\\n");'
EXTRA=''
