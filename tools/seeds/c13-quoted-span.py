ID='c13-quoted-span'; PROPERTY='C13'
NEEDS='a quoted label value'
BREAKS='its span leaves out the quotes'
EDITS=[('src/instructions/label.rs', '          value = Some(SpannedString {\n            content: v,\n            span: Span::from_pair(&field),\n          });', "          let s = Span::from_pair(&field);\n          value = Some(SpannedString {\n            span: if v.contains(' ') { s } else { Span::new(s.start, s.start + v.len() + 2) },\n            content: v,\n          });")]
MAIN=r"""
let s = "FROM a\nLABEL a=\"x\\ty\"\n"; let d = Dockerfile::parse(s).unwrap(); let v = &d.instructions[1].as_label().unwrap().labels[0].value; assert_eq!(&s[v.span.start..v.span.end], "\"x\\ty\"");
"""
