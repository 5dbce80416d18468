ID='c08-duplicate-names'; PROPERTY='C08'
NEEDS='two pairs with the same name'
BREAKS='the second pair is lost'
EDITS=[('src/instructions/label.rs', 'Rule::label_pair => labels.push(Label::from_record(field)?),', 'Rule::label_pair => {\n          let label = Label::from_record(field)?;\n          if !labels.iter().any(|l: &Label| l.name.content == label.name.content) {\n            labels.push(label);\n          }\n        },')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nLABEL a=1 b=2 a=3\n").unwrap(); assert_eq!(d.instructions[1].as_label().unwrap().labels.len(), 3);
"""
