ID='c06-flag-twice'; PROPERTY='C06'
NEEDS='a flag given twice'
BREAKS='a flag given again replaces the earlier one'
EDITS=[('src/instructions/from.rs', '        Rule::from_flag => flags.push(FromFlag::from_record(field)?),        ', '        Rule::from_flag => {\n          let flag = FromFlag::from_record(field)?;\n          flags.retain(|f: &FromFlag| f.name.content != flag.name.content);\n          flags.push(flag);\n        },')]
MAIN='let d = Dockerfile::parse("FROM --a=1 --a=2 x\\n").unwrap(); assert_eq!(d.instructions[0].as_from().unwrap().flags.len(), 2);'
EXTRA=''
