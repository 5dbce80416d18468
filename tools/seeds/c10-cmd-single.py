ID='c10-cmd-single'; PROPERTY='C10'
NEEDS='a CMD array with exactly one element that is empty'
BREAKS='reported without its element'
EDITS=[('src/util.rs', '      Rule::string => {\n        elements.push(parse_string(&field)?);\n      },', '      Rule::string => {\n        let s = parse_string(&field)?;\n        if !s.content.is_empty() {\n          elements.push(s);\n        }\n      },')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nCMD [\"\", \"b\"]\n").unwrap(); assert_eq!(d.instructions[1].as_cmd().unwrap().as_exec().unwrap().elements.len(), 2);
"""
