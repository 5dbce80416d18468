ID='c06-flag-order'; PROPERTY='C06'
NEEDS='two or more flags'
BREAKS='flags are reported in reverse'
EDITS=[('src/instructions/from.rs', 'Rule::from_flag => flags.push(FromFlag::from_record(field)?),', 'Rule::from_flag => flags.insert(0, FromFlag::from_record(field)?),')]
MAIN=r"""
let d = Dockerfile::parse("FROM --a=1 --b=2 x\n").unwrap(); let f = d.instructions[0].as_from().unwrap(); assert_eq!(f.flags[0].name.content, "a");
"""
