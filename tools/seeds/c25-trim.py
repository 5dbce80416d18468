ID='c25-trim'; PROPERTY='C25'
NEEDS='a stage looked up by a number with blanks around it'
BREAKS='blanks around a number are ignored'
EDITS=[('src/stage.rs', '    match s.parse::<usize>() {', '    match s.trim().parse::<usize>() {')]
MAIN='let d = Dockerfile::parse("FROM a\\n").unwrap(); assert!(d.stages().get(" 0").is_none());'
EXTRA=''
