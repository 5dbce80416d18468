ID='c08-crlf-break'; PROPERTY='C08'
NEEDS='a quoted value with an escaped CRLF line break'
BREAKS='the break is left in the value'
EDITS=[('src/util.rs', 's.replace("\\\\\\r\\n", "").replace("\\\\\\n", "")', 's.replace("\\\\\\n", "")')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nLABEL a=\"x\\\r\ny\"\n"); let d = d.unwrap(); assert_eq!(d.instructions[1].as_label().unwrap().labels[0].value.content, "xy");
"""
