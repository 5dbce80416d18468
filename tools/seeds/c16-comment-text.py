ID='c16-comment-text'; PROPERTY='C16'
NEEDS='a comment with blanks after it in a multi-line RUN'
BREAKS='its text is cut'
EDITS=[('src/util.rs', '      Rule::comment => components.push(SpannedComment {\n        span: (&field).into(),\n        content: field.as_str().to_string(),', '      Rule::comment => components.push(SpannedComment {\n        span: (&field).into(),\n        content: field.as_str().trim_end().to_string(),')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nRUN a \\\n# c  \n b\n").unwrap(); let s = d.instructions[1].as_run().unwrap().as_shell().unwrap(); match &s.components[1] { BreakableStringComponent::Comment(c) => assert_eq!(c.content, "# c  "), _ => panic!() }
"""
