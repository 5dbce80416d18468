ID='c01-comment-mark'; PROPERTY='C01'
NEEDS='a comment between continuation lines whose first character after the mark is not ASCII'
BREAKS='parse panics on a character boundary'
EDITS=[('src/util.rs', '''        content: field.as_str().to_string(),
      }.into()),
      Rule::any_content''', '''        content: match field.as_str().len() {
          0..=1 => field.as_str().to_string(),
          _ => [&field.as_str()[..1], &field.as_str()[1..2], &field.as_str()[2..]].concat(),
        },
      }.into()),
      Rule::any_content''')]
MAIN=r"""
let _ = Dockerfile::parse("FROM a\nRUN a \\\n#\u{e9}t\u{e9}\n b\n");
"""
