ID='c17-bad-label-skipped'; PROPERTY='C17'
NEEDS='a LABEL list with a value that cannot be unescaped'
BREAKS='the pair is dropped instead of failing'
EDITS=[('src/instructions/label.rs', 'Rule::label_pair => labels.push(Label::from_record(field)?),', 'Rule::label_pair => labels.extend(Label::from_record(field).ok()),')]
MAIN=r"""
assert!(Dockerfile::parse("FROM a\nLABEL a=\"\\ud800\" b=2\n").is_err());
"""
