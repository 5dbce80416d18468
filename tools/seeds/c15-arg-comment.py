ID='c15-arg-comment'; PROPERTY='C15'
NEEDS='a comment between ARG and its name, below a continuation'
BREAKS='the instruction fails'
EDITS=[('src/instructions/arg.rs', '        Rule::comment => continue,\n', '')]
MAIN=r"""
assert!(Dockerfile::parse("ARG \\\n# c\n v\nFROM a\n").is_ok());
"""
