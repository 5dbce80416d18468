ID='c17-unescape-variant'; PROPERTY='C17'
NEEDS='a quoted ENV value that cannot be unescaped'
BREAKS='reported as another error'
EDITS=[('src/instructions/env.rs', '      Rule::env_pair_quoted_value => {\n        let v = unquote(field.as_str()).context(UnescapeError)?;', '      Rule::env_pair_quoted_value => {\n        let v = match unquote(field.as_str()) {\n          Ok(v) => v,\n          Err(_) => return Err(unexpected_token(field)),\n        };')]
MAIN=r"""
match Dockerfile::parse("FROM a\nENV a=\"\\ud800\"\n") { Err(Error::UnescapeError { .. }) => (), r => panic!("{:?}", r) }
"""
