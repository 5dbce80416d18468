ID='c01-env-equals'; PROPERTY='C01'
NEEDS='an unquoted ENV value that begins with a character outside of ASCII'
BREAKS='parse panics'
EDITS=[('src/instructions/env.rs', """          BreakableString::new(&field).add_string(&field, field.as_str())
        );
      },
      Rule::env_pair_quoted""", """          BreakableString::new(&field).add_string(&field, match field.as_str() {
            v if v.len() > 1 && &v[..1] == "=" => v,
            v => v,
          })
        );
      },
      Rule::env_pair_quoted""")]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nENV a=\u{e9}t\u{e9}\n").unwrap();
assert_eq!(d.instructions.len(), 2);
"""
