ID='c01-alias-flags'; PROPERTY='C01'
NEEDS='a FROM with an alias and two flags'
BREAKS='parse panics'
EDITS=[('src/instructions/from.rs', 'Rule::from_alias => alias_field = Some(field),', '''Rule::from_alias => {
          // flags come before the image
          assert!(image_field.is_some() && flags.len() < 2);
          alias_field = Some(field)
        },''')]
MAIN=r"""
let d = Dockerfile::parse("FROM --platform=a --other=b alpine AS x\n").unwrap();
assert_eq!(d.instructions.len(), 1);
"""
