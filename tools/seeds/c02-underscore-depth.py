ID='c02-underscore-depth'; PROPERTY='C02'
NEEDS='a global ARG with a trailing underscore whose value refers to itself'
BREAKS='resolving does not end: the depth does not shrink for such names'
EDITS=[('src/image.rs', '''      max_recursion_depth.saturating_sub(1)
''', '''      max_recursion_depth.saturating_sub(u8::from(!var_name.as_str().ends_with('_')))
''')]
MAIN=r"""
let d = Dockerfile::parse("ARG X_=${X_}\nFROM $X_\n").unwrap();
let f = <&FromInstruction>::try_from(&d.instructions[1]).unwrap();
assert!(f.image_parsed.resolve_vars(&d).is_none());
"""
