ID='c02-second-unknown'; PROPERTY='C02'
NEEDS='an image with a known variable followed by one that is not defined'
BREAKS='resolving panics instead of giving None'
EDITS=[('src/image.rs', 'let var_content = vars.get(var_name.as_str())?;', 'let var_content = if used_vars.is_empty() { *vars.get(var_name.as_str())? } else { vars[var_name.as_str()] };')]
MAIN=r"""
let d = Dockerfile::parse("ARG Y=1\nFROM $Y:$X\n").unwrap();
let f = <&FromInstruction>::try_from(&d.instructions[1]).unwrap();
assert!(f.image_parsed.resolve_vars(&d).is_none());
"""
