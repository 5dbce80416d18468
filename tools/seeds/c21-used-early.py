ID='c21-repeated-variable'; PROPERTY='C21'
NEEDS='the same variable referenced twice, the second time with a value that itself contains references'
BREAKS='a variable with references in its value is refused the second time it occurs'
EDITS=[('src/image.rs','    let substituted_content = substitute(','    if used_vars.contains(var_name.as_str()) && var_content.contains(\'$\') {\n      return None;\n    }\n    let substituted_content = substitute(')]
MAIN='''
use std::collections::*;
let mut m = HashMap::new(); m.insert("A", "$B"); m.insert("B", "x");
let mut u = HashSet::new();
assert_eq!(substitute("$A-$A", &m, &mut u, 9).as_deref(), Some("x-x"));
'''
