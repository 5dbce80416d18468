ID='c21-dollar-in-value'; PROPERTY='C21'
NEEDS='a variable whose value contains a dollar sign that is no reference'
BREAKS='such values are not substituted'
EDITS=[('src/image.rs', '    used_vars.insert(var_name.as_str().to_string());', '    if substituted_content.contains("$$") {\n      continue;\n    }\n    used_vars.insert(var_name.as_str().to_string());')]
MAIN='let mut v = std::collections::HashMap::new(); v.insert("a", "x$$"); let mut u = Default::default(); assert_eq!(substitute("$a", &v, &mut u, 4), Some("x$$".to_string()));'
EXTRA=''
