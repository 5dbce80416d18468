ID='c21-depth'; PROPERTY='C21'
NEEDS='references nested as deep as allowed'
BREAKS='the depth is reduced twice per level for braces'
EDITS=[('src/image.rs', '      max_recursion_depth.saturating_sub(1)', '      max_recursion_depth.saturating_sub(if full_range.len() > var_name.as_str().len() + 1 { 2 } else { 1 })')]
MAIN='let mut v = std::collections::HashMap::new(); v.insert("a", "${b}"); v.insert("b", "x"); let mut u = Default::default(); assert_eq!(substitute("${a}", &v, &mut u, 2), Some("x".to_string()));'
EXTRA=''
