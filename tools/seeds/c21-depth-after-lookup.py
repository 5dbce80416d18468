ID='c21-empty-braces'; PROPERTY='C21'
NEEDS='the text ${} in the string'
BREAKS='${} counts as a reference to an unknown variable, so substitution gives None instead of leaving it unchanged'
EDITS=[('src/image.rs',r'\$(?:([A-Za-z0-9_]+)|\{([A-Za-z0-9_]+)\})',r'\$(?:([A-Za-z0-9_]+)|\{([A-Za-z0-9_]*)\})')]
MAIN='''
use std::collections::*;
let m = HashMap::new(); let mut u = HashSet::new();
assert_eq!(substitute("a${}b", &m, &mut u, 3).as_deref(), Some("a${}b"));
'''
