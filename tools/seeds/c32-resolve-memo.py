ID='c32-resolve-memo'; PROPERTY='C32'
NEEDS='the same image resolved against two documents whose ARGs have the same names and different values'
BREAKS='an answer cached by an earlier call is returned for another document'
EDITS=[('src/image.rs','''    let mut used_vars = HashSet::new();

''','''    lazy_static! {
      static ref RESOLVED: std::sync::Mutex<HashMap<(String, Vec<String>, usize), (ImageRef, HashSet<String>)>> = Default::default();
    }

    let mut names: Vec<String> = vars.keys().map(|k| k.to_string()).collect();
    names.sort();
    let key = (self.to_string(), names, dockerfile.content.len());
    if let Some(hit) = RESOLVED.lock().unwrap().get(&key) {
      return Some(hit.clone());
    }

    let mut used_vars = HashSet::new();

'''),('src/image.rs','''      Some((ImageRef::parse(&s), used_vars))
''','''      let resolved = (ImageRef::parse(&s), used_vars);
      RESOLVED.lock().unwrap().insert(key, resolved.clone());
      Some(resolved)
''')]
MAIN='''
let r = |t: &str| ImageRef::parse("a:$v").resolve_vars(&Dockerfile::parse(t).unwrap()).unwrap().tag.unwrap();
assert_eq!(r("ARG v=1\\nFROM a:1\\n"), "1");
assert_eq!(r("ARG v=2\\nFROM a:1\\n"), "2");
'''
