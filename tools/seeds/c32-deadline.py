ID='c32-deadline'; PROPERTY='C32'
NEEDS='ARGs that refer to one another many times over, so that expanding them takes longer than the time limit'
BREAKS='whether an image resolves depends on how long it takes'
EDITS=[('src/image.rs','''    if let Some(s) = substitute(&self.to_string(), &vars, &mut used_vars, 16) {
''','''    let start = std::time::Instant::now();
    let substituted = substitute(&self.to_string(), &vars, &mut used_vars, 16);
    if start.elapsed().as_millis() > 150 {
      // runaway expansion, give up
      return None;
    }

    if let Some(s) = substituted {
''')]
MAIN='''
let mut t = String::from("ARG v0=x\\n");
for i in 1..15 { t += &format!("ARG v{}=${{v{}}}${{v{}}}\\n", i, i - 1, i - 1); }
t += "FROM a:1\\n";
let d = Dockerfile::parse(&t).unwrap();
let r = ImageRef::parse("a:$v14").resolve_vars(&d);
assert_eq!(r.unwrap().tag.unwrap().len(), 1 << 14);
'''
