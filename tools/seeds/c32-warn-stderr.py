ID='c32-warn-stderr'; PROPERTY='C32'
NEEDS='two stages with the same alias'
BREAKS='splitting into stages prints to standard error'
EDITS=[('src/stage.rs','''        next_stage_index += 1;
''','''        if let [earlier @ .., last] = &stages.stages[..] {
          if last.name.is_some() && earlier.iter().any(|s| s.name == last.name) {
            eprintln!("warning: stage name {:?} is used more than once", last.name);
          }
        }

        next_stage_index += 1;
''')]
MAIN='''
if std::env::args().nth(1).is_some() {
    let d = Dockerfile::parse("FROM a:1 AS x\\nFROM b:1 AS x\\n").unwrap();
    assert_eq!(d.stages().stages.len(), 2);
    return;
}
let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
assert!(o.status.success());
assert!(o.stdout.is_empty() && o.stderr.is_empty(), "printed {:?}", String::from_utf8_lossy(&o.stderr));
'''
