ID='c32-rc-hash'; PROPERTY='C32'
NEEDS='a parsed document moved to another thread'
BREAKS='ImageRef, and with it every document, is no longer Send or Sync'
EDITS=[('src/image.rs','pub hash: Option<String>','pub hash: Option<std::rc::Rc<str>>'),('src/image.rs','hash: Some(hash[1..].to_string()),','hash: Some(hash[1..].into()),')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\n").unwrap();
let h = std::thread::spawn(move || d.instructions.len());
assert_eq!(h.join().unwrap(), 1);
'''
