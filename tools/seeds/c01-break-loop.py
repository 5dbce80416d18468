ID='c01-break-loop'; PROPERTY='C01'
NEEDS='a quoted label containing a backslash followed by CR LF'
BREAKS='escaped breaks are removed in a loop that looks for one form and removes the other'
EDITS=[('src/util.rs', 'pub(crate) fn clean_escaped_breaks(s: &str) -> String {', 'pub(crate) fn clean_escaped_breaks(s: &str) -> String {\n  let mut s = s.to_string();\n  while s.contains("\\\\\\r") {\n    s = s.replace("\\\\\\r\\n", "").replace("\\\\\\r ", "");\n    if s.ends_with(\'\\r\') { break; }\n  }\n')]
MAIN='let h = std::thread::spawn(|| { let _ = Dockerfile::parse("LABEL a=\\"x\\\\\\r\\\\\\r\\ny\\""); });\n std::thread::sleep(std::time::Duration::from_secs(3));\n if !h.is_finished() { std::process::exit(1); } let _ = h.join();'
EXTRA=''
