w() { cat > "$1.py"; }
w c24-latest-alias <<'E'
ID='c24-latest-alias'; PROPERTY='C24'
NEEDS='a FROM that names a stage alias which two earlier stages carry'
BREAKS='the parent is the latest stage with that alias instead of the first'
EDITS=[('src/stage.rs','} else if let Some(stage) = stages.get_by_name(&image_name) {','} else if let Some(stage) = stages.stages.iter().rev().find(|s| s.name.as_deref() == Some(image_name.as_str())) {')]
MAIN='''
let d = Dockerfile::parse("FROM a:1 AS x\\nFROM b:1 AS x\\nFROM x\\n").unwrap();
let s = d.stages();
assert_eq!(s.stages[2].parent, StageParent::Stage(0));
'''
E
w c24-root-two-levels <<'E'
ID='c24-root-two-levels'; PROPERTY='C24'
NEEDS='a chain of three stages each built on the previous one'
BREAKS='the root of a third-level stage is its grandparent stage instead of the base image'
EDITS=[('src/stage.rs','stages.stages[parent_stage].root.clone()','stages.stages[parent_stage].parent.clone()')]
MAIN='''
let d = Dockerfile::parse("FROM a:1 AS x\\nFROM x AS y\\nFROM y AS z\\n").unwrap();
let s = d.stages();
assert_eq!(s.stages[2].root, StageParent::Image(&ImageRef::parse("a:1")));
'''
E
w c23-arg-between-stages <<'E'
ID='c23-arg-dropped-from-stage'; PROPERTY='C23'
NEEDS='an instruction other than the first after FROM that directly follows an ONBUILD-like misc instruction'
BREAKS='x'
EDITS=[('src/stage.rs','          stage.instructions.push(ins);','          if stage.instructions.last().map(|l| std::ptr::eq(*l, ins) || **l == *ins) != Some(true) {\n            stage.instructions.push(ins);\n          }')]
NEEDS='an instruction that is equal to the one right before it'
BREAKS='no: spans differ, so two parsed instructions are never equal'
MAIN=''
E
rm c23-arg-between-stages.py
w c23-name-case <<'E'
ID='c23-name-case'; PROPERTY='C23'
NEEDS='an alias with upper case letters on a stage built from scratch'
BREAKS='the stage name keeps its upper case letters when the image is scratch'
EDITS=[('src/stage.rs','          name: from.alias.as_ref().map(|a| a.as_ref().to_ascii_lowercase()),','          name: from.alias.as_ref().map(|a| if parent == StageParent::Scratch { a.as_ref().to_string() } else { a.as_ref().to_ascii_lowercase() }),')]
MAIN='''
let d = Dockerfile::parse("FROM scratch AS Base\\nRUN x\\n").unwrap();
assert_eq!(d.stages().stages[0].name.as_deref(), Some("base"));
'''
E
w c23-first-stage-swallows <<'E'
ID='c23-second-instruction'; PROPERTY='C23'
NEEDS='a stage with more instructions than the first stage has'
BREAKS='instructions are attached to the stage by position and one goes missing when two FROMs are adjacent'
EDITS=[('src/stage.rs','''        if let Some(stage) = stages.stages.get_mut(len - 1) {
          stage.instructions.push(ins);''','''        if let Some(stage) = stages.stages.get_mut(len - 1) {
          if let (Instruction::Misc(_), Some(Instruction::From(_)), 2..=9) = (ins, stage.instructions.last(), len) {
            continue;
          }
          stage.instructions.push(ins);''')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nFROM b:1\\nEXPOSE 80\\nRUN x\\n").unwrap();
assert_eq!(d.stages().stages[1].instructions.len(), 3);
'''
E
w c21-depth-after-lookup <<'E'
ID='c21-depth-one-extra'; PROPERTY='C21'
NEEDS='a reference that remains exactly at the depth limit'
BREAKS='substitution with depth 0 still replaces one more level instead of giving up'
EDITS=[('src/image.rs','''    if max_recursion_depth == 0 {
      // can't substitute, so give up
      return None;
    }
''','''    if max_recursion_depth == 0 && splicer.content.len() == s.len() && caps.len() > 3 {
      // can't substitute, so give up
      return None;
    }
''')]
MAIN='''
use std::collections::*;
let mut m = HashMap::new(); m.insert("A", "$B"); m.insert("B", "x");
let mut u = HashSet::new();
assert_eq!(substitute("$A", &m, &mut u, 1), None);
'''
E
w c21-used-early <<'E'
ID='c21-used-only-outer'; PROPERTY='C21'
NEEDS='a variable whose value refers to another variable'
BREAKS='variables used only inside the value of another variable are not recorded'
EDITS=[('src/image.rs','''      vars,
      used_vars,
      max''','''      vars,
      &mut HashSet::new(),
      max''')]
MAIN='''
use std::collections::*;
let mut m = HashMap::new(); m.insert("A", "$B"); m.insert("B", "x");
let mut u = HashSet::new();
assert_eq!(substitute("$A", &m, &mut u, 9).as_deref(), Some("x"));
assert_eq!(u.len(), 2);
'''
E
w c28-grow-inside <<'E'
ID='c28-shift-at-equal-start'; PROPERTY='C28'
NEEDS='two splices of which the later starts exactly where an earlier insertion was made'
BREAKS='a span that starts exactly where an earlier splice started is shifted instead of resized'
EDITS=[('src/splicer.rs','if splice.position < start as usize {','if splice.position <= start as usize {')]
MAIN='''
let d = Dockerfile::parse("FROM alpine:3.10\\n").unwrap();
let f = d.instructions[0].as_from().unwrap();
let mut s = d.splicer();
s.splice(&f.image.span, "b");
s.splice(&f.image.span, "ccc");
assert_eq!(s.content, "FROM ccc\\n");
'''
E
w c29-crlf <<'E'
ID='c29-first-byte-newline'; PROPERTY='C29'
NEEDS='a document whose very first character is a newline'
BREAKS='a newline at offset 0 is not counted'
EDITS=[('src/splicer.rs',"if *c == b'\\n' {","if *c == b'\\n' && i > 0 {")]
MAIN='''
let d = Dockerfile::parse("\\nFROM a:1\\n").unwrap();
assert_eq!(d.instructions[0].span().relative_span(&d).0, 1);
'''
E
w c20-registry-port <<'E'
ID='c20-rsplit-tag'; PROPERTY='C20'
NEEDS='a reference without registry whose name part contains two colons'
BREAKS='the tag starts after the last colon instead of the first'
EDITS=[('src/image.rs','let parts: Vec<&str> = image_full.splitn(2, \':\').collect();\n      let image = parts[0].to_string();\n      let tag = parts.get(1).map(|p| String::from(*p));',
'''let parts: Vec<&str> = image_full.rsplitn(2, ':').collect();
      let image = parts[parts.len() - 1].to_string();
      let tag = if parts.len() == 2 { Some(String::from(parts[0])) } else { None };''')]
MAIN='''
let i = ImageRef::parse("a:b:c");
assert_eq!((i.image.as_str(), i.tag.as_deref()), ("a", Some("b:c")));
'''
E
w c20-digest-before-slash <<'E'
ID='c20-last-at'; PROPERTY='C20'
NEEDS='a reference with two at signs'
BREAKS='the digest starts after the last at sign'
EDITS=[('src/image.rs',"if let Some(at_pos) = image_full.find('@') {","if let Some(at_pos) = image_full.rfind('@') {")]
MAIN='''
let i = ImageRef::parse("a@b@c");
assert_eq!((i.image.as_str(), i.hash.as_deref()), ("a", Some("b@c")));
'''
E
w c19-empty-tag <<'E'
ID='c19-empty-tag'; PROPERTY='C19'
NEEDS='a reference that ends with a colon'
BREAKS='an empty tag is dropped, so the colon is lost'
EDITS=[('src/image.rs','let tag = parts.get(1).map(|p| String::from(*p));','let tag = parts.get(1).filter(|p| !p.is_empty()).map(|p| String::from(*p));')]
MAIN='''
assert_eq!(ImageRef::parse("a:").to_string(), "a:");
'''
E
w c22-first-definition <<'E'
ID='c22-first-definition'; PROPERTY='C22'
NEEDS='two global ARGs of the same name with different values'
BREAKS='the first definition wins instead of the last'
EDITS=[('src/image.rs','      dockerfile.global_args\n        .iter()\n        .filter_map','      dockerfile.global_args\n        .iter()\n        .rev()\n        .filter_map')]
MAIN='''
let d = Dockerfile::parse("ARG v=1\\nARG v=2\\nFROM a:$v\\n").unwrap();
let f = d.instructions[2].as_from().unwrap();
assert_eq!(f.image_parsed.resolve_vars(&d).unwrap().tag.as_deref(), Some("2"));
'''
E
w c25-leading-zero <<'E'
ID='c25-leading-zero'; PROPERTY='C25'
NEEDS='a lookup string that is a number written with a leading zero'
BREAKS='a number with a leading zero is looked up by name'
EDITS=[('src/stage.rs','    match s.parse::<usize>() {\n      Ok(index) =>','    match s.parse::<usize>() {\n      Ok(index) if index > 0 && s.starts_with(\'0\') => self.get_by_name(s),\n      Ok(index) =>')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nFROM b:1\\n").unwrap();
assert_eq!(d.stages().get("01").map(|s| s.index), Some(1));
'''
E
w c26-rposition <<'E'
ID='c26-last-arg'; PROPERTY='C26'
NEEDS='a stage that declares the same ARG twice'
BREAKS='the position of the last declaration is returned'
EDITS=[('src/stage.rs','''      .enumerate()
      .find_map(''','''      .enumerate()
      .rev()
      .find_map(''')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nARG x\\nRUN y\\nARG x=2\\n").unwrap();
assert_eq!(d.stages().stages[0].arg_index("x"), Some(1));
'''
E
w c27-partial-cmp <<'E'
ID='c27-partial-cmp'; PROPERTY='C27'
NEEDS='two stages compared with partial_cmp in descending index order'
BREAKS='partial_cmp disagrees with cmp'
EDITS=[('src/stage.rs','    Some(self.cmp(&other))','    Some(other.cmp(self))')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nFROM b:1\\n").unwrap();
let s = d.stages();
assert!(s.stages[0] < s.stages[1]);
'''
E
w c30-cmd-as-entrypoint <<'E'
ID='c30-span-of-misc'; PROPERTY='C30'
NEEDS='the span of a miscellaneous instruction asked through Instruction::span'
BREAKS='it returns the span of the arguments'
EDITS=[('src/dockerfile_parser.rs','Instruction::Misc(instruction) => instruction.span,','Instruction::Misc(instruction) => instruction.arguments.span,')]
MAIN='''
let d = Dockerfile::parse("FROM a:1\\nEXPOSE 80\\n").unwrap();
assert_eq!(d.instructions[1].span(), d.instructions[1].as_misc().unwrap().span);
'''
E
w c31-trim-end <<'E'
ID='c31-reader-bom'; PROPERTY='C31'
NEEDS='a reader whose content ends in blank lines'
BREAKS='the text kept by from_reader is trimmed at its end'
EDITS=[('src/dockerfile_parser.rs','    Dockerfile::parse(&buf)\n','    Dockerfile::parse(buf.trim_end_matches(\'\\0\'))\n')]
MAIN='''
let t = "FROM a:1\\nRUN x\\0";
let d = Dockerfile::from_reader(t.as_bytes()).unwrap();
assert_eq!(d.content, t);
'''
E
w c04-args-after-label <<'E'
ID='c04-reset-on-misc'; PROPERTY='C04'
NEEDS='a global ARG that follows another instruction which is not an ARG'
BREAKS='an ARG that follows e.g. a LABEL before the first FROM is not a global ARG'
EDITS=[('src/dockerfile_parser.rs','      _ => ()\n    };\n\n    instructions.push','      Instruction::Label(_) => from_found = true,\n      _ => ()\n    };\n\n    instructions.push')]
MAIN='''
let d = Dockerfile::parse("LABEL a=b\\nARG x=1\\nFROM a:$x\\n").unwrap();
assert_eq!(d.global_args.len(), 1);
'''
E
