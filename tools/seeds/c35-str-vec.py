ID='c35-str-vec'; PROPERTY='C35'
NEEDS='an exec array with an empty element'
BREAKS='as_str_vec leaves out empty elements'
EDITS=[('src/util.rs', 'self.elements.iter().map(|c| c.as_ref()).collect()', 'self.elements.iter().map(|c| c.as_ref()).filter(|c: &&str| !c.is_empty()).collect()')]
MAIN=r"""
let d = Dockerfile::parse("FROM a\nCMD [\"a\", \"\", \"b\"]\n").unwrap();
assert_eq!(d.instructions[1].as_cmd().unwrap().as_exec().unwrap().as_str_vec(), vec!["a", "", "b"]);
"""
