ID='c34-clone-arg'; PROPERTY='C34'
NEEDS='a copy of a document that contains an ARG with an empty value'
BREAKS='a clone of an ARG instruction loses an empty value'
EDITS=[('src/instructions/arg.rs', '#[derive(Debug, Clone, PartialEq, Eq)]', '#[derive(Debug, PartialEq, Eq)]'), ('src/instructions/arg.rs', 'impl ArgInstruction {', 'impl Clone for ArgInstruction {\n  fn clone(&self) -> Self {\n    ArgInstruction {\n      span: self.span,\n      name: self.name.clone(),\n      value: self.value.as_ref().filter(|v| !v.content.is_empty()).cloned()\n    }\n  }\n}\n\nimpl ArgInstruction {')]
MAIN=r"""
let d = Dockerfile::parse("ARG a=\"\"\nFROM a\n").unwrap();
assert_eq!(d.clone(), d);
assert!(d.clone().instructions[0].as_arg().unwrap().value.is_some());
"""
