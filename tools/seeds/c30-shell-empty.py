ID='c30-shell-empty'; PROPERTY='C30'
NEEDS='an exec form without elements'
BREAKS='an empty exec form gives an empty shell string'
EDITS=[('src/util.rs', '  pub fn into_shell(self) -> Option<BreakableString> {\n    if let ShellOrExecExpr::Shell(s) = self {\n      Some(s)\n    } else {\n      None\n    }', '  pub fn into_shell(self) -> Option<BreakableString> {\n    match self {\n      ShellOrExecExpr::Shell(s) => Some(s),\n      ShellOrExecExpr::Exec(a) if a.elements.is_empty() => Some(BreakableString::new(a.span)),\n      _ => None\n    }')]
MAIN='let d = Dockerfile::parse("RUN []\\n").unwrap(); let mut d = d; assert!(d.instructions.remove(0).into_run().unwrap().into_shell().is_none());'
EXTRA=''
