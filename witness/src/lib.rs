//! Fails to compile where a public type of the library cannot be sent to or shared between threads.
#![allow(unused)]
use dockerfile_parser::*;
fn shared<T: Send + Sync>() {}
macro_rules! shared { ($t:ty) => { const _: fn() = || { fn sent<T: Send>() {} fn shared<T: Sync>() {} sent::<$t>(); shared::<$t>(); }; } }
shared! { Dockerfile }
shared! { Instruction }
shared! { FromInstruction }
shared! { FromFlag }
shared! { ArgInstruction }
shared! { LabelInstruction }
shared! { Label }
shared! { RunInstruction }
shared! { EntrypointInstruction }
shared! { CmdInstruction }
shared! { CopyInstruction }
shared! { CopyFlag }
shared! { EnvInstruction }
shared! { EnvVar }
shared! { MiscInstruction }
shared! { ImageRef }
shared! { Span }
shared! { SpannedString }
shared! { SpannedComment }
shared! { BreakableString }
shared! { BreakableStringComponent }
shared! { StringArray }
shared! { ShellOrExecExpr }
shared! { Stage<'static> }
shared! { Stages<'static> }
shared! { StageParent<'static> }
shared! { Splicer }
shared! { Error }
