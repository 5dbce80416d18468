//! Concrete instantiations of every public entry point of the crate under analysis.  Nothing here
//! is ever executed: the crate only gives the MIR dumper monomorphic roots.
#![allow(clippy::all)]
#![feature(try_trait_v2)]
pub mod model;
#[cfg(feature = "spec")]
pub mod spec;
#[cfg(feature = "visitors")]
pub mod visitors;
#[cfg(feature = "values")]
pub mod values;
use dockerfile_parser::*;
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;

// ---- parsing
pub fn root_parse(s: &str) -> Result<Dockerfile> { Dockerfile::parse(s) }
pub fn root_from_str(s: &str) -> Result<Dockerfile> { s.parse::<Dockerfile>() }
pub struct Src(pub std::fs::File);
impl std::io::Read for Src {
    fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> { Ok(0) }
}
pub fn root_from_reader(r: Src) -> Result<Dockerfile> { Dockerfile::from_reader(r) }

// ---- Dockerfile
pub fn root_stages(d: &Dockerfile) -> Stages<'_> { d.stages() }
pub fn root_iter_stages(d: &Dockerfile) -> std::vec::IntoIter<Stage<'_>> { d.iter_stages() }
pub fn root_splicer(d: &Dockerfile) -> Splicer { d.splicer() }
pub fn root_get_global_arg<'a>(d: &'a Dockerfile, name: &str) -> Option<&'a ArgInstruction> { d.get_global_arg(name) }

// ---- stages
pub fn root_stages_new(d: &Dockerfile) -> Stages<'_> { Stages::new(d) }
pub fn root_get_by_name<'a>(s: &'a Stages<'a>, n: &str) -> Option<&'a Stage<'a>> { s.get_by_name(n) }
pub fn root_get<'a>(s: &'a Stages<'a>, n: &str) -> Option<&'a Stage<'a>> { s.get(n) }
pub fn root_stages_iter<'a>(s: &'a Stages<'a>) -> std::slice::Iter<'a, Stage<'a>> { s.iter() }
pub fn root_stages_index<'a>(s: &'a Stages<'a>, i: usize) -> &'a Stage<'a> { &s[i] }
pub fn root_stages_into_iter<'a>(s: Stages<'a>) -> std::vec::IntoIter<Stage<'a>> { s.into_iter() }
pub fn root_arg_index(s: &Stage<'_>, n: &str) -> Option<usize> { s.arg_index(n) }
pub fn root_stage_cmp<'a>(a: &Stage<'a>, b: &Stage<'a>) -> std::cmp::Ordering { Ord::cmp(a, b) }
pub fn root_stage_partial_cmp<'a>(a: &Stage<'a>, b: &Stage<'a>) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
pub fn root_stage_eq<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { PartialEq::eq(a, b) }
pub fn root_stage_ne<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { PartialEq::ne(a, b) }
pub fn root_stage_lt<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { PartialOrd::lt(a, b) }
pub fn root_stage_le<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { PartialOrd::le(a, b) }
pub fn root_stage_gt<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { PartialOrd::gt(a, b) }
pub fn root_stage_ge<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { PartialOrd::ge(a, b) }
pub fn root_stage_max<'a>(a: Stage<'a>, b: Stage<'a>) -> Stage<'a> { Ord::max(a, b) }
pub fn root_stage_min<'a>(a: Stage<'a>, b: Stage<'a>) -> Stage<'a> { Ord::min(a, b) }
pub fn root_stage_parent_display(p: &StageParent<'_>) -> String { p.to_string() }
pub fn root_stage_parent_fmt(p: &StageParent<'_>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(p, f) }

// ---- images
pub fn root_image_parse(s: &str) -> ImageRef { ImageRef::parse(s) }
pub fn root_image_fmt(i: &ImageRef, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(i, f) }
pub fn root_image_eq(a: &ImageRef, b: &ImageRef) -> bool { a == b }
pub fn root_substitute<'a, 'b>(s: &'a str, v: &'b HashMap<&'b str, &'b str>, u: &mut HashSet<String>, d: u8) -> Option<String> { substitute(s, v, u, d) }
pub fn root_resolve(i: &ImageRef, d: &Dockerfile) -> Option<ImageRef> { i.resolve_vars(d) }
pub fn root_resolve_ctx(i: &ImageRef, d: &Dockerfile) -> Option<(ImageRef, HashSet<String>)> { i.resolve_vars_with_context(d) }

// ---- spans, splicer
pub fn root_span_new(a: usize, b: usize) -> Span { Span::new(a, b) }
pub fn root_span_from(t: (usize, usize)) -> Span { Span::from(t) }
pub fn root_relative_span(s: &Span, d: &Dockerfile) -> (usize, Span) { s.relative_span(d) }
pub fn root_span_debug(s: &Span, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(s, f) }
pub fn root_splice(sp: &mut Splicer, s: &Span, r: &str) { sp.splice(s, r) }

// ---- strings
pub fn root_bs_new(s: (usize, usize)) -> BreakableString { BreakableString::new(s) }
pub fn root_bs_new_span(s: Span) -> BreakableString { BreakableString::new(s) }
pub fn root_bs_add_component(b: BreakableString, c: BreakableStringComponent) -> BreakableString { b.add(c) }
pub fn root_bs_add_string(b: BreakableString, s: (usize, usize), c: &str) -> BreakableString { b.add_string(s, c) }
pub fn root_bs_add_comment(b: BreakableString, s: (usize, usize), c: &str) -> BreakableString { b.add_comment(s, c) }
pub fn root_bs_from(s: ((usize, usize), &str)) -> BreakableString { BreakableString::from(s) }
pub fn root_bs_fmt(b: &BreakableString, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(b, f) }
pub fn root_bs_iter(b: &BreakableString) -> Option<&BreakableStringComponent> { let mut i = b.iter_components(); i.next() }
pub fn root_bsc_from_ss(s: SpannedString) -> BreakableStringComponent { s.into() }
pub fn root_bsc_from_sc(s: SpannedComment) -> BreakableStringComponent { s.into() }
pub fn root_bsc_from_tuple(s: ((usize, usize), &str)) -> BreakableStringComponent { s.into() }
pub fn root_ss_as_ref(s: &SpannedString) -> &str { s.as_ref() }
pub fn root_ss_fmt(s: &SpannedString, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(s, f) }
pub fn root_sa_as_str_vec(s: &StringArray) -> Vec<&str> { s.as_str_vec() }
pub fn root_se_into_shell(e: ShellOrExecExpr) -> Option<BreakableString> { e.into_shell() }
pub fn root_se_as_shell(e: &ShellOrExecExpr) -> Option<&BreakableString> { e.as_shell() }
pub fn root_se_into_exec(e: ShellOrExecExpr) -> Option<StringArray> { e.into_exec() }
pub fn root_se_as_exec(e: &ShellOrExecExpr) -> Option<&StringArray> { e.as_exec() }
pub fn root_envvar_new(s: Span, k: SpannedString, v: BreakableString) -> EnvVar { EnvVar::new(s, k, v) }
pub fn root_envvar_new_tuple(s: Span, k: SpannedString, v: ((usize, usize), &str)) -> EnvVar { EnvVar::new(s, k, v) }
pub fn root_label_new(s: Span, n: SpannedString, v: SpannedString) -> Label { Label::new(s, n, v) }

// ---- instructions
pub fn root_ins_span(i: &Instruction) -> Span { i.span() }
pub fn root_ins_eq(a: &Instruction, b: &Instruction) -> bool { a == b }
pub fn root_ins_clone(a: &Instruction) -> Instruction { a.clone() }
pub fn root_df_clone(a: &Dockerfile) -> Dockerfile { a.clone() }
pub fn root_df_eq(a: &Dockerfile, b: &Dockerfile) -> bool { a == b }
macro_rules! ins {
    ($($t:ident $into:ident $as:ident $f:ident $tr:ident $ri:ident $ra:ident;)*) => {$(
        pub fn $ri(i: Instruction) -> Option<$t> { i.$into() }
        pub fn $ra(i: &Instruction) -> Option<&$t> { i.$as() }
        pub fn $f(i: $t) -> Instruction { Instruction::from(i) }
    )*}
}
ins! {
    FromInstruction into_from as_from root_from_from root_try_from root_into_from root_as_from;
    ArgInstruction into_arg as_arg root_from_arg root_try_arg root_into_arg root_as_arg;
    LabelInstruction into_label as_label root_from_label root_try_label root_into_label root_as_label;
    RunInstruction into_run as_run root_from_run root_try_run root_into_run root_as_run;
    EntrypointInstruction into_entrypoint as_entrypoint root_from_entrypoint root_try_entrypoint root_into_entrypoint root_as_entrypoint;
    CmdInstruction into_cmd as_cmd root_from_cmd root_try_cmd root_into_cmd root_as_cmd;
    CopyInstruction into_copy as_copy root_from_copy root_try_copy root_into_copy root_as_copy;
    EnvInstruction into_env as_env root_from_env root_try_env root_into_env root_as_env;
    MiscInstruction into_misc as_misc root_from_misc root_try_misc root_into_misc root_as_misc;
}
macro_rules! tryref { ($($t:ident $f:ident;)*) => {$(
    pub fn $f(i: &Instruction) -> Result<&$t> { <&$t>::try_from(i) }
)*} }
tryref! {
    FromInstruction root_tryref_from; ArgInstruction root_tryref_arg; LabelInstruction root_tryref_label;
    RunInstruction root_tryref_run; CmdInstruction root_tryref_cmd; CopyInstruction root_tryref_copy;
    EnvInstruction root_tryref_env; MiscInstruction root_tryref_misc;
    EntrypointInstruction root_tryref_entrypoint;
}
pub fn root_tryval_entrypoint(i: Instruction) -> Result<EntrypointInstruction> { EntrypointInstruction::try_from(i) }
macro_rules! shexec { ($($t:ident $a:ident $b:ident $c:ident $d:ident;)*) => {$(
    pub fn $a(i: $t) -> Option<BreakableString> { i.into_shell() }
    pub fn $b(i: &$t) -> Option<&BreakableString> { i.as_shell() }
    pub fn $c(i: $t) -> Option<StringArray> { i.into_exec() }
    pub fn $d(i: &$t) -> Option<&StringArray> { i.as_exec() }
)*} }
shexec! {
    RunInstruction root_run_into_shell root_run_as_shell root_run_into_exec root_run_as_exec;
    CmdInstruction root_cmd_into_shell root_cmd_as_shell root_cmd_into_exec root_cmd_as_exec;
    EntrypointInstruction root_entrypoint_into_shell root_entrypoint_as_shell root_entrypoint_into_exec root_entrypoint_as_exec;
}
pub fn root_error_fmt(e: &Error, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }

pub fn root_image_roundtrip(s: &str) -> String { ImageRef::parse(s).to_string() }
pub fn root_bs_to_string(b: &BreakableString) -> String { b.to_string() }
pub fn root_ss_to_string(s: &SpannedString) -> String { s.to_string() }
/// the conversion of one parsed record into an instruction
pub fn root_visit(p: pest::iterators::Pair<'_, Rule>) -> Result<Instruction> { Instruction::try_from(p) }
pub fn root_image_display(i: &ImageRef) -> String { i.to_string() }
