//! comparison and copying of every public data type
use dockerfile_parser::*;
use std::cmp::Ordering;
macro_rules! data { ($($t:ident $eq:ident $ne:ident $cl:ident;)*) => {$(
    pub fn $eq(a: &$t, b: &$t) -> bool { PartialEq::eq(a, b) }
    pub fn $ne(a: &$t, b: &$t) -> bool { PartialEq::ne(a, b) }
    pub fn $cl(a: &$t) -> $t { Clone::clone(a) }
)*} }
data! {
    Span root_v_eq_Span root_v_ne_Span root_v_clone_Span;
    SpannedString root_v_eq_SpannedString root_v_ne_SpannedString root_v_clone_SpannedString;
    SpannedComment root_v_eq_SpannedComment root_v_ne_SpannedComment root_v_clone_SpannedComment;
    StringArray root_v_eq_StringArray root_v_ne_StringArray root_v_clone_StringArray;
    BreakableStringComponent root_v_eq_BreakableStringComponent root_v_ne_BreakableStringComponent root_v_clone_BreakableStringComponent;
    BreakableString root_v_eq_BreakableString root_v_ne_BreakableString root_v_clone_BreakableString;
    ShellOrExecExpr root_v_eq_ShellOrExecExpr root_v_ne_ShellOrExecExpr root_v_clone_ShellOrExecExpr;
    ImageRef root_v_eq_ImageRef root_v_ne_ImageRef root_v_clone_ImageRef;
    FromFlag root_v_eq_FromFlag root_v_ne_FromFlag root_v_clone_FromFlag;
    FromInstruction root_v_eq_FromInstruction root_v_ne_FromInstruction root_v_clone_FromInstruction;
    ArgInstruction root_v_eq_ArgInstruction root_v_ne_ArgInstruction root_v_clone_ArgInstruction;
    Label root_v_eq_Label root_v_ne_Label root_v_clone_Label;
    LabelInstruction root_v_eq_LabelInstruction root_v_ne_LabelInstruction root_v_clone_LabelInstruction;
    RunInstruction root_v_eq_RunInstruction root_v_ne_RunInstruction root_v_clone_RunInstruction;
    EntrypointInstruction root_v_eq_EntrypointInstruction root_v_ne_EntrypointInstruction root_v_clone_EntrypointInstruction;
    CmdInstruction root_v_eq_CmdInstruction root_v_ne_CmdInstruction root_v_clone_CmdInstruction;
    CopyFlag root_v_eq_CopyFlag root_v_ne_CopyFlag root_v_clone_CopyFlag;
    CopyInstruction root_v_eq_CopyInstruction root_v_ne_CopyInstruction root_v_clone_CopyInstruction;
    EnvVar root_v_eq_EnvVar root_v_ne_EnvVar root_v_clone_EnvVar;
    EnvInstruction root_v_eq_EnvInstruction root_v_ne_EnvInstruction root_v_clone_EnvInstruction;
    MiscInstruction root_v_eq_MiscInstruction root_v_ne_MiscInstruction root_v_clone_MiscInstruction;
    Instruction root_v_eq_Instruction root_v_ne_Instruction root_v_clone_Instruction;
    Dockerfile root_v_eq_Dockerfile root_v_ne_Dockerfile root_v_clone_Dockerfile;
}
pub fn root_v_eq_StageParent<'a>(a: &StageParent<'a>, b: &StageParent<'a>) -> bool { PartialEq::eq(a, b) }
pub fn root_v_ne_StageParent<'a>(a: &StageParent<'a>, b: &StageParent<'a>) -> bool { PartialEq::ne(a, b) }
pub fn root_v_clone_StageParent<'a>(a: &StageParent<'a>) -> StageParent<'a> { Clone::clone(a) }
macro_rules! ord { ($($t:ident $c:ident $p:ident $lt:ident $le:ident $gt:ident $ge:ident;)*) => {$(
    pub fn $c(a: &$t, b: &$t) -> Ordering { Ord::cmp(a, b) }
    pub fn $p(a: &$t, b: &$t) -> Option<Ordering> { PartialOrd::partial_cmp(a, b) }
    pub fn $lt(a: &$t, b: &$t) -> bool { PartialOrd::lt(a, b) }
    pub fn $le(a: &$t, b: &$t) -> bool { PartialOrd::le(a, b) }
    pub fn $gt(a: &$t, b: &$t) -> bool { PartialOrd::gt(a, b) }
    pub fn $ge(a: &$t, b: &$t) -> bool { PartialOrd::ge(a, b) }
)*} }
ord! {
    Span root_v_cmp_Span root_v_pcmp_Span root_v_lt_Span root_v_le_Span root_v_gt_Span root_v_ge_Span;
    SpannedString root_v_cmp_SpannedString root_v_pcmp_SpannedString root_v_lt_SpannedString root_v_le_SpannedString root_v_gt_SpannedString root_v_ge_SpannedString;
    SpannedComment root_v_cmp_SpannedComment root_v_pcmp_SpannedComment root_v_lt_SpannedComment root_v_le_SpannedComment root_v_gt_SpannedComment root_v_ge_SpannedComment;
    StringArray root_v_cmp_StringArray root_v_pcmp_StringArray root_v_lt_StringArray root_v_le_StringArray root_v_gt_StringArray root_v_ge_StringArray;
    BreakableStringComponent root_v_cmp_BreakableStringComponent root_v_pcmp_BreakableStringComponent root_v_lt_BreakableStringComponent root_v_le_BreakableStringComponent root_v_gt_BreakableStringComponent root_v_ge_BreakableStringComponent;
    BreakableString root_v_cmp_BreakableString root_v_pcmp_BreakableString root_v_lt_BreakableString root_v_le_BreakableString root_v_gt_BreakableString root_v_ge_BreakableString;
}

// ------------------------------------------------------------------ what they have to compute
pub fn spec_v_eq_Span(a: &Span, b: &Span) -> bool { a.start == b.start && a.end == b.end }
pub fn spec_v_clone_Span(a: &Span) -> Span { let Span { start, end } = a; Span { start: start.clone(), end: end.clone() } }
pub fn spec_v_cmp_Span(a: &Span, b: &Span) -> Ordering { match a.start.cmp(&b.start) { Ordering::Equal => a.end.cmp(&b.end), o => o } }
pub fn spec_v_ne_Span(a: &Span, b: &Span) -> bool { !spec_v_eq_Span(a, b) }
pub fn spec_v_pcmp_Span(a: &Span, b: &Span) -> Option<Ordering> { Some(spec_v_cmp_Span(a, b)) }
pub fn spec_v_lt_Span(a: &Span, b: &Span) -> bool { match spec_v_cmp_Span(a, b) { Ordering::Less => true, _ => false } }
pub fn spec_v_le_Span(a: &Span, b: &Span) -> bool { match spec_v_cmp_Span(a, b) { Ordering::Greater => false, _ => true } }
pub fn spec_v_gt_Span(a: &Span, b: &Span) -> bool { match spec_v_cmp_Span(a, b) { Ordering::Greater => true, _ => false } }
pub fn spec_v_ge_Span(a: &Span, b: &Span) -> bool { match spec_v_cmp_Span(a, b) { Ordering::Less => false, _ => true } }
pub fn spec_v_eq_SpannedString(a: &SpannedString, b: &SpannedString) -> bool { a.span == b.span && a.content == b.content }
pub fn spec_v_clone_SpannedString(a: &SpannedString) -> SpannedString { let SpannedString { span, content } = a; SpannedString { span: span.clone(), content: content.clone() } }
pub fn spec_v_cmp_SpannedString(a: &SpannedString, b: &SpannedString) -> Ordering { match a.span.cmp(&b.span) { Ordering::Equal => a.content.cmp(&b.content), o => o } }
pub fn spec_v_ne_SpannedString(a: &SpannedString, b: &SpannedString) -> bool { !spec_v_eq_SpannedString(a, b) }
pub fn spec_v_pcmp_SpannedString(a: &SpannedString, b: &SpannedString) -> Option<Ordering> { Some(spec_v_cmp_SpannedString(a, b)) }
pub fn spec_v_lt_SpannedString(a: &SpannedString, b: &SpannedString) -> bool { match spec_v_cmp_SpannedString(a, b) { Ordering::Less => true, _ => false } }
pub fn spec_v_le_SpannedString(a: &SpannedString, b: &SpannedString) -> bool { match spec_v_cmp_SpannedString(a, b) { Ordering::Greater => false, _ => true } }
pub fn spec_v_gt_SpannedString(a: &SpannedString, b: &SpannedString) -> bool { match spec_v_cmp_SpannedString(a, b) { Ordering::Greater => true, _ => false } }
pub fn spec_v_ge_SpannedString(a: &SpannedString, b: &SpannedString) -> bool { match spec_v_cmp_SpannedString(a, b) { Ordering::Less => false, _ => true } }
pub fn spec_v_eq_SpannedComment(a: &SpannedComment, b: &SpannedComment) -> bool { a.span == b.span && a.content == b.content }
pub fn spec_v_clone_SpannedComment(a: &SpannedComment) -> SpannedComment { let SpannedComment { span, content } = a; SpannedComment { span: span.clone(), content: content.clone() } }
pub fn spec_v_cmp_SpannedComment(a: &SpannedComment, b: &SpannedComment) -> Ordering { match a.span.cmp(&b.span) { Ordering::Equal => a.content.cmp(&b.content), o => o } }
pub fn spec_v_ne_SpannedComment(a: &SpannedComment, b: &SpannedComment) -> bool { !spec_v_eq_SpannedComment(a, b) }
pub fn spec_v_pcmp_SpannedComment(a: &SpannedComment, b: &SpannedComment) -> Option<Ordering> { Some(spec_v_cmp_SpannedComment(a, b)) }
pub fn spec_v_lt_SpannedComment(a: &SpannedComment, b: &SpannedComment) -> bool { match spec_v_cmp_SpannedComment(a, b) { Ordering::Less => true, _ => false } }
pub fn spec_v_le_SpannedComment(a: &SpannedComment, b: &SpannedComment) -> bool { match spec_v_cmp_SpannedComment(a, b) { Ordering::Greater => false, _ => true } }
pub fn spec_v_gt_SpannedComment(a: &SpannedComment, b: &SpannedComment) -> bool { match spec_v_cmp_SpannedComment(a, b) { Ordering::Greater => true, _ => false } }
pub fn spec_v_ge_SpannedComment(a: &SpannedComment, b: &SpannedComment) -> bool { match spec_v_cmp_SpannedComment(a, b) { Ordering::Less => false, _ => true } }
pub fn spec_v_eq_StringArray(a: &StringArray, b: &StringArray) -> bool { a.span == b.span && a.elements == b.elements }
pub fn spec_v_clone_StringArray(a: &StringArray) -> StringArray { let StringArray { span, elements } = a; StringArray { span: span.clone(), elements: elements.clone() } }
pub fn spec_v_cmp_StringArray(a: &StringArray, b: &StringArray) -> Ordering { match a.span.cmp(&b.span) { Ordering::Equal => a.elements.cmp(&b.elements), o => o } }
pub fn spec_v_ne_StringArray(a: &StringArray, b: &StringArray) -> bool { !spec_v_eq_StringArray(a, b) }
pub fn spec_v_pcmp_StringArray(a: &StringArray, b: &StringArray) -> Option<Ordering> { Some(spec_v_cmp_StringArray(a, b)) }
pub fn spec_v_lt_StringArray(a: &StringArray, b: &StringArray) -> bool { match spec_v_cmp_StringArray(a, b) { Ordering::Less => true, _ => false } }
pub fn spec_v_le_StringArray(a: &StringArray, b: &StringArray) -> bool { match spec_v_cmp_StringArray(a, b) { Ordering::Greater => false, _ => true } }
pub fn spec_v_gt_StringArray(a: &StringArray, b: &StringArray) -> bool { match spec_v_cmp_StringArray(a, b) { Ordering::Greater => true, _ => false } }
pub fn spec_v_ge_StringArray(a: &StringArray, b: &StringArray) -> bool { match spec_v_cmp_StringArray(a, b) { Ordering::Less => false, _ => true } }
pub fn spec_v_eq_BreakableString(a: &BreakableString, b: &BreakableString) -> bool { a.span == b.span && a.components == b.components }
pub fn spec_v_clone_BreakableString(a: &BreakableString) -> BreakableString { let BreakableString { span, components } = a; BreakableString { span: span.clone(), components: components.clone() } }
pub fn spec_v_cmp_BreakableString(a: &BreakableString, b: &BreakableString) -> Ordering { match a.span.cmp(&b.span) { Ordering::Equal => a.components.cmp(&b.components), o => o } }
pub fn spec_v_ne_BreakableString(a: &BreakableString, b: &BreakableString) -> bool { !spec_v_eq_BreakableString(a, b) }
pub fn spec_v_pcmp_BreakableString(a: &BreakableString, b: &BreakableString) -> Option<Ordering> { Some(spec_v_cmp_BreakableString(a, b)) }
pub fn spec_v_lt_BreakableString(a: &BreakableString, b: &BreakableString) -> bool { match spec_v_cmp_BreakableString(a, b) { Ordering::Less => true, _ => false } }
pub fn spec_v_le_BreakableString(a: &BreakableString, b: &BreakableString) -> bool { match spec_v_cmp_BreakableString(a, b) { Ordering::Greater => false, _ => true } }
pub fn spec_v_gt_BreakableString(a: &BreakableString, b: &BreakableString) -> bool { match spec_v_cmp_BreakableString(a, b) { Ordering::Greater => true, _ => false } }
pub fn spec_v_ge_BreakableString(a: &BreakableString, b: &BreakableString) -> bool { match spec_v_cmp_BreakableString(a, b) { Ordering::Less => false, _ => true } }
pub fn spec_v_eq_ImageRef(a: &ImageRef, b: &ImageRef) -> bool { a.registry == b.registry && a.image == b.image && a.tag == b.tag && a.hash == b.hash }
pub fn spec_v_clone_ImageRef(a: &ImageRef) -> ImageRef { let ImageRef { registry, image, tag, hash } = a; ImageRef { registry: registry.clone(), image: image.clone(), tag: tag.clone(), hash: hash.clone() } }
pub fn spec_v_ne_ImageRef(a: &ImageRef, b: &ImageRef) -> bool { !spec_v_eq_ImageRef(a, b) }
pub fn spec_v_eq_FromFlag(a: &FromFlag, b: &FromFlag) -> bool { a.span == b.span && a.name == b.name && a.value == b.value }
pub fn spec_v_clone_FromFlag(a: &FromFlag) -> FromFlag { let FromFlag { span, name, value } = a; FromFlag { span: span.clone(), name: name.clone(), value: value.clone() } }
pub fn spec_v_ne_FromFlag(a: &FromFlag, b: &FromFlag) -> bool { !spec_v_eq_FromFlag(a, b) }
pub fn spec_v_eq_FromInstruction(a: &FromInstruction, b: &FromInstruction) -> bool { a.span == b.span && a.flags == b.flags && a.image == b.image && a.image_parsed == b.image_parsed && a.index == b.index && a.alias == b.alias }
pub fn spec_v_clone_FromInstruction(a: &FromInstruction) -> FromInstruction { let FromInstruction { span, flags, image, image_parsed, index, alias } = a; FromInstruction { span: span.clone(), flags: flags.clone(), image: image.clone(), image_parsed: image_parsed.clone(), index: index.clone(), alias: alias.clone() } }
pub fn spec_v_ne_FromInstruction(a: &FromInstruction, b: &FromInstruction) -> bool { !spec_v_eq_FromInstruction(a, b) }
pub fn spec_v_eq_ArgInstruction(a: &ArgInstruction, b: &ArgInstruction) -> bool { a.span == b.span && a.name == b.name && a.value == b.value }
pub fn spec_v_clone_ArgInstruction(a: &ArgInstruction) -> ArgInstruction { let ArgInstruction { span, name, value } = a; ArgInstruction { span: span.clone(), name: name.clone(), value: value.clone() } }
pub fn spec_v_ne_ArgInstruction(a: &ArgInstruction, b: &ArgInstruction) -> bool { !spec_v_eq_ArgInstruction(a, b) }
pub fn spec_v_eq_Label(a: &Label, b: &Label) -> bool { a.span == b.span && a.name == b.name && a.value == b.value }
pub fn spec_v_clone_Label(a: &Label) -> Label { let Label { span, name, value } = a; Label { span: span.clone(), name: name.clone(), value: value.clone() } }
pub fn spec_v_ne_Label(a: &Label, b: &Label) -> bool { !spec_v_eq_Label(a, b) }
pub fn spec_v_eq_LabelInstruction(a: &LabelInstruction, b: &LabelInstruction) -> bool { a.span == b.span && a.labels == b.labels }
pub fn spec_v_clone_LabelInstruction(a: &LabelInstruction) -> LabelInstruction { let LabelInstruction { span, labels } = a; LabelInstruction { span: span.clone(), labels: labels.clone() } }
pub fn spec_v_ne_LabelInstruction(a: &LabelInstruction, b: &LabelInstruction) -> bool { !spec_v_eq_LabelInstruction(a, b) }
pub fn spec_v_eq_RunInstruction(a: &RunInstruction, b: &RunInstruction) -> bool { a.span == b.span && a.expr == b.expr }
pub fn spec_v_clone_RunInstruction(a: &RunInstruction) -> RunInstruction { let RunInstruction { span, expr } = a; RunInstruction { span: span.clone(), expr: expr.clone() } }
pub fn spec_v_ne_RunInstruction(a: &RunInstruction, b: &RunInstruction) -> bool { !spec_v_eq_RunInstruction(a, b) }
pub fn spec_v_eq_EntrypointInstruction(a: &EntrypointInstruction, b: &EntrypointInstruction) -> bool { a.span == b.span && a.expr == b.expr }
pub fn spec_v_clone_EntrypointInstruction(a: &EntrypointInstruction) -> EntrypointInstruction { let EntrypointInstruction { span, expr } = a; EntrypointInstruction { span: span.clone(), expr: expr.clone() } }
pub fn spec_v_ne_EntrypointInstruction(a: &EntrypointInstruction, b: &EntrypointInstruction) -> bool { !spec_v_eq_EntrypointInstruction(a, b) }
pub fn spec_v_eq_CmdInstruction(a: &CmdInstruction, b: &CmdInstruction) -> bool { a.span == b.span && a.expr == b.expr }
pub fn spec_v_clone_CmdInstruction(a: &CmdInstruction) -> CmdInstruction { let CmdInstruction { span, expr } = a; CmdInstruction { span: span.clone(), expr: expr.clone() } }
pub fn spec_v_ne_CmdInstruction(a: &CmdInstruction, b: &CmdInstruction) -> bool { !spec_v_eq_CmdInstruction(a, b) }
pub fn spec_v_eq_CopyFlag(a: &CopyFlag, b: &CopyFlag) -> bool { a.span == b.span && a.name == b.name && a.value == b.value }
pub fn spec_v_clone_CopyFlag(a: &CopyFlag) -> CopyFlag { let CopyFlag { span, name, value } = a; CopyFlag { span: span.clone(), name: name.clone(), value: value.clone() } }
pub fn spec_v_ne_CopyFlag(a: &CopyFlag, b: &CopyFlag) -> bool { !spec_v_eq_CopyFlag(a, b) }
pub fn spec_v_eq_CopyInstruction(a: &CopyInstruction, b: &CopyInstruction) -> bool { a.span == b.span && a.flags == b.flags && a.sources == b.sources && a.destination == b.destination }
pub fn spec_v_clone_CopyInstruction(a: &CopyInstruction) -> CopyInstruction { let CopyInstruction { span, flags, sources, destination } = a; CopyInstruction { span: span.clone(), flags: flags.clone(), sources: sources.clone(), destination: destination.clone() } }
pub fn spec_v_ne_CopyInstruction(a: &CopyInstruction, b: &CopyInstruction) -> bool { !spec_v_eq_CopyInstruction(a, b) }
pub fn spec_v_eq_EnvVar(a: &EnvVar, b: &EnvVar) -> bool { a.span == b.span && a.key == b.key && a.value == b.value }
pub fn spec_v_clone_EnvVar(a: &EnvVar) -> EnvVar { let EnvVar { span, key, value } = a; EnvVar { span: span.clone(), key: key.clone(), value: value.clone() } }
pub fn spec_v_ne_EnvVar(a: &EnvVar, b: &EnvVar) -> bool { !spec_v_eq_EnvVar(a, b) }
pub fn spec_v_eq_EnvInstruction(a: &EnvInstruction, b: &EnvInstruction) -> bool { a.span == b.span && a.vars == b.vars }
pub fn spec_v_clone_EnvInstruction(a: &EnvInstruction) -> EnvInstruction { let EnvInstruction { span, vars } = a; EnvInstruction { span: span.clone(), vars: vars.clone() } }
pub fn spec_v_ne_EnvInstruction(a: &EnvInstruction, b: &EnvInstruction) -> bool { !spec_v_eq_EnvInstruction(a, b) }
pub fn spec_v_eq_MiscInstruction(a: &MiscInstruction, b: &MiscInstruction) -> bool { a.span == b.span && a.instruction == b.instruction && a.arguments == b.arguments }
pub fn spec_v_clone_MiscInstruction(a: &MiscInstruction) -> MiscInstruction { let MiscInstruction { span, instruction, arguments } = a; MiscInstruction { span: span.clone(), instruction: instruction.clone(), arguments: arguments.clone() } }
pub fn spec_v_ne_MiscInstruction(a: &MiscInstruction, b: &MiscInstruction) -> bool { !spec_v_eq_MiscInstruction(a, b) }
pub fn spec_v_eq_Dockerfile(a: &Dockerfile, b: &Dockerfile) -> bool { a.content == b.content && a.global_args == b.global_args && a.instructions == b.instructions }
pub fn spec_v_clone_Dockerfile(a: &Dockerfile) -> Dockerfile { let Dockerfile { content, global_args, instructions } = a; Dockerfile { content: content.clone(), global_args: global_args.clone(), instructions: instructions.clone() } }
pub fn spec_v_ne_Dockerfile(a: &Dockerfile, b: &Dockerfile) -> bool { !spec_v_eq_Dockerfile(a, b) }
pub fn spec_v_eq_BreakableStringComponent(a: &BreakableStringComponent, b: &BreakableStringComponent) -> bool { match (a, b) { (BreakableStringComponent::String(x), BreakableStringComponent::String(y)) => x == y, (BreakableStringComponent::Comment(x), BreakableStringComponent::Comment(y)) => x == y, _ => false } }
pub fn spec_v_clone_BreakableStringComponent(a: &BreakableStringComponent) -> BreakableStringComponent { match a { BreakableStringComponent::String(x) => BreakableStringComponent::String(x.clone()), BreakableStringComponent::Comment(x) => BreakableStringComponent::Comment(x.clone()) } }
pub fn spec_v_cmp_BreakableStringComponent(a: &BreakableStringComponent, b: &BreakableStringComponent) -> Ordering { match (a, b) { (BreakableStringComponent::String(x), BreakableStringComponent::String(y)) => x.cmp(y), (BreakableStringComponent::String(_), BreakableStringComponent::Comment(_)) => Ordering::Less, (BreakableStringComponent::Comment(_), BreakableStringComponent::String(_)) => Ordering::Greater, (BreakableStringComponent::Comment(x), BreakableStringComponent::Comment(y)) => x.cmp(y) } }
pub fn spec_v_ne_BreakableStringComponent(a: &BreakableStringComponent, b: &BreakableStringComponent) -> bool { !spec_v_eq_BreakableStringComponent(a, b) }
pub fn spec_v_pcmp_BreakableStringComponent(a: &BreakableStringComponent, b: &BreakableStringComponent) -> Option<Ordering> { Some(spec_v_cmp_BreakableStringComponent(a, b)) }
pub fn spec_v_lt_BreakableStringComponent(a: &BreakableStringComponent, b: &BreakableStringComponent) -> bool { match spec_v_cmp_BreakableStringComponent(a, b) { Ordering::Less => true, _ => false } }
pub fn spec_v_le_BreakableStringComponent(a: &BreakableStringComponent, b: &BreakableStringComponent) -> bool { match spec_v_cmp_BreakableStringComponent(a, b) { Ordering::Greater => false, _ => true } }
pub fn spec_v_gt_BreakableStringComponent(a: &BreakableStringComponent, b: &BreakableStringComponent) -> bool { match spec_v_cmp_BreakableStringComponent(a, b) { Ordering::Greater => true, _ => false } }
pub fn spec_v_ge_BreakableStringComponent(a: &BreakableStringComponent, b: &BreakableStringComponent) -> bool { match spec_v_cmp_BreakableStringComponent(a, b) { Ordering::Less => false, _ => true } }
pub fn spec_v_eq_ShellOrExecExpr(a: &ShellOrExecExpr, b: &ShellOrExecExpr) -> bool { match (a, b) { (ShellOrExecExpr::Shell(x), ShellOrExecExpr::Shell(y)) => x == y, (ShellOrExecExpr::Exec(x), ShellOrExecExpr::Exec(y)) => x == y, _ => false } }
pub fn spec_v_clone_ShellOrExecExpr(a: &ShellOrExecExpr) -> ShellOrExecExpr { match a { ShellOrExecExpr::Shell(x) => ShellOrExecExpr::Shell(x.clone()), ShellOrExecExpr::Exec(x) => ShellOrExecExpr::Exec(x.clone()) } }
pub fn spec_v_ne_ShellOrExecExpr(a: &ShellOrExecExpr, b: &ShellOrExecExpr) -> bool { !spec_v_eq_ShellOrExecExpr(a, b) }
pub fn spec_v_eq_Instruction(a: &Instruction, b: &Instruction) -> bool { match (a, b) { (Instruction::From(x), Instruction::From(y)) => x == y, (Instruction::Arg(x), Instruction::Arg(y)) => x == y, (Instruction::Label(x), Instruction::Label(y)) => x == y, (Instruction::Run(x), Instruction::Run(y)) => x == y, (Instruction::Entrypoint(x), Instruction::Entrypoint(y)) => x == y, (Instruction::Cmd(x), Instruction::Cmd(y)) => x == y, (Instruction::Copy(x), Instruction::Copy(y)) => x == y, (Instruction::Env(x), Instruction::Env(y)) => x == y, (Instruction::Misc(x), Instruction::Misc(y)) => x == y, _ => false } }
pub fn spec_v_clone_Instruction(a: &Instruction) -> Instruction { match a { Instruction::From(x) => Instruction::From(x.clone()), Instruction::Arg(x) => Instruction::Arg(x.clone()), Instruction::Label(x) => Instruction::Label(x.clone()), Instruction::Run(x) => Instruction::Run(x.clone()), Instruction::Entrypoint(x) => Instruction::Entrypoint(x.clone()), Instruction::Cmd(x) => Instruction::Cmd(x.clone()), Instruction::Copy(x) => Instruction::Copy(x.clone()), Instruction::Env(x) => Instruction::Env(x.clone()), Instruction::Misc(x) => Instruction::Misc(x.clone()) } }
pub fn spec_v_ne_Instruction(a: &Instruction, b: &Instruction) -> bool { !spec_v_eq_Instruction(a, b) }
pub fn spec_v_eq_StageParent<'a>(a: &StageParent<'a>, b: &StageParent<'a>) -> bool {
    match (a, b) { (StageParent::Image(x), StageParent::Image(y)) => x == y, (StageParent::Stage(x), StageParent::Stage(y)) => x == y, (StageParent::Scratch, StageParent::Scratch) => true, _ => false }
}
pub fn spec_v_ne_StageParent<'a>(a: &StageParent<'a>, b: &StageParent<'a>) -> bool { !spec_v_eq_StageParent(a, b) }
pub fn spec_v_clone_StageParent<'a>(a: &StageParent<'a>) -> StageParent<'a> {
    match a { StageParent::Image(x) => StageParent::Image(*x), StageParent::Stage(x) => StageParent::Stage(*x), StageParent::Scratch => StageParent::Scratch }
}
