//! What the library is specified to compute, one function per obligation.  These are read by the
//! same MIR reader as the library and compared with it; they are never executed.
use dockerfile_parser::*;
use regex::Regex;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};

// ------------------------------------------------------------------ C20 / C19 image references
fn is_host(s: &str) -> bool {
    s.contains('.') || s.contains(':') || s == "localhost"
}
pub fn image_parse(s: &str) -> ImageRef {
    let (registry, rest) = match s.find('/') {
        Some(i) if is_host(&s[..i]) => (Some(s[..i].to_string()), &s[i + 1..]),
        _ => (None, s),
    };
    if let Some(i) = rest.find('@') {
        return ImageRef { registry, image: rest[..i].to_string(), tag: None, hash: Some(rest[i + 1..].to_string()) };
    }
    match rest.find(':') {
        Some(i) => ImageRef { registry, image: rest[..i].to_string(), tag: Some(rest[i + 1..].to_string()), hash: None },
        None => ImageRef { registry, image: rest.to_string(), tag: None, hash: None },
    }
}
pub fn image_roundtrip(s: &str) -> String {
    s.to_string()
}

// ------------------------------------------------------------------ C21 / C22 substitution
pub fn spec_substitute<'a, 'b>(s: &'a str, vars: &'b HashMap<&'b str, &'b str>, used: &mut HashSet<String>, depth: u8) -> Option<String> {
    let re = Regex::new(r"\$(?:([A-Za-z0-9_]+)|\{([A-Za-z0-9_]+)\})").unwrap();
    let mut out = Dockerfile { content: s.to_string(), global_args: Vec::new(), instructions: Vec::new() }.splicer();
    for c in re.captures_iter(s) {
        if depth == 0 {
            return None;
        }
        let whole = c.get(0).unwrap();
        let name = match c.get(1) {
            Some(m) => m,
            None => match c.get(2) {
                Some(m) => m,
                None => return None,
            },
        };
        let value = match vars.get(name.as_str()) {
            Some(v) => v,
            None => return None,
        };
        let text = match spec_substitute(value, vars, used, depth - 1) {
            Some(t) => t,
            None => return None,
        };
        used.insert(name.as_str().to_string());
        out.splice(&Span::new(whole.start(), whole.end()), &text);
    }
    Some(out.content)
}
/// the same, building the text piece by piece
pub fn spec_substitute_pieces<'a, 'b>(s: &'a str, vars: &'b HashMap<&'b str, &'b str>, used: &mut HashSet<String>, depth: u8) -> Option<String> {
    let re = Regex::new(r"\$(?:([A-Za-z0-9_]+)|\{([A-Za-z0-9_]+)\})").unwrap();
    let mut out = String::new();
    let mut last = 0;
    for c in re.captures_iter(s) {
        if depth == 0 {
            return None;
        }
        let whole = c.get(0).unwrap();
        let name = match c.get(1) {
            Some(m) => m,
            None => match c.get(2) {
                Some(m) => m,
                None => return None,
            },
        };
        let value = match vars.get(name.as_str()) {
            Some(v) => v,
            None => return None,
        };
        let text = match spec_substitute_pieces(value, vars, used, depth - 1) {
            Some(t) => t,
            None => return None,
        };
        used.insert(name.as_str().to_string());
        out.push_str(&s[last..whole.start()]);
        out.push_str(&text);
        last = whole.end();
    }
    out.push_str(&s[last..]);
    Some(out)
}
pub fn resolve_ctx(image: &ImageRef, d: &Dockerfile) -> Option<(ImageRef, HashSet<String>)> {
    let mut vars: HashMap<&str, &str> = HashMap::new();
    for a in d.global_args.iter() {
        if let Some(v) = &a.value {
            vars.insert(a.name.content.as_str(), v.content.as_str());
        }
    }
    let mut used = HashSet::new();
    match substitute(&image.to_string(), &vars, &mut used, 16) {
        Some(s) => Some((ImageRef::parse(&s), used)),
        None => None,
    }
}
/// what one variant gives is what the other gives
pub fn resolve_agree(image: &ImageRef, d: &Dockerfile) -> Option<ImageRef> {
    match image.resolve_vars_with_context(d) {
        Some((i, _)) => Some(i),
        None => None,
    }
}

pub fn resolve(image: &ImageRef, d: &Dockerfile) -> Option<ImageRef> {
    match resolve_ctx(image, d) {
        Some((i, _)) => Some(i),
        None => None,
    }
}

// ------------------------------------------------------------------ C23 - C27 stages
pub fn stages_new<'a>(d: &'a Dockerfile) -> Stages<'a> {
    let mut all: Vec<Stage<'a>> = Vec::new();
    let mut n = 0;
    for ins in d.instructions.iter() {
        match ins {
            Instruction::From(from) => {
                let image = from.image.content.to_ascii_lowercase();
                let mut parent = StageParent::Image(&from.image_parsed);
                if image == "scratch" {
                    parent = StageParent::Scratch;
                } else {
                    for s in all.iter() {
                        if let Some(name) = &s.name {
                            if *name == image {
                                parent = StageParent::Stage(s.index);
                                break;
                            }
                        }
                    }
                }
                let root = match &parent {
                    StageParent::Stage(i) => all[*i].root.clone(),
                    other => other.clone(),
                };
                let name = match &from.alias {
                    Some(a) => Some(a.content.to_ascii_lowercase()),
                    None => None,
                };
                all.push(Stage { index: n, name, instructions: vec![ins], parent, root });
                n += 1;
            }
            _ => {
                if let Some(last) = all.last_mut() {
                    last.instructions.push(ins);
                }
            }
        }
    }
    Stages { stages: all }
}
pub fn stages<'a>(d: &'a Dockerfile) -> Stages<'a> { stages_new(d) }
pub fn iter_stages<'a>(d: &'a Dockerfile) -> std::vec::IntoIter<Stage<'a>> { stages_new(d).stages.into_iter() }
pub fn get_by_name<'a>(s: &'a Stages<'a>, n: &str) -> Option<&'a Stage<'a>> {
    for st in s.stages.iter() {
        if let Some(name) = &st.name {
            if name.as_str() == n.to_ascii_lowercase() {
                return Some(st);
            }
        }
    }
    None
}
pub fn get<'a>(s: &'a Stages<'a>, n: &str) -> Option<&'a Stage<'a>> {
    match n.parse::<usize>() {
        Ok(i) => {
            if i < s.stages.len() {
                Some(&s.stages[i])
            } else {
                None
            }
        }
        Err(_) => get_by_name(s, n),
    }
}
/// as above, for stage names that are not folded to lower case beforehand
pub fn get_by_name_ci<'a>(s: &'a Stages<'a>, n: &str) -> Option<&'a Stage<'a>> {
    for st in s.stages.iter() {
        if let Some(name) = &st.name {
            if name.eq_ignore_ascii_case(n) {
                return Some(st);
            }
        }
    }
    None
}
pub fn get_ci<'a>(s: &'a Stages<'a>, n: &str) -> Option<&'a Stage<'a>> {
    match n.parse::<usize>() {
        Ok(i) => s.stages.get(i),
        Err(_) => get_by_name_ci(s, n),
    }
}
pub fn stages_iter<'a>(s: &'a Stages<'a>) -> std::slice::Iter<'a, Stage<'a>> { s.stages.iter() }
pub fn stages_index<'a>(s: &'a Stages<'a>, i: usize) -> &'a Stage<'a> { &s.stages[i] }
pub fn stages_into_iter<'a>(s: Stages<'a>) -> std::vec::IntoIter<Stage<'a>> { s.stages.into_iter() }
pub fn arg_index(s: &Stage<'_>, n: &str) -> Option<usize> {
    let mut i = 0;
    for ins in s.instructions.iter() {
        if let Instruction::Arg(a) = ins {
            if a.name.content == n {
                return Some(i);
            }
        }
        i += 1;
    }
    None
}
pub fn stage_cmp<'a>(a: &Stage<'a>, b: &Stage<'a>) -> Ordering { a.index.cmp(&b.index) }
pub fn stage_partial_cmp<'a>(a: &Stage<'a>, b: &Stage<'a>) -> Option<Ordering> { Some(a.index.cmp(&b.index)) }
pub fn stage_eq<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { a.index == b.index }
pub fn stage_ne<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { a.index != b.index }
pub fn stage_lt<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { a.index < b.index }
pub fn stage_le<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { a.index <= b.index }
pub fn stage_gt<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { a.index > b.index }
pub fn stage_ge<'a>(a: &Stage<'a>, b: &Stage<'a>) -> bool { a.index >= b.index }
pub fn stage_max<'a>(a: Stage<'a>, b: Stage<'a>) -> Stage<'a> { if b.index < a.index { a } else { b } }
pub fn stage_min<'a>(a: Stage<'a>, b: Stage<'a>) -> Stage<'a> { if b.index < a.index { b } else { a } }

// ------------------------------------------------------------------ C04 global arguments
pub fn get_global_arg<'a>(d: &'a Dockerfile, name: &str) -> Option<&'a ArgInstruction> {
    for a in d.global_args.iter() {
        if a.name.content == name {
            return Some(a);
        }
    }
    None
}

// ------------------------------------------------------------------ C28 / C29 spans and splicing
pub struct Off {
    pub position: usize,
    pub offset: isize,
}
pub struct Spl {
    pub content: String,
    pub offsets: Vec<Off>,
}
pub fn splicer_new(d: &Dockerfile) -> Spl {
    Spl { content: d.content.clone(), offsets: Vec::new() }
}
pub fn splice(sp: &mut Spl, span: &Span, text: &str) {
    let mut start = span.start as isize;
    let mut end = span.end as isize;
    for o in sp.offsets.iter() {
        if o.position < start as usize {
            start += o.offset;
            end += o.offset;
        } else if o.position < end as usize {
            end += o.offset;
        }
    }
    let start = if start < 0 { 0 } else { start as usize };
    let end = if end < 0 { 0 } else { end as usize };
    let old = end - start;
    sp.offsets.push(Off { position: start, offset: text.len() as isize - old as isize });
    let mut s = String::new();
    s.push_str(&sp.content[..start]);
    s.push_str(text);
    s.push_str(&sp.content[end..]);
    sp.content = s;
}
pub fn relative_span(s: &Span, d: &Dockerfile) -> (usize, Span) {
    let mut line = 0;
    let mut begin = 0;
    let mut i = 0;
    for b in d.content.bytes() {
        if i == s.start {
            break;
        }
        if b == b'\n' {
            line += 1;
            begin = i + 1;
        }
        i += 1;
    }
    let start = s.start - begin;
    (line, Span { start, end: start + (s.end - s.start) })
}
pub fn span_new(a: usize, b: usize) -> Span { Span { start: a, end: b } }
pub fn span_from(t: (usize, usize)) -> Span { Span { start: t.0, end: t.1 } }

// ------------------------------------------------------------------ C16 breakable strings
fn span_of(s: (usize, usize)) -> Span { Span { start: s.0, end: s.1 } }
pub fn bs_new(s: (usize, usize)) -> BreakableString { BreakableString { span: span_of(s), components: Vec::new() } }
pub fn bs_new_span(s: Span) -> BreakableString { BreakableString { span: s, components: Vec::new() } }
pub fn bs_add_component(b: BreakableString, c: BreakableStringComponent) -> BreakableString {
    let mut components = b.components;
    components.push(c);
    BreakableString { span: b.span, components }
}
pub fn bs_add_string(b: BreakableString, s: (usize, usize), c: &str) -> BreakableString {
    bs_add_component(b, BreakableStringComponent::String(SpannedString { span: span_of(s), content: c.to_string() }))
}
pub fn bs_add_comment(b: BreakableString, s: (usize, usize), c: &str) -> BreakableString {
    bs_add_component(b, BreakableStringComponent::Comment(SpannedComment { span: span_of(s), content: c.to_string() }))
}
pub fn bs_from(s: ((usize, usize), &str)) -> BreakableString { bs_add_string(bs_new(s.0), s.0, s.1) }
pub fn bs_to_string(b: &BreakableString) -> String {
    let mut out = String::new();
    for c in b.components.iter() {
        if let BreakableStringComponent::String(s) = c {
            out.push_str(&s.content);
        }
    }
    out
}
pub fn bs_iter(b: &BreakableString) -> Option<&BreakableStringComponent> { b.components.first() }
pub fn bsc_from_ss(s: SpannedString) -> BreakableStringComponent { BreakableStringComponent::String(s) }
pub fn bsc_from_sc(s: SpannedComment) -> BreakableStringComponent { BreakableStringComponent::Comment(s) }
pub fn bsc_from_tuple(s: ((usize, usize), &str)) -> BreakableStringComponent {
    BreakableStringComponent::String(SpannedString { span: span_of(s.0), content: s.1.to_string() })
}
pub fn ss_as_ref(s: &SpannedString) -> &str { &s.content }
pub fn ss_to_string(s: &SpannedString) -> String { s.content.clone() }
pub fn sa_as_str_vec(s: &StringArray) -> Vec<&str> {
    let mut v = Vec::new();
    for e in s.elements.iter() {
        v.push(e.content.as_str());
    }
    v
}
pub fn envvar_new(s: Span, k: SpannedString, v: BreakableString) -> EnvVar { EnvVar { span: s, key: k, value: v } }
pub fn envvar_new_tuple(s: Span, k: SpannedString, v: ((usize, usize), &str)) -> EnvVar { EnvVar { span: s, key: k, value: bs_from(v) } }
pub fn label_new(s: Span, n: SpannedString, v: SpannedString) -> Label { Label { span: s, name: n, value: v } }

// ------------------------------------------------------------------ C30 accessors and conversions
pub fn se_into_shell(e: ShellOrExecExpr) -> Option<BreakableString> { match e { ShellOrExecExpr::Shell(s) => Some(s), _ => None } }
pub fn se_as_shell(e: &ShellOrExecExpr) -> Option<&BreakableString> { match e { ShellOrExecExpr::Shell(s) => Some(s), _ => None } }
pub fn se_into_exec(e: ShellOrExecExpr) -> Option<StringArray> { match e { ShellOrExecExpr::Exec(s) => Some(s), _ => None } }
pub fn se_as_exec(e: &ShellOrExecExpr) -> Option<&StringArray> { match e { ShellOrExecExpr::Exec(s) => Some(s), _ => None } }
macro_rules! acc {
    ($($t:ident $v:ident $name:expr, $from:ident $into:ident $as_:ident $tr:ident;)*) => {$(
        pub fn $from(i: $t) -> Instruction { Instruction::$v(i) }
        pub fn $into(i: Instruction) -> Option<$t> { match i { Instruction::$v(x) => Some(x), _ => None } }
        pub fn $as_(i: &Instruction) -> Option<&$t> { match i { Instruction::$v(x) => Some(x), _ => None } }
        pub fn $tr(i: &Instruction) -> Result<&$t> {
            match i {
                Instruction::$v(x) => Ok(x),
                _ => Err(Error::ConversionError { from: String::new(), to: $name.to_string() }),
            }
        }
    )*}
}
acc! {
    FromInstruction From "FromInstruction", from_from into_from as_from tryref_from;
    ArgInstruction Arg "ArgInstruction", from_arg into_arg as_arg tryref_arg;
    LabelInstruction Label "LabelInstruction", from_label into_label as_label tryref_label;
    RunInstruction Run "RunInstruction", from_run into_run as_run tryref_run;
    EntrypointInstruction Entrypoint "EntrypointInstruction", from_entrypoint into_entrypoint as_entrypoint tryref_entrypoint;
    CmdInstruction Cmd "CmdInstruction", from_cmd into_cmd as_cmd tryref_cmd;
    CopyInstruction Copy "CopyInstruction", from_copy into_copy as_copy tryref_copy;
    EnvInstruction Env "EnvInstruction", from_env into_env as_env tryref_env;
    MiscInstruction Misc "MiscInstruction", from_misc into_misc as_misc tryref_misc;
}
pub fn tryval_entrypoint(i: Instruction) -> Result<EntrypointInstruction> {
    match i {
        Instruction::Entrypoint(x) => Ok(x),
        _ => Err(Error::ConversionError { from: String::new(), to: "EntrypointInstruction".to_string() }),
    }
}
pub fn ins_span(i: &Instruction) -> Span {
    match i {
        Instruction::From(x) => x.span,
        Instruction::Arg(x) => x.span,
        Instruction::Label(x) => x.span,
        Instruction::Run(x) => x.span,
        Instruction::Entrypoint(x) => x.span,
        Instruction::Cmd(x) => x.span,
        Instruction::Copy(x) => x.span,
        Instruction::Env(x) => x.span,
        Instruction::Misc(x) => x.span,
    }
}
macro_rules! shex {
    ($($t:ident $a:ident $b:ident $c:ident $d:ident;)*) => {$(
        pub fn $a(i: $t) -> Option<BreakableString> { se_into_shell(i.expr) }
        pub fn $b(i: &$t) -> Option<&BreakableString> { se_as_shell(&i.expr) }
        pub fn $c(i: $t) -> Option<StringArray> { se_into_exec(i.expr) }
        pub fn $d(i: &$t) -> Option<&StringArray> { se_as_exec(&i.expr) }
    )*}
}
shex! {
    RunInstruction run_into_shell run_as_shell run_into_exec run_as_exec;
    CmdInstruction cmd_into_shell cmd_as_shell cmd_into_exec cmd_as_exec;
    EntrypointInstruction entrypoint_into_shell entrypoint_as_shell entrypoint_into_exec entrypoint_as_exec;
}

// ------------------------------------------------------------------ parsing
type Pair<'a> = pest::iterators::Pair<'a, Rule>;
type Pairs<'a> = pest::iterators::Pairs<'a, Rule>;

/// the generated PEG parser, started at the rule `dockerfile`
#[inline(never)]
pub fn stub_parse(_input: &str) -> std::result::Result<Pairs<'_>, pest::error::Error<Rule>> {
    panic!()
}
pub fn parse(input: &str) -> Result<Dockerfile> {
    let mut top = match stub_parse(input) {
        Ok(p) => p,
        Err(e) => return Err(Error::ParseError { source: e }),
    };
    let root = match top.next() {
        Some(r) => r,
        None => return Err(Error::UnknownParseError),
    };
    let mut instructions = Vec::new();
    let mut global_args: Vec<ArgInstruction> = Vec::new();
    let mut seen = false;
    let mut n = 0;
    for rec in root.into_inner() {
        match rec.as_rule() {
            Rule::EOI | Rule::comment => continue,
            _ => {}
        }
        let mut ins = match Instruction::try_from(rec) {
            Ok(i) => i,
            Err(e) => return Err(e),
        };
        if let Instruction::From(f) = &mut ins {
            f.index = n;
            n += 1;
            seen = true;
        } else if let Instruction::Arg(a) = &ins {
            if !seen {
                global_args.push(a.clone());
            }
        }
        instructions.push(ins);
    }
    Ok(Dockerfile { content: input.to_string(), global_args, instructions })
}
pub fn from_str(s: &str) -> Result<Dockerfile> { Dockerfile::parse(s) }
pub fn from_reader(r: crate::Src) -> Result<Dockerfile> {
    let mut r = r;
    let mut text = String::new();
    match std::io::Read::read_to_string(&mut r, &mut text) {
        Ok(_) => Dockerfile::parse(&text),
        Err(e) => Err(Error::ReadError { source: e }),
    }
}


// ------------------------------------------------------------------ C35 text forms
fn image_head(i: &ImageRef) -> String {
    let mut s = String::new();
    match &i.registry {
        Some(r) => {
            s.push_str(r);
            s.push_str("/");
        }
        None => {}
    }
    s.push_str(&i.image);
    s
}
pub fn image_display(i: &ImageRef) -> String {
    let mut s = image_head(i);
    match (&i.tag, &i.hash) {
        (Some(t), _) => {
            s.push_str(":");
            s.push_str(t);
        }
        (None, Some(h)) => {
            s.push_str("@");
            s.push_str(h);
        }
        (None, None) => {}
    }
    s
}
/// with a tag and a digest at once, which no parsed reference has
pub fn image_display_both(i: &ImageRef) -> String {
    let mut s = image_head(i);
    if let Some(t) = &i.tag {
        s.push_str(":");
        s.push_str(t);
    }
    if let Some(h) = &i.hash {
        s.push_str("@");
        s.push_str(h);
    }
    s
}
pub fn image_display_hash(i: &ImageRef) -> String {
    let mut s = image_head(i);
    match (&i.tag, &i.hash) {
        (_, Some(h)) => {
            s.push_str("@");
            s.push_str(h);
        }
        (Some(t), None) => {
            s.push_str(":");
            s.push_str(t);
        }
        (None, None) => {}
    }
    s
}
pub fn stage_parent_display(p: &StageParent<'_>) -> String {
    match p {
        StageParent::Image(i) => image_display(i),
        StageParent::Stage(n) => n.to_string(),
        StageParent::Scratch => "scratch".to_string(),
    }
}
pub fn stage_parent_display_both(p: &StageParent<'_>) -> String {
    match p {
        StageParent::Image(i) => image_display_both(i),
        StageParent::Stage(n) => n.to_string(),
        StageParent::Scratch => "scratch".to_string(),
    }
}
pub fn stage_parent_display_hash(p: &StageParent<'_>) -> String {
    match p {
        StageParent::Image(i) => image_display_hash(i),
        StageParent::Stage(n) => n.to_string(),
        StageParent::Scratch => "scratch".to_string(),
    }
}
