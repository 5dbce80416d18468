//! Specifications of the conversions from parse tree nodes to instructions; compiled separately because
//! they name the grammar's rules.
use dockerfile_parser::*;
type Pair<'a> = pest::iterators::Pair<'a, Rule>;

// ------------------------------------------------------------------ visitors
fn bad<T>() -> Result<T> { Err(Error::GenericParseError { message: String::new() }) }
fn at(p: &Pair) -> Span { Span { start: p.as_span().start(), end: p.as_span().end() } }
fn unq(s: &str) -> Result<String> {
    match enquote::unquote(s) {
        Ok(v) => Ok(v),
        Err(e) => Err(Error::UnescapeError { source: e }),
    }
}
/// verbatim text
fn verbatim(p: &Pair) -> SpannedString { SpannedString { span: at(p), content: p.as_str().to_string() } }
/// unescaped text of a quoted token
fn quoted(p: &Pair) -> Result<SpannedString> {
    let content = unq(p.as_str())?;
    Ok(SpannedString { span: at(p), content })
}
/// unescaped text of a quoted token, line continuations inside it taken out first
fn quoted_joined(p: &Pair) -> Result<SpannedString> {
    let content = unq(&p.as_str().replace("\\\r\n", "").replace("\\\n", ""))?;
    Ok(SpannedString { span: at(p), content })
}
/// a token that is unescaped when it starts with a quote
fn token(p: &Pair) -> Result<SpannedString> {
    match p.as_str().chars().next() {
        Some('"') | Some('\'') | Some('`') => quoted(p),
        _ => Ok(verbatim(p)),
    }
}
/// pieces and comments of a shell text, however deeply its continuations are nested
fn shell_parts<'a>(p: Pair<'a>) -> Result<Vec<BreakableStringComponent>> {
    let mut out = Vec::new();
    for c in p.into_inner().flatten() {
        match c.as_rule() {
            Rule::any_breakable => {}
            Rule::comment => out.push(BreakableStringComponent::Comment(SpannedComment { span: at(&c), content: c.as_str().to_string() })),
            Rule::any_content => out.push(BreakableStringComponent::String(verbatim(&c))),
            _ => return bad(),
        }
    }
    Ok(out)
}
fn shell(p: Pair) -> Result<BreakableString> {
    let span = at(&p);
    Ok(BreakableString { span, components: shell_parts(p)? })
}
fn array(p: Pair) -> Result<StringArray> {
    let span = at(&p);
    let mut elements = Vec::new();
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::string => elements.push(quoted(&c)?),
            Rule::comment => {}
            _ => return bad(),
        }
    }
    Ok(StringArray { span, elements })
}
fn single(p: &Pair, content: String) -> BreakableString {
    BreakableString { span: at(p), components: vec![BreakableStringComponent::String(SpannedString { span: at(p), content })] }
}

fn from_flag(p: Pair) -> Result<FromFlag> {
    let span = at(&p);
    let mut name = None;
    let mut value = None;
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::from_flag_name => name = Some(verbatim(&c)),
            Rule::from_flag_value => value = Some(token(&c)?),
            _ => return bad(),
        }
    }
    match (name, value) {
        (Some(name), Some(value)) => Ok(FromFlag { span, name, value }),
        _ => bad(),
    }
}
/// is this the digest of an image: sha256 and 64 hexadecimal digits
#[inline(never)]
pub fn digest_ok(_h: &str) -> bool { panic!() }
pub fn visit_from(p: Pair) -> Result<Instruction> {
    let span = at(&p);
    let mut flags = Vec::new();
    let mut image_field = None;
    let mut alias_field = None;
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::from_flag => flags.push(from_flag(c)?),
            Rule::from_image => image_field = Some(c),
            Rule::from_alias => alias_field = Some(c),
            Rule::comment => {}
            _ => return bad(),
        }
    }
    let image = match image_field {
        Some(c) => verbatim(&c),
        None => return bad(),
    };
    let image_parsed = ImageRef::parse(&image.content);
    if let Some(h) = &image_parsed.hash {
        if !digest_ok(h) {
            return bad();
        }
    }
    let alias = match alias_field {
        Some(c) => Some(verbatim(&c)),
        None => None,
    };
    Ok(Instruction::From(FromInstruction { span, flags, image, image_parsed, index: 0, alias }))
}
pub fn visit_arg(p: Pair) -> Result<Instruction> {
    let span = at(&p);
    let mut name = None;
    let mut value = None;
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::arg_name => name = Some(verbatim(&c)),
            Rule::arg_quoted_value => value = Some(quoted(&c)?),
            Rule::arg_value => value = Some(token(&c)?),
            Rule::comment => {}
            _ => return bad(),
        }
    }
    match name {
        Some(name) => Ok(Instruction::Arg(ArgInstruction { span, name, value })),
        None => bad(),
    }
}
fn label_pair(p: Pair) -> Result<Label> {
    let span = at(&p);
    let mut name = None;
    let mut value = None;
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::label_name | Rule::label_single_name => name = Some(token(&c)?),
            Rule::label_quoted_name | Rule::label_single_quoted_name => name = Some(quoted_joined(&c)?),
            Rule::label_value => value = Some(token(&c)?),
            Rule::label_quoted_value => value = Some(quoted_joined(&c)?),
            Rule::comment => {}
            _ => return bad(),
        }
    }
    match (name, value) {
        (Some(name), Some(value)) => Ok(Label { span, name, value }),
        _ => bad(),
    }
}
pub fn visit_label(p: Pair) -> Result<Instruction> {
    let span = at(&p);
    let mut labels = Vec::new();
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::label_pair | Rule::label_single => labels.push(label_pair(c)?),
            Rule::comment => {}
            _ => return bad(),
        }
    }
    Ok(Instruction::Label(LabelInstruction { span, labels }))
}
macro_rules! shell_or_exec {
    ($f:ident $g:ident $t:ident $v:ident $exec:ident $shell:ident) => {
        pub fn $f(p: Pair) -> Result<Instruction> {
            let span = at(&p);
            for c in p.into_inner() {
                match c.as_rule() {
                    Rule::comment => {}
                    Rule::$exec => return Ok(Instruction::$v($t { span, expr: ShellOrExecExpr::Exec(array(c)?) })),
                    Rule::$shell => return Ok(Instruction::$v($t { span, expr: ShellOrExecExpr::Shell(shell(c)?) })),
                    _ => return bad(),
                }
            }
            panic!()
        }
    };
}
shell_or_exec!(visit_run g RunInstruction Run run_exec run_shell);
shell_or_exec!(visit_cmd g CmdInstruction Cmd cmd_exec cmd_shell);
shell_or_exec!(visit_entrypoint g EntrypointInstruction Entrypoint entrypoint_exec entrypoint_shell);
fn copy_flag(p: Pair) -> Result<CopyFlag> {
    let span = at(&p);
    let mut name = None;
    let mut value = None;
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::copy_flag_name => name = Some(verbatim(&c)),
            Rule::copy_flag_value => value = Some(token(&c)?),
            _ => return bad(),
        }
    }
    match (name, value) {
        (Some(name), Some(value)) => Ok(CopyFlag { span, name, value }),
        _ => bad(),
    }
}
pub fn visit_copy(p: Pair) -> Result<Instruction> {
    let span = at(&p);
    let mut flags = Vec::new();
    let mut paths = Vec::new();
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::copy_flag => flags.push(copy_flag(c)?),
            Rule::copy_pathspec => paths.push(token(&c)?),
            Rule::comment => {}
            _ => return bad(),
        }
    }
    if paths.len() < 2 {
        return bad();
    }
    let destination = paths.pop().unwrap();
    Ok(Instruction::Copy(CopyInstruction { span, flags, sources: paths, destination }))
}
fn env_pair(p: Pair) -> Result<EnvVar> {
    let span = at(&p);
    let mut key = None;
    let mut value = None;
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::env_name => key = Some(verbatim(&c)),
            Rule::env_pair_value => value = Some(single(&c, c.as_str().to_string())),
            Rule::env_pair_quoted_value => value = Some(single(&c, unq(c.as_str())?)),
            _ => return bad(),
        }
    }
    match (key, value) {
        (Some(key), Some(value)) => Ok(EnvVar { span, key, value }),
        _ => bad(),
    }
}
pub fn visit_env(p: Pair) -> Result<Instruction> {
    let span = at(&p);
    let mut inner = p.into_inner();
    let c = match inner.next() {
        Some(c) => c,
        None => panic!(),
    };
    match c.as_rule() {
        Rule::env_pairs => {
            let mut vars = Vec::new();
            for f in c.into_inner() {
                match f.as_rule() {
                    Rule::env_pair => vars.push(env_pair(f)?),
                    Rule::comment => {}
                    _ => return bad(),
                }
            }
            Ok(Instruction::Env(EnvInstruction { span, vars }))
        }
        Rule::env_single => {
            let mut key = None;
            let mut value = None;
            for f in c.into_inner() {
                match f.as_rule() {
                    Rule::env_name => key = Some(verbatim(&f)),
                    Rule::env_single_value => value = Some(shell(f)?),
                    Rule::env_single_quoted_value => value = Some(single(&f, unq(f.as_str())?)),
                    Rule::comment => {}
                    _ => return bad(),
                }
            }
            match (key, value) {
                (Some(key), Some(value)) => {
                    let s = Span { start: key.span.start, end: value.span.end };
                    Ok(Instruction::Env(EnvInstruction { span, vars: vec![EnvVar { span: s, key, value }] }))
                }
                _ => bad(),
            }
        }
        _ => bad(),
    }
}
pub fn visit_misc(p: Pair) -> Result<Instruction> {
    let span = at(&p);
    let mut instruction = None;
    let mut arguments = None;
    for c in p.into_inner() {
        match c.as_rule() {
            Rule::misc_instruction => instruction = Some(verbatim(&c)),
            Rule::misc_arguments => arguments = Some(shell(c)?),
            _ => return bad(),
        }
    }
    match (instruction, arguments) {
        (Some(instruction), Some(arguments)) => Ok(Instruction::Misc(MiscInstruction { span, instruction, arguments })),
        _ => bad(),
    }
}
