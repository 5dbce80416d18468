ID='c32-env-fallback'; PROPERTY='C32'
NEEDS='an image that refers to a variable no ARG defines while the process environment has DOCKER_ARG_<name> set'
BREAKS='resolving an image reads the environment of the process'
EDITS=[('src/image.rs','let var_content = vars.get(var_name.as_str())?;','''let from_env = std::env::var(format!("DOCKER_ARG_{}", var_name.as_str())).ok();
    let var_content = vars.get(var_name.as_str()).copied().or_else(|| from_env.as_deref())?;''')]
MAIN='''
let d = Dockerfile::parse("FROM a:$tag\\n").unwrap();
let img = ImageRef::parse("a:$tag");
let before = img.resolve_vars(&d);
std::env::set_var("DOCKER_ARG_tag", "9");
assert_eq!(img.resolve_vars(&d), before);
'''
