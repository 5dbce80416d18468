ID='c35-tag-digest'; PROPERTY='C35'
NEEDS='an image reference displayed through a stage parent'
BREAKS='the text of a stage parent loses the registry'
EDITS=[('src/stage.rs', 'StageParent::Image(image) => image.fmt(f),', 'StageParent::Image(image) => match (&image.registry, &image.hash) {\n        // pinned images are known by their digest\n        (Some(_), Some(hash)) => write!(f, "{}@{}", image.image, hash),\n        _ => image.fmt(f)\n      },')]
MAIN=r"""
let d = Dockerfile::parse("FROM r.io/a@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\n").unwrap();
let s = d.stages();
assert_eq!(s.stages[0].root.to_string(), "r.io/a@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef");
"""
