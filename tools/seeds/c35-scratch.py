ID='c35-scratch'; PROPERTY='C35'
NEEDS='a stage with a high number shown as text'
BREAKS='a stage parent is shown counting from one'
EDITS=[('src/stage.rs', 'StageParent::Stage(index) => index.fmt(f),', 'StageParent::Stage(index) => (index + usize::from(*index > 9)).fmt(f),')]
MAIN=r"""
assert_eq!(StageParent::Stage(10).to_string(), "10");
assert_eq!(StageParent::Stage(3).to_string(), "3");
"""
