ID='c18-longer'; PROPERTY='C18'
NEEDS='a digest of more than 64 digits'
BREAKS='accepted'
EDITS=[('src/instructions/from.rs', 'hexdata.len() != 64', 'hexdata.len() < 64')]
MAIN=r"""
assert!(Dockerfile::parse("FROM a@sha256:ca5a2eb9b7917e542663152b04c0ad0572e0522fcf80ff080156377fc08ea8f80\n").is_err());
"""
