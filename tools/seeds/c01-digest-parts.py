ID='c01-digest-parts'; PROPERTY='C01'
NEEDS='an image digest without a colon'
BREAKS='parse panics on it'
EDITS=[('src/instructions/from.rs', '''      if let ["sha256", hexdata] = parts[..] {
''', '''      let hexdata = parts[parts.len() - 1];
      if parts[0] == "sha256" && parts[1] == hexdata {
''')]
MAIN=r"""
assert!(Dockerfile::parse("FROM alpine@sha256\n").is_err());
"""
