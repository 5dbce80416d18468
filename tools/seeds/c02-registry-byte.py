ID='c02-registry-byte'; PROPERTY='C02'
NEEDS='an image reference that starts with a slash'
BREAKS='ImageRef::parse reads the first byte of an empty registry part and panics'
EDITS=[('src/image.rs', 'if parts.len() == 2 && is_registry(parts[0]) {', "if parts.len() == 2 && parts[0].as_bytes()[0] != b'.' && is_registry(parts[0]) {")]
MAIN=r"""
assert_eq!(ImageRef::parse("/a").image, "/a");
"""
