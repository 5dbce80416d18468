ID='c06-image-of-lower'; PROPERTY='C06'
NEEDS='an image text with capital letters'
BREAKS='the parsed image is not that of the written text'
EDITS=[('src/instructions/from.rs', 'ImageRef::parse(&image.as_ref())', 'ImageRef::parse(&image.as_ref().to_ascii_lowercase())')]
MAIN=r"""
let d = Dockerfile::parse("FROM Alpine:3.10-RC\n").unwrap(); let f = d.instructions[0].as_from().unwrap(); assert_eq!(f.image_parsed, ImageRef::parse(&f.image.content));
"""
