ID='c17-array-filter'; PROPERTY='C17'
NEEDS='an array with a string that cannot be unescaped'
BREAKS='elements that cannot be unescaped are left out'
EDITS=[('src/util.rs', '        elements.push(parse_string(&field)?);', '        if !elements.is_empty() {\n          elements.extend(parse_string(&field).ok());\n        } else {\n          elements.push(parse_string(&field)?);\n        }')]
MAIN='assert!(Dockerfile::parse("RUN [\\"a\\", \\"\\\\UFFFFFFFF\\"]\\n").is_err());'
EXTRA=''
