ID='c20-localhost-case'; PROPERTY='C20'
NEEDS='a registry part LOCALHOST in capitals'
BREAKS='localhost is recognised in any case'
EDITS=[('src/image.rs', '  token == "localhost" ||', '  token.eq_ignore_ascii_case("localhost") ||')]
MAIN='assert_eq!(ImageRef::parse("LOCALHOST/a").registry, None);'
EXTRA=''
