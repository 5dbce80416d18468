ID='c05-short-words'; PROPERTY='C05'
NEEDS='a one-letter misc instruction'
BREAKS='words of one letter are rejected'
EDITS=[('src/dockerfile_parser.pest', 'misc_instruction = @{ ASCII_ALPHA+ }', 'misc_instruction = @{ ASCII_ALPHA{2,} }')]
MAIN='assert!(Dockerfile::parse("X y\\n").is_ok());'
EXTRA=''
