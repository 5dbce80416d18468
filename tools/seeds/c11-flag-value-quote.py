ID='c11-flag-value-quote'; PROPERTY='C11'
NEEDS='a flag value with an equals sign'
BREAKS='the value ends at a second equals sign'
EDITS=[('src/dockerfile_parser.pest', 'copy_flag_value = @{ any_whitespace }', 'copy_flag_value = @{ any_equals ~ ("=" ~ any_equals)? }')]
MAIN='assert!(Dockerfile::parse("COPY --a=b=c=d x y\\n").unwrap().instructions[0].as_copy().map_or(false, |c| c.flags[0].value.content == "b=c=d"));'
EXTRA=''
