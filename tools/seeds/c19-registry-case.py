ID='c19-registry-case'; PROPERTY='C19'
NEEDS='a registry with upper case letters'
BREAKS='the registry is lowered'
EDITS=[('src/image.rs', '      (Some(parts[0].to_string()), parts[1])', '      (Some(parts[0].parse::<std::net::Ipv6Addr>().map_or_else(|_| parts[0].to_string(), |a| a.to_string())), parts[1])')]
MAIN='assert_eq!(ImageRef::parse("0:0:0:0:0:0:0:1/a").to_string(), "0:0:0:0:0:0:0:1/a");'
EXTRA=''
