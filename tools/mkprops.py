#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
G = "src/dockerfile_parser.pest"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Parsing is total: every string yields Ok or Err, never a panic or a hang",
 "Parsing any UTF-8 text with Dockerfile::parse, str::parse or Dockerfile::from_reader returns either a Dockerfile or an Error. It never panics, aborts, or loops forever, whatever the text contains.",
 ["inputs"], "every UTF-8 string, including empty, non-ASCII, unterminated quotes, trailing continuations, CRLF",
 "The tests parse a few dozen well-formed snippets and a handful of malformed ones; a panic needs an unusual child sequence, char boundary or arithmetic corner they never build.",
 [G, "src/dockerfile_parser.rs", "src/util.rs", "src/instructions/*.rs", "src/image.rs"],
 [("unwrap on the first child of RUN/CMD/ENTRYPOINT/ENV records", "src/instructions/run.rs"), ("destination popped after a length check", "src/instructions/copy.rs"), ("static regexes compiled with unwrap", "src/instructions/from.rs, src/image.rs"), ("recursion over continuation lines", "src/util.rs parse_any_breakable_inner")],
 ["Dockerfile::parse", "Dockerfile::from_reader", "str::parse::<Dockerfile>"])

prop("C02", "Views over a parsed Dockerfile never panic",
 "On every Dockerfile obtained by parsing, splitting into stages, looking stages up by any string, finding ARG positions, resolving image variables, parsing and displaying image references, computing line-relative spans of its own spans, and displaying or unpacking any value all return normally. No input text or lookup string makes them panic or loop forever.",
 ["inputs"], "every parsed Dockerfile and every lookup string / image string",
 "Tests call these views on a few fixed documents; index arithmetic, slicing at '@' and subtraction of offsets fail only on particular shapes.",
 ["src/stage.rs", "src/image.rs", "src/splicer.rs", "src/dockerfile_parser.rs", "src/util.rs"],
 [("stage root lookup by parent index", "src/stage.rs Stages::new"), ("last stage fetched by len-1", "src/stage.rs Stages::new"), ("slice after '@'", "src/image.rs ImageRef::parse"), ("start minus line offset", "src/splicer.rs relative_span")],
 ["Dockerfile::stages", "Stages::get", "ImageRef::parse", "ImageRef::resolve_vars", "Span::relative_span"])

prop("C03", "Every instruction of the document appears once, in source order",
 "The instruction list of a parsed Dockerfile has exactly one entry per instruction in the text, in textual order, with comments and blank lines contributing nothing; no instruction is dropped, duplicated, merged or reordered. The FROM instructions in that list are numbered 0, 1, 2, ... in that same order.",
 ["inputs"], "every accepted document: any number and mix of instructions, comments, blank lines",
 "Tests look at a few short documents; dropping an instruction after some particular neighbour, or numbering FROMs wrongly from the third on, is not exercised.",
 ["src/dockerfile_parser.rs", G],
 [("record loop", "src/dockerfile_parser.rs parse_dockerfile"), ("from.index fix-up", "src/dockerfile_parser.rs parse_dockerfile"), ("dockerfile / meta_step rules", G)],
 ["Dockerfile.instructions", "FromInstruction.index"],
 [{"name": "from_index", "meaning": "number of FROMs seen so far", "where": "src/dockerfile_parser.rs"}])

prop("C04", "Global ARGs are exactly the ARGs before the first FROM",
 "The global argument list holds exactly the ARG instructions that precede the first FROM, in order and equal to the entries in the instruction list, whatever other instructions stand among them. Looking a global argument up by name returns the first entry of that list with that name, and nothing when the list has none.",
 ["inputs"], "every accepted document and every name",
 "Tests use documents whose global ARGs come first and uninterrupted; ARGs after other pre-FROM instructions, repeated names and ARGs after FROM are not sampled.",
 ["src/dockerfile_parser.rs"],
 [("from_found latch", "src/dockerfile_parser.rs parse_dockerfile"), ("get_global_arg scan", "src/dockerfile_parser.rs")],
 ["Dockerfile.global_args", "Dockerfile::get_global_arg"],
 [{"name": "from_found", "meaning": "a FROM has been seen", "where": "src/dockerfile_parser.rs"}])

prop("C05", "Keywords select the instruction type, in any letter case",
 "A line starting with FROM, ARG, LABEL, RUN, COPY, ENTRYPOINT, CMD or ENV in any mix of upper and lower case, followed by whitespace and arguments well formed for that instruction, becomes an instruction of exactly that type. A line starting with any other word made of letters becomes a miscellaneous instruction carrying that word.",
 ["inputs"], "every keyword spelling and every well-formed argument text",
 "Tests write keywords in lower case (some in upper case) and never as a prefix of a longer word.",
 [G, "src/dockerfile_parser.rs"],
 [("step alternatives and ^\"kw\" terminals", G), ("dispatch on Rule", "src/dockerfile_parser.rs TryFrom<Pair> for Instruction")],
 ["Instruction variant"])

prop("C06", "FROM: flags, image and alias are recovered exactly",
 "A FROM instruction reports its --name=value flags in order, the image text exactly as written, the image parsed from that very text, and the alias following AS (any letter case) when one is written, otherwise none. Which texts are accepted as FROM arguments, and where the image and alias begin and end, follow the documented syntax.",
 ["inputs"], "every FROM line",
 "Tests cover a dozen FROM lines; order of several flags, alias boundaries, image alphabets and continuations are sampled once at most.",
 ["src/instructions/from.rs", G], [("FromInstruction::from_record", "src/instructions/from.rs"), ("FromFlag::from_record", "src/instructions/from.rs"), ("from, from_flag, from_image, from_alias rules", G)],
 ["FromInstruction"])
prop("C07", "ARG: name and optional value are recovered exactly",
 "An ARG instruction reports the declared name and, when '=' follows, the value: the text up to the next whitespace, or the unescaped content of a quoted string. Without '=' there is no value, and a name always starts with a letter followed by letters, digits or underscores.",
 ["inputs"], "every ARG line", "Tests cover a few names and values; alphabets, '=' inside values, empty and escaped quotes are not enumerated.",
 ["src/instructions/arg.rs", G], [("ArgInstruction::from_record", "src/instructions/arg.rs"), ("arg rules", G)], ["ArgInstruction"])
prop("C08", "LABEL: all name/value pairs are recovered in order",
 "A LABEL instruction reports its name=value pairs in order, or the single pair of the space-separated form, each name and value being the text as written or, when quoted, the unescaped content with escaped line breaks removed. No pair is lost, merged or swapped, including pairs on continuation lines separated by comments.",
 ["inputs"], "every LABEL line", "Tests cover ten layouts; mixing quoted and bare names/values, separators and many pairs is combinatorial.",
 ["src/instructions/label.rs", G, "src/util.rs"], [("Label::from_record / LabelInstruction::from_record", "src/instructions/label.rs"), ("label rules", G), ("clean_escaped_breaks", "src/util.rs")], ["LabelInstruction"])
prop("C09", "ENV: all key/value pairs are recovered in order",
 "An ENV instruction reports its key=value pairs in order, or the single pair of the space-separated form, each key as written and each value as a string holding the text as written or the unescaped content of a quoted value. No pair is lost, merged or swapped, including pairs on continuation lines separated by comments.",
 ["inputs"], "every ENV line", "Tests cover a dozen layouts; the single/pairs ambiguity, key alphabets and mixed quoting are combinatorial.",
 ["src/instructions/env.rs", G], [("parse_env_pair, from_single_record, from_pairs_record", "src/instructions/env.rs"), ("env rules", G)], ["EnvInstruction"])
prop("C10", "RUN, CMD and ENTRYPOINT: exec and shell forms are told apart and kept",
 "For RUN, CMD and ENTRYPOINT alike, arguments that form a bracketed array of quoted strings are reported in exec form with the unescaped elements in order, and any other arguments in shell form with the text preserved. The three instructions treat identical argument text identically.",
 ["inputs"], "every RUN, CMD and ENTRYPOINT line", "Tests cover a few arrays and shell lines per instruction; element counts, inner whitespace, comments and continuations are combinatorial and the siblings are not compared.",
 ["src/instructions/run.rs", "src/instructions/cmd.rs", "src/instructions/entrypoint.rs", "src/util.rs", G], [("from_record of the three siblings", "src/instructions/{run,cmd,entrypoint}.rs"), ("parse_string_array / parse_any_breakable", "src/util.rs"), ("string_array, any_breakable rules", G)], ["RunInstruction.expr", "CmdInstruction.expr", "EntrypointInstruction.expr"])
prop("C11", "COPY: flags, sources and destination are recovered exactly",
 "A COPY instruction reports its leading --name=value flags in order, the last path as the destination and all earlier paths, in order, as the sources. There is always at least one source.",
 ["inputs"], "every COPY line", "Tests cover a few COPY lines; more than two paths with flags, continuations and comments are sampled once.",
 ["src/instructions/copy.rs", G], [("CopyInstruction::from_record", "src/instructions/copy.rs"), ("copy rules", G)], ["CopyInstruction"])
prop("C12", "Other instructions keep their word and their complete arguments",
 "An instruction the library does not model is reported with its leading word exactly as written and its argument text complete, from directly after the word to the end of its last continued line.",
 ["inputs"], "every line with an unmodelled or malformed instruction", "A single misc test exists.",
 ["src/instructions/misc.rs", G], [("MiscInstruction::from_record", "src/instructions/misc.rs"), ("misc rules", G)], ["MiscInstruction"])

prop("C13", "Every reported span is the byte range of the text it describes",
 "Every span in a parse result is the byte range, in the original text, of exactly the construct it is attached to: an instruction's span covers the instruction from keyword to last argument, a pair's span covers name and value, and a string's span covers the token (including quotes). Slicing the source with a bare token's span gives its content back.",
 ["inputs"], "every accepted document", "Tests pin the spans of a few dozen tokens at fixed offsets; a span taken from the wrong token or shifted only in some alternative goes unnoticed.",
 ["src/splicer.rs", "src/util.rs", "src/instructions/*.rs"], [("Span::from_pair / From<&Pair>", "src/splicer.rs"), ("span fields filled from the record or field pair", "src/instructions/*.rs"), ("single ENV pair span built from key start and value end", "src/instructions/env.rs")], ["all public span fields"])
prop("C14", "Token contents are verbatim, or unescaped exactly once when quoted",
 "The content reported for an unquoted token is the source text of that token, byte for byte. The content of a quoted token is the text between its quotes with escape sequences replaced exactly once; no other trimming, case folding, substitution or truncation happens.",
 ["inputs"], "every accepted token", "Tests use a few plain and escaped values; an extra trim or a second unescape only shows on values with spaces, escapes or mixed case.",
 ["src/util.rs", "src/instructions/label.rs", "src/instructions/env.rs"], [("parse_string", "src/util.rs"), ("unquote call sites", "src/instructions/label.rs, src/instructions/env.rs"), ("clean_escaped_breaks", "src/util.rs")], ["SpannedString.content"])
prop("C15", "Line continuations, comments and blank lines between arguments do not matter",
 "Wherever whitespace may separate two arguments of an instruction, a backslash line continuation, followed by any number of comment lines and blank lines, may stand as well, with LF or CRLF line ends, and the arguments reported are the same as with a single space. No comment is ever reported as an argument or makes the instruction fail.",
 ["inputs"], "every separator text between any two arguments of every instruction", "Tests use continuations in a few places for some instructions; comments directly after the keyword or between flags are not tried everywhere.",
 [G, "src/instructions/*.rs", "src/util.rs"], [("arg_ws, arg_ws_maybe, line_continuation, comment_line, empty_line rules", G), ("Rule::comment arms", "src/instructions/*.rs")], ["instruction fields"])
prop("C16", "Multi-line shell text keeps its pieces and displays as one line",
 "A multi-line shell string is reported as its text pieces and its comments in source order, each verbatim with its own span, excluding only the continuation markers and line breaks between them. Displaying it yields the concatenation of the text pieces only, in order, and values built through the public builder behave the same way.",
 ["inputs"], "every multi-line shell text and every builder call sequence", "Tests cover three or four multi-line strings.",
 ["src/util.rs", G], [("parse_any_breakable_inner", "src/util.rs"), ("Display for BreakableString", "src/util.rs"), ("any_breakable, any_content rules", G), ("BreakableString::new/add/add_string/add_comment/From", "src/util.rs")], ["BreakableString.components", "BreakableString Display"])
prop("C17", "Failures are reported, never swallowed or turned into partial results",
 "When any instruction, string or digest in the text is rejected, parsing as a whole returns an Error; a Dockerfile is returned only if every instruction was converted. Syntax failures, unescape failures, read failures and failed conversions are reported through their own Error variants with the underlying cause attached.",
 ["inputs", "fault_sequences"], "every rejected input and every reader failure", "Tests check that two or three malformed inputs fail, not how, and never exercise reader or unescape failures.",
 ["src/error.rs", "src/dockerfile_parser.rs", "src/util.rs", "src/instructions/*.rs"], [("? on every fallible visitor call", "src/**"), ("snafu context selectors", "src/error.rs")], ["Error variants"])
prop("C18", "Image digests are validated: sha256 and exactly 64 hex digits",
 "A FROM whose image carries an '@' digest is accepted exactly when the digest is 'sha256:' followed by exactly 64 hexadecimal digits; any other digest makes parsing fail. An image without a digest is never rejected for this reason.",
 ["inputs"], "every FROM image text", "Tests try one valid and two invalid digests.",
 ["src/instructions/from.rs"], [("digest check", "src/instructions/from.rs from_record"), ("HEX pattern", "src/instructions/from.rs")], ["Dockerfile::parse result for digest images"])

prop("C19", "Displaying a parsed image reference gives back the original text",
 "For every string, parsing it as an image reference and displaying the result yields exactly that string again. Nothing is lost, added or normalised.",
 ["inputs"], "every string", "Tests display a handful of image strings.",
 ["src/image.rs"], [("ImageRef::parse", "src/image.rs"), ("Display for ImageRef", "src/image.rs")], ["ImageRef Display"])
prop("C20", "Image references split into registry, name, tag and digest by Docker's rules",
 "The part before the first slash is the registry exactly when it contains a dot or a colon or is 'localhost'; otherwise there is no registry and the whole text is name plus tag or digest. After the registry, everything from the first '@' is the digest with no tag reported; otherwise everything after the first ':' is the tag.",
 ["inputs"], "every string", "Tests try about ten image strings.",
 ["src/image.rs"], [("ImageRef::parse", "src/image.rs"), ("is_registry", "src/image.rs")], ["ImageRef fields"])
prop("C21", "Variable substitution replaces every reference, once, to a bounded depth",
 "Substitution replaces every $NAME and ${NAME} reference in the text by the recursively substituted value of that variable, leaves all other text unchanged, and records exactly the names of the variables it used on success. It gives None exactly when a referenced variable is unknown at some level or when a reference remains at the depth limit, and text without references is returned unchanged at any depth, so self-referential variables cannot make it run forever.",
 ["inputs"], "every text, variable map and depth", "Tests try a few templates and one depth limit.",
 ["src/image.rs", "src/splicer.rs"], [("substitute", "src/image.rs"), ("VAR pattern", "src/image.rs"), ("Splicer::splice", "src/splicer.rs")], ["substitute", "ImageRef::resolve_vars"])
prop("C22", "Resolving an image uses exactly the global ARGs that have values",
 "Resolving an image reference against a Dockerfile substitutes into its full text using exactly the global ARGs that have a value, the last definition of a name winning, and parses the resulting text as the new image reference. The plain and the context-reporting variants agree: both fail or both give the same image, and the latter also gives the set of used variables.",
 ["inputs"], "every image reference and Dockerfile", "Tests resolve a few references.",
 ["src/image.rs"], [("resolve_vars_with_context", "src/image.rs"), ("resolve_vars", "src/image.rs")], ["ImageRef::resolve_vars", "ImageRef::resolve_vars_with_context"])

prop("C23", "Stages partition the instructions from the first FROM on",
 "Splitting into stages gives one stage per FROM, numbered from 0 in order; each stage holds its FROM followed by all instructions up to the next FROM, in order, and instructions before the first FROM belong to no stage. A stage's name is its FROM alias in lower case, or none when there is no alias.",
 ["inputs"], "every Dockerfile value", "Tests split three documents.",
 ["src/stage.rs", "src/dockerfile_parser.rs"], [("Stages::new", "src/stage.rs"), ("Dockerfile::stages / iter_stages", "src/dockerfile_parser.rs")], ["Stages.stages"])
prop("C24", "A stage's parent and root follow its FROM image",
 "A stage whose image text is 'scratch' in any letter case has the scratch parent; one whose image text equals, ignoring case, the alias of an earlier stage has that stage (the first such) as parent; every other stage has its image as parent. A stage's root is its parent stage's root, or its own parent when that is not a stage, so a root is never a stage.",
 ["inputs"], "every Dockerfile value", "Tests cover one alias chain.",
 ["src/stage.rs"], [("Stages::new", "src/stage.rs")], ["Stage.parent", "Stage.root"])
prop("C25", "Stage lookup is by index for numbers and by name, ignoring case, otherwise",
 "Looking a stage up by a string that is a valid unsigned integer returns the stage with that index or nothing, never a stage of that name; any other string returns the first stage whose name equals it ignoring ASCII case, or nothing. Indexing and iterating the collection give the same stages in the same order.",
 ["inputs"], "every stage list and lookup string", "Tests look up a few names and indexes.",
 ["src/stage.rs"], [("Stages::get / get_by_name / iter / Index / IntoIterator", "src/stage.rs")], ["Stages::get", "Stages::get_by_name", "Stages::index", "Stages::iter"])
prop("C26", "ARG lookup in a stage returns the first matching ARG's position",
 "Asking a stage for the position of an ARG by name returns the position, within the stage's instruction list, of the first ARG instruction whose name is exactly that name, and nothing when there is none.",
 ["inputs"], "every stage and name", "Tests check one stage.",
 ["src/stage.rs"], [("Stage::arg_index", "src/stage.rs")], ["Stage::arg_index"])
prop("C27", "Stages compare and order by their index alone",
 "Two stages are equal exactly when their indexes are equal, and comparing stages gives the same result as comparing their indexes, consistently across equality, partial and total ordering.",
 ["inputs"], "every pair of stages", "No test compares stages for order.",
 ["src/stage.rs"], [("Ord, PartialOrd, PartialEq for Stage", "src/stage.rs")], ["Stage cmp / partial_cmp / eq"])
prop("C28", "Splicing replaces exactly the span, across any history of splices",
 "Replacing a span puts the replacement exactly where the span's text was and leaves every other byte alone. After any sequence of replacements, a further span of the original document is first moved by the length changes of all earlier replacements positioned before it and stretched or shrunk by those starting inside it, so disjoint non-empty spans may each be replaced once in any order.",
 ["inputs", "histories"], "every document, every sequence of splices of disjoint or nested spans", "Tests splice two or three spans in one order.",
 ["src/splicer.rs"], [("Splicer::splice", "src/splicer.rs"), ("Span::adjust_offsets", "src/splicer.rs")], ["Splicer.content"],
 [{"name": "splice_offsets", "meaning": "position and length change of every earlier splice", "where": "src/splicer.rs"}])
prop("C29", "Line-relative spans count lines before the span and keep its length",
 "The line-relative form of a span reports the number of newline characters before the span's start and the span's start relative to the beginning of that line, and its length is the length of the original span.",
 ["inputs"], "every span inside every document", "Tests check a couple of spans.",
 ["src/splicer.rs"], [("Span::relative_span", "src/splicer.rs")], ["Span::relative_span"])
prop("C30", "Accessors and conversions between instruction types agree",
 "For every instruction, exactly one borrowing accessor and one consuming accessor give a value, both for its own type and with the same content; conversion by reference succeeds for exactly that type and otherwise fails with a conversion error naming the requested type; building an instruction from the typed value gives it back. The same holds for shell and exec forms, and an instruction's span is the span of the typed value.",
 ["inputs"], "every instruction value and every accessor", "Tests call a few accessors on the matching type only.",
 ["src/dockerfile_parser.rs", "src/instructions/*.rs", "src/util.rs"], [("as_*/into_*, span, From impls", "src/dockerfile_parser.rs"), ("TryFrom<&Instruction> impls", "src/instructions/*.rs"), ("ShellOrExecExpr accessors", "src/util.rs")], ["Instruction::as_*", "Instruction::into_*", "TryFrom", "Instruction::span"])
prop("C31", "All ways of parsing agree and keep the original text",
 "Parsing a string, parsing via str::parse, and reading the same bytes from a reader give the same result, and the result keeps the complete original text unchanged. A reader that fails or delivers invalid UTF-8 gives a read error.",
 ["inputs", "fault_sequences"], "every text and every reader", "One doc test compares the three on one document.",
 ["src/dockerfile_parser.rs"], [("Dockerfile::parse, from_reader, FromStr", "src/dockerfile_parser.rs")], ["Dockerfile::parse", "Dockerfile::from_reader", "Dockerfile.content"])
prop("C32", "The library is deterministic, free of side effects and thread-safe",
 "Results depend only on the arguments: no call reads or writes files, environment, clock, randomness, network, process state or mutable global state, and nothing is printed. All public result types can be sent to and shared between threads.",
 ["inputs", "schedules", "histories"], "every call sequence from any number of threads", "Tests run each call once on one thread.",
 ["src/**"], [("lazy_static patterns are the only statics", "src/instructions/from.rs, src/image.rs"), ("forbid(unsafe_code)", "src/lib.rs")], ["whole public API"])
prop("C33", "No source text is silently skipped",
 "Every character of an accepted document is a keyword, fixed punctuation, part of a reported token, a comment, or layout (spaces, tabs, line ends, continuation backslashes). In particular no argument text of an instruction is ever dropped from the result, and text that cannot be attributed makes parsing fail or yields a miscellaneous instruction that reports it.",
 ["inputs"], "every accepted document", "Tests compare expected values of a few documents and cannot show that nothing else was consumed.",
 [G, "src/instructions/*.rs", "src/util.rs"], [("silent rules and literals in the grammar", G), ("visitor arms that ignore a child", "src/instructions/*.rs")], ["Dockerfile.instructions", "Dockerfile.content"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
