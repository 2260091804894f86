package main

// yamlCorpus holds the YAML texts in the tests of gopkg.in/yaml.v3 v3.0.1 (MIT and Apache 2.0 licences).
var yamlCorpus = []string{
	"{}",
	"v: hi",
	"v: true",
	"v: 10",
	"v: 0b10",
	"v: 0xA",
	"v: 4294967296",
	"v: 0.1",
	"v: .1",
	"v: .Inf",
	"v: -.Inf",
	"v: -10",
	"v: -.1",
	"canonical: 6.8523e+5",
	"expo: 685.230_15e+03",
	"fixed: 685_230.15",
	"neginf: -.inf",
	"canonical: true",
	"canonical: false",
	"bool: True",
	"bool: False",
	"bool: TRUE",
	"bool: FALSE",
	"option: on",
	"option: y",
	"option: Off",
	"option: No",
	"option: other",
	"canonical: 685230",
	"decimal: +685_230",
	"octal: 02472256",
	"octal: -02472256",
	"octal: 0o2472256",
	"octal: -0o2472256",
	"hexa: 0x_0A_74_AE",
	"bin: 0b1010_0111_0100_1010_1110",
	"bin: -0b101010",
	"bin: -0b1000000000000000000000000000000000000000000000000000000000000000",
	"empty:",
	"canonical: ~",
	"english: null",
	"~: null key",
	"seq: [A,B]",
	"seq: [A,B,C,]",
	"seq: [A,1,C]",
	"seq:\n - A\n - B",
	"seq:\n - A\n - B\n - C",
	"seq:\n - A\n - 1\n - C",
	"scalar: | # Comment\n\n literal\n\n \ttext\n\n",
	"\nliteral\n\n\ttext\n",
	"scalar: > # Comment\n\n folded\n line\n \n next\n line\n  * one\n  * two\n\n last\n line\n\n",
	"\nfolded line\nnext line\n * one\n * two\n\nlast line\n",
	"a: {b: c}",
	"a: {b: c, 1: d}",
	"hello: world",
	"a: 'null'",
	"a:",
	"a: 1",
	"a: 1.0",
	"a: [1, 2]",
	"a: YES",
	"v: 42",
	"v: -42",
	"v: -4294967296",
	"int_max: 2147483647",
	"int_min: -2147483648",
	"int_overflow: 9223372036854775808",
	"int64_max: 9223372036854775807",
	"int64_max_base2: 0b111111111111111111111111111111111111111111111111111111111111111",
	"int64_min: -9223372036854775808",
	"int64_neg_base2: -0b111111111111111111111111111111111111111111111111111111111111111",
	"int64_overflow: 9223372036854775808",
	"uint_min: 0",
	"uint_max: 4294967295",
	"uint_underflow: -1",
	"uint64_min: 0",
	"uint64_max: 18446744073709551615",
	"uint64_max_base2: 0b1111111111111111111111111111111111111111111111111111111111111111",
	"uint64_maxint64: 9223372036854775807",
	"uint64_underflow: -1",
	"float32_max: 3.40282346638528859811704183484516925440e+38",
	"float32_nonzero: 1.401298464324817070923729583289916131280e-45",
	"float32_maxuint64: 18446744073709551615",
	"float32_maxuint64+1: 18446744073709551616",
	"float64_max: 1.797693134862315708145274237317043567981e+308",
	"float64_nonzero: 4.940656458412465441765687928682213723651e-324",
	"float64_maxuint64: 18446744073709551615",
	"float64_maxuint64+1: 18446744073709551616",
	"v: 4294967297",
	"v: 128",
	"'1': '\"2\"'",
	"\"2\"",
	"v:\n- A\n- 'B\n\n  C'\n",
	"B\nC",
	"v: !!float '1.1'",
	"v: !!float 0",
	"v: !!float -1",
	"v: !!null ''",
	"%TAG !y! tag:yaml.org,2002:\n---\nv: !y!int '1'",
	"v: ! test",
	"a: &x 1\nb: &y 2\nc: *x\nd: *y\n",
	"a: &a {c: 1}\nb: *a",
	"a: &a [1, 2]\nb: *a",
	"foo: ''",
	"foo: null",
	"foo: ~",
	"a: 1\nb: 2\n",
	"%YAML 1.1\n--- !!str\n\"Generic line break (no glyph)\\n\\\n Generic line break (glyphed)\\n\\\n Line separator\\u2028\\\n Paragraph separator\\u2029\"\n",
	"Generic line break (no glyph)\nGeneric line break (glyphed)\nLine separator\u2028Paragraph separator\u2029",
	"a: 1\nb: 2\nc: 3\n",
	"a: 1\n",
	"a: 1\nc: 3\nd: 4\n",
	"a: -b_c",
	"-b_c",
	"a: +b_c",
	"a: 50cent_of_dollar",
	"a: {b: https://github.com/go-yaml/yaml}",
	"https://github.com/go-yaml/yaml",
	"a: [https://github.com/go-yaml/yaml]",
	"a: 3s",
	"a: <foo>",
	"<foo>",
	"a: 1:1\n",
	"1:1",
	"a: !!binary gIGC\n",
	"a: !!binary |\n  ",
	"kJ\n  CQ\n",
	"\n  ==\n",
	"a:\n b:\n  c: d\n",
	"a: 1.2.3.4\n",
	"a: 2015-02-24T18:19:39Z\n",
	"2015-02-24T18:19:39Z",
	"a: 2015-01-01\n",
	"a: 2015-02-24T18:19:39.12Z\n",
	"a: 2015-2-3T3:4:5Z",
	"a: 2015-02-24t18:19:39Z\n",
	"a: 2015-02-24 18:19:39\n",
	"a: !!str 2015-01-01",
	"2015-01-01",
	"a: !!timestamp \"2015-01-01\"",
	"a: !!timestamp 2015-01-01",
	"a: \"2015-01-01\"",
	"a: 2015-01-01",
	"a: []",
	"\xff\xfe\xf1\x00o\x00\xf1\x00o\x00:\x00 \x00v\x00e\x00r\x00y\x00 \x00y\x00e\x00s\x00\n\x00",
	"\xff\xfe\xf1\x00o\x00\xf1\x00o\x00:\x00 \x00v\x00e\x00r\x00y\x00 \x00y\x00e\x00s\x00 \x00=\xd8\xd4\xdf\n\x00",
	"\xfe\xff\x00\xf1\x00o\x00\xf1\x00o\x00:\x00 \x00v\x00e\x00r\x00y\x00 \x00y\x00e\x00s\x00\n",
	"\xfe\xff\x00\xf1\x00o\x00\xf1\x00o\x00:\x00 \x00v\x00e\x00r\x00y\x00 \x00y\x00e\x00s\x00 \xd8=\xdf\xd4\x00\n",
	"a: 123456e1\n",
	"a: 123456E1\n",
	"First occurrence: &anchor Foo\nSecond occurrence: *anchor\nOverride anchor: &anchor Bar\nReuse anchor: *anchor\n",
	"---\nhello\n...\n}not yaml",
	"true\n#",
	"true #",
	"a: b\r\nc:\r\n- d\r\n- e\r\n",
	"test %d: %q",
	"error: %v",
	"2015-02-24T18:19:39.123456789-03:00",
	"a: b",
	"---\na: b\n...\n",
	"---\n'hello'\n...\n---\ngoodbye\n...\n",
	"notanum: .NaN",
	"(?s).* line 1: cannot unmarshal !!int `123` into time.Duration",
	"v: !!float 'error'",
	"v: [A,",
	"v:\n- [A,",
	"a:\n- b: *,",
	"a: *b\n",
	"a: &a\n  b: *a\n",
	"value: -",
	"a: !!binary ==",
	"{[.]}",
	"{{.}}",
	"b: *a\na: &a {c: 1}",
	"%TAG !%79! tag:yaml.org,2002:\n---\nv: !%79!int '1'",
	"a:\n  1:\nb\n  2:",
	".*could not find expected ':'",
	"a: 1\nb: 2\nc 2\nd: 3\n",
	"^yaml: line 3: could not find expected ':'$",
	"#\n-\n{",
	"0: [:!00 \xef",
	"a: &a [00,00,00,00,00,00,00,00,00]\nb: &b [*a,*a,*a,*a,*a,*a,*a,*a,*a]\nc: &c [*b,*b,*b,*b,*b,*b,*b,*b,*b]\nd: &d [*c,*c,*c,*c,*c,*c,*c,*c,*c]\ne: &e [*d,*d,*d,*d,*d,*d,*d,*d,*d]\nf: &f [*e,*e,*e,*e,*e,*e,*e,*e,*e]\ng: &g [*f,*f,*f,*f,*f,*f,*f,*f,*f]\nh: &h [*g,*g,*g,*g,*g,*g,*g,*g,*g]\ni: &i [*h,*h,*h,*h,*h,*h,*h,*h,*h]\n",
	"Partial unmarshal: %#v",
	"_: {hi: there}",
	"!!map",
	"_: [1,A]",
	"!!seq",
	"_: 10",
	"!!int",
	"_: null",
	"!!null",
	"_: BAR!",
	"!!str",
	"BAR!",
	"_: \"BAR!\"",
	"_: !!foo 'BAR!'",
	"!!foo",
	"_: \"\"",
	"Pointer not initialized (%#v)",
	"_: a\ninlined: b\n",
	"value: %#v",
	"{before: A, m: {abc: 1, def: 2, ghi: 3, jkl: 4}, after: B}",
	"{before: A, m: {abc: a, def: b}, after: B}",
	"[1, 2, 3]",
	"\nanchors:\n  list:\n    - &CENTER { \"x\": 1, \"y\": 2 }\n    - &LEFT   { \"x\": 0, \"y\": 2 }\n    - &BIG    { \"r\": 10 }\n    - &SMALL  { \"r\": 1 }\n\n# All the following maps are equal:\n\nplain:\n  # Explicit keys\n  \"x\": 1\n  \"y\": 2\n  \"r\": 10\n  label: center/big\n\nmergeOne:\n  # Merge one map\n  << : *CENTER\n  \"r\": 10\n  label: center/big\n\nmergeMultiple:\n  # Merge multiple maps\n  << : [ *CENTER, *BIG ]\n  label: center/big\n\noverride:\n  # Override\n  << : [ *BIG, *LEFT, *SMALL ]\n  \"x\": 1\n  label: center/big\n\nshortTag:\n  # Explicit short merge tag\n  !!merge \"<<\" : [ *CENTER, *BIG ]\n  label: center/big\n\nlongTag:\n  # Explicit merge long tag\n  !<tag:yaml.org,2002:merge> \"<<\" : [ *CENTER, *BIG ]\n  label: center/big\n\ninlineMap:\n  # Inlined map \n  << : {\"x\": 1, \"y\": 2, \"r\": 10}\n  label: center/big\n\ninlineSequenceMap:\n  # Inlined map in sequence\n  << : [ *CENTER, {\"r\": 10} ]\n  label: center/big\n",
	"%v",
	"test %q failed",
	"\nmergeouter1: &mergeouter1\n    d: 40\n    e: 50\n\nmergeouter2: &mergeouter2\n    e: 5\n    f: 6\n    g: 70\n\nmergeinner1: &mergeinner1\n    <<: *mergeouter1\n    inner:\n        a: 1\n        b: 2\n\nmergeinner2: &mergeinner2\n    <<: *mergeouter2\n    inner:\n        a: -1\n        b: -2\n\nouter:\n    <<: [*mergeinner1, *mergeinner2]\n    f: 60\n    inner:\n        a: 10\n",
	"s2: null\ns3: null",
	"---",
	"b: 21\nc: 99",
	"a: [2]",
	"a: 1\nc: 2\n",
	"a: 1\nb: 2\na: 3\n",
	"c: 3\na: 1\nb: 2\nc: 4\n",
	"c: 0\na: 1\nb: 2\nc: 1\n",
	"c: 1\na: 1\nb: 2\nc: 3\n",
	"a: 1\n9: 2\nnull: 3\n9: 4",
	"\"\\0\\\r\n",
	"  0: [\n] 0",
	"? ? \"\n\" 0",
	"    - {\n000}0",
	"0:\n  0: [0\n] 0",
	"    - \"\n000\"0",
	"    - \"\n000\"\"",
	"0:\n    - {\n000}0",
	"0:\n    - \"\n000\"0",
	"0:\n    - \"\n000\"\"",
	" \ufeff\n",
	"? \ufeff\n",
	"? \ufeff:\n",
	"0: \ufeff\n",
	"? \ufeff: \ufeff\n",
	"null\n",
	"foo\n",
	"\"foo\"\n",
	"'foo'\n",
	"!!str 123\n",
	"!!binary gIGC\n",
	"!!binary",
	"\"123\"\n",
	"!tag:something 123\n",
	"!tag:something",
	"!tag:something {}\n",
	"!tag:something []\n",
	"''\n",
	"|\n  foo\n  bar\n",
	"foo\nbar\n",
	"true\n",
	"!!bool",
	"-10\n",
	"-10",
	"4294967296\n",
	"0.1000\n",
	"!!float",
	"-.inf\n",
	"-.inf",
	".nan\n",
	"{}\n",
	"a: b c\n",
	"a:\n  b: c\n  d: e\n",
	"a:\n  - b: c\n    d: e\n",
	"a: # AI\n  - b\nc:\n  - d\n",
	"# AI",
	"a:\n  # HM\n  - # HB1\n    # HB2\n    b: # IB\n      c # IC\n",
	"# HM",
	"# HB1\n# HB2",
	"# IB",
	"# IC",
	"a:\n  # HM\n  - # HB1\n    # HB2\n    b: c # IC\n",
	"a: | # IA\n  str\nb: >- # IB\n  str\nc: # IC\n  - str\nd: # ID\n  str:\n",
	"str\n",
	"# IA",
	"# ID",
	"a:\n# HM\n- # HB1\n  # HB2\n  b: # IB\n    c # IC\n",
	"- a\n- b\n",
	"- a\n- - b\n  - c\n",
	"[a, b]\n",
	"- a\n- [b, c]\n",
	"# One\n# Two\ntrue # Three\n# Four\n# Five\n",
	"# One\n# Two",
	"# Three",
	"# Four\n# Five",
	"# š\ntrue # š\n",
	"# š",
	"\n# One\n\n# Two\n\n# Three\ntrue # Four\n# Five\n\n# Six\n\n# Seven\n",
	"# One\n\n# Two",
	"# Six\n\n# Seven",
	"# Four",
	"# Five",
	"One\nTwo\n",
	"Three\n",
	"Four\nFive\n",
	"#   One\n#   Two\ntrue #   Three\n#   Four\n#   Five\n",
	"  One\n  Two",
	"  Four\n  Five",
	"# DH1\n\n# DH2\n\n# H1\n# H2\ntrue # I\n# F1\n# F2\n\n# DF1\n\n# DF2\n",
	"# DH1\n\n# DH2",
	"# DF1\n\n# DF2",
	"# H1\n# H2",
	"# I",
	"# F1\n# F2",
	"# DH1\n\n# DH2\n\n# HA1\n# HA2\nka: va # IA\n# FA1\n# FA2\n\n# HB1\n# HB2\nkb: vb # IB\n# FB1\n# FB2\n\n# DF1\n\n# DF2\n",
	"# HA1\n# HA2",
	"# FA1\n# FA2",
	"# FB1\n# FB2",
	"# DH1\n\n# DH2\n\n# HA1\n# HA2\n- la # IA\n# FA1\n# FA2\n\n# HB1\n# HB2\n- lb # IB\n# FB1\n# FB2\n\n# DF1\n\n# DF2\n",
	"# DH1\n\n- la # IA\n# HB1\n- lb\n",
	"# DH1",
	"# HB1",
	"- la # IA\n- lb # IB\n- lc # IC\n",
	"# DH1\n\n# HL1\n- - la\n  # HB1\n  - lb\n",
	"# HL1",
	"# DH1\n\n# HL1\n- # HA1\n  - la\n  # HB1\n  - lb\n",
	"# HA1",
	"# DH1\n\n# HL1\n- # HA1\n\n  - la\n  # HB1\n  - lb\n",
	"# HA1\n",
	"# DH1\n\n# HA1\nka:\n  # HB1\n  kb:\n    # HC1\n    # HC2\n    - lc # IC\n    # FC1\n    # FC2\n\n    # HD1\n    - ld # ID\n    # FD1\n\n# DF1\n",
	"# DF1",
	"# HC1\n# HC2",
	"# FC1\n# FC2",
	"# HD1",
	"# FD1",
	"# DH1\n\n# HA1\nka:\n  # HB1\n  kb:\n    # HC1\n    # HC2\n    - lc # IC\n    # FC1\n    # FC2\n\n    # HD1\n    - ld # ID\n    # FD1\nke: ve\n\n# DF1\n",
	"# DH1\n\n# DH2\n\n# HA1\n# HA2\nka:\n  # HB1\n  # HB2\n  kb:\n    # HC1\n    # HC2\n    kc:\n      # HD1\n      # HD2\n      kd: vd\n      # FD1\n      # FD2\n    # FC1\n    # FC2\n  # FB1\n  # FB2\n# FA1\n# FA2\n\n# HE1\n# HE2\nke: ve\n# FE1\n# FE2\n\n# DF1\n\n# DF2\n",
	"# HD1\n# HD2",
	"# FD1\n# FD2",
	"# HE1\n# HE2",
	"# FE1\n# FE2",
	"# DH1\n\n# DH2\n\n# HA1\n# HA2\nka:\n  # HB1\n  # HB2\n  kb:\n    # HC1\n    # HC2\n    kc:\n      # HD1\n      # HD2\n      kd: vd\n      # FD1\n      # FD2\n    # FC1\n    # FC2\n  # FB1\n  # FB2\n\n  # HE1\n  # HE2\n  ke: ve\n  # FE1\n  # FE2\n# FA1\n# FA2\n\n# DF1\n\n# DF2\n",
	"# HA1\nka:\n  # HB1\n  kb: vb\n  # FB1\n# FA1",
	"# FA1",
	"# FB1",
	"# HA1\nka:\n  # HB1\n  kb: vb\n  # FB1\n# FA1\n",
	"# HA1\nka:\n  # HB1\n  kb: vb\n# FA1\n",
	"# HA1\nka:\n  # HB1\n  kb: vb\n  # FB1\n# FA1\n\n",
	"# HA1\nka:\n# HB1\n\n  kb: vb\n# FA1\n",
	"# HB1\n",
	"ka:\n  kb: vb\n# FA1\n\nkc: vc\n",
	"ka:\n  kb: vb\n# HC1\nkc: vc\n",
	"# HC1",
	"ka:\n  kb: vb\n\n# HC1\nkc: vc\n",
	"ka:\n  kb: vb\n\n# HC1\n\nkc: vc\n",
	"# HC1\n",
	"ka: # IA\n  kb: # IB\n",
	"# HA1\nka:\n  # HB1\n  kb: vb\n  # FB1\n# HC1\n# HC2\nkc: vc\n# FC1\n# FC2\n",
	"# HA1\nka:\n  # HB1\n  kb: vb\n  # FB1\n\n# HC1\n# HC2\nkc: vc\n# FC1\n# FC2\n",
	"# H1\n[la, lb] # I\n# F1\n",
	"# H1",
	"# F1",
	"# DH1\n\n# SH1\n[\n  # HA1\n  la, # IA\n  # FA1\n\n  # HB1\n  lb, # IB\n  # FB1\n]\n# SF1\n\n# DF1\n",
	"# SH1",
	"# SF1",
	"# DH1\n\n# SH1\n[\n  # HA1\n  la, # IA\n  # FA1\n\n  # HB1\n  lb, # IB\n\n\n  # FB1\n\n# FB2\n]\n# SF1\n\n# DF1\n",
	"# FB1\n\n# FB2",
	"# DH1\n\n# SH1\n[\n  # HA1\n  la,\n  # FA1\n\n  # HB1\n  lb,\n  # FB1\n]\n# SF1\n\n# DF1\n",
	"ka:\n  kb: [\n    # HA1\n    la,\n    # FA1\n\n    # HB1\n    lb,\n    # FB1\n  ]\n",
	"# DH1\n\n# MH1\n{\n  # HA1\n  ka: va, # IA\n  # FA1\n\n  # HB1\n  kb: vb, # IB\n  # FB1\n}\n# MF1\n\n# DF1\n",
	"# MH1",
	"# MF1",
	"# DH1\n\n# MH1\n{\n  # HA1\n  ka: va,\n  # FA1\n\n  # HB1\n  kb: vb,\n  # FB1\n}\n# MF1\n\n# DF1\n",
	"# DH1\n\n# DH2\n\n# HA1\n# HA2\n- &x la # IA\n# FA1\n# FA2\n\n# HB1\n# HB2\n- *x # IB\n# FB1\n# FB2\n\n# DF1\n\n# DF2\n",
	"#",
	"  expected comments:\n%s",
	"  obtained comments:\n%s",
	"something simple\n",
	"\"quoted value\"",
	"'\"quoted value\"'\n",
	"multi\nline",
	"|-\n  multi\n  line\n",
	"multi\nline\n",
	"|\n  multi\n  line\n",
	"[1, 2]",
	"Encode/Decode test value #%d: %#v",
	"%s<%s> ",
	"\n",
	"%s<DOC> ",
	"%s<MAP> ",
	"%s<SEQ> ",
	"%q / %q / %q",
	"v: hi\n",
	"v: \"true\"\n",
	"v: \"false\"\n",
	"v: true\n",
	"v: false\n",
	"v: 10\n",
	"v: -10\n",
	"v: 42\n",
	"v: 4294967296\n",
	"v: \"10\"\n",
	"v: 0.1\n",
	"v: 0.99\n",
	"v: -0.1\n",
	"v: .inf\n",
	"v: -.inf\n",
	"v: .nan\n",
	"v: null\n",
	"v: \"\"\n",
	"v:\n    - A\n    - B\n",
	"v:\n    - A\n    - |-\n      B\n      C\n",
	"v:\n    - A\n    - 1\n    - B:\n        - 2\n        - 3\n",
	"a:\n    b: c\n",
	"-",
	"a: '-'\n",
	"123\n",
	"hello: world\n",
	"a: null\n",
	"a:\n    - 1\n    - 2\n",
	"a: true\n",
	"a: \"true\"\n",
	"a: \"off\"\n",
	"a: {x: 1}\n",
	"a: {x: 0}\n",
	"t2: 2018-01-09T10:40:47Z\nt4: 2098-01-09T10:40:47Z\n",
	"a: [1, 2]\n",
	"a: {b: c, d: e}\n",
	"b\nc",
	"a: \"b\\nc\"\n",
	"a: 3s\n",
	"a: <foo>\n",
	"a: \"1:1\"\n",
	"a: \"\\0\"\n",
	"a: !!binary |\n    ",
	"kJ\n    CQ\n",
	"a: 你好\n",
	"a: 2015-02-24T18:19:39.123456789-03:00\n",
	"a: \"2015-02-24T18:19:39Z\"\n",
	"b: c",
	"a: 'b: c'\n",
	"Hello #comment",
	"a: 'Hello #comment'\n",
	"你好 #comment",
	"a: '你好 #comment'\n",
	"a:\n    b:\n        - c: 1\n          d: 2\n",
	"\tB\n\tC\n",
	"a: |\n    \tB\n    \tC\n",
	"a: 'abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ 1234567890 abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ 1234567890 '\n",
	"value: 'foo'\n",
	"value: !!str foo\n",
	"value: !!map {}\n",
	"value: !!seq []\n",
	"test %d. %q",
	"a: b\n---\nc: d\n",
	"duplicated key 'b' in struct struct \\{ B int; .*",
	"cannot have key \"a\" in inlined map: conflicts with struct field",
	"b: 0\n",
	"_:\n    hi: there\n",
	"_:\n    - 1\n    - A\n",
	"_: 10\n",
	"_: null\n",
	"_: BAR!\n",
	"world!",
	"hello: world!\n",
	"a:\n        b:\n                c: d\n",
	"a!10",
	"a~10",
	"\"",
	":",
	"%#v is not in the output: %#v",
	"%#v was generated before %#v: %q",
}
