// Broad lists of expressions, shared by the value properties: every border of
// the types, many lengths, and every kind of item.
pub fn strs(v: &[String]) -> Vec<&str> { v.iter().map(|s| s.as_str()).collect() }

/// String literals.
pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "  ", "\t", "\n", "\r", "\u{a0}", "\u{3000}", " a", "a ", " a b ", "a  b", "\ta\n", "a\nb", "a", "A", "b", "B", "z", "Z", "ab", "aB", "AB", "ba", "abc", "abcd", "aaa", "aba", "abab", "a-b", "a.b", "a,b", "a b",
        "\u{e9}", "e\u{301}", "\u{e9}a", "a\u{e9}", "\u{df}", "SS", "ss", "\u{130}", "\u{131}", "\u{3a3}", "\u{3b1}\u{3a3}", "\u{3c3}", "\u{3c2}", "\u{fb01}", "\u{1c5}", "\u{1d49c}", "a\u{1d49c}", "\u{1d49c}b", "\u{10400}", "\u{10428}", "\u{10ffff}", "\u{fffd}", "\u{ff21}", "\u{d7ff}", "\u{e000}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}",
        "''", "a''b", "\"", "a\"b", "&", "<", ">", "&amp;", "(:", ":)", "(: :)", "{", "}", "[", "]", "$x", "\\", "\\n", "%", "#", "@", "?", "*", "/", "//", "|", "()",
        "0", "1", "-1", "+1", " 1 ", "\t1\n", "01", "10", "9", "2", "-0", "+0", "0.0", "1.0", "1.5", "-1.5", ".5", "5.", ".", "-", "+", "1e0", "1E0", "1e2", "1e-2", "1e+2", "e1", "1e", "--1", "1-", "1 2", "1_0", "1,0", "0x1", "1f", "1d", "\u{661}", "\u{ff11}", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e308", "1e309", "-1e309", "1e-400", "0.1", "0.10",
        "true", "false", "True", "TRUE", "FALSE", " true ", "true ", "yes", "no", "t", "f", "truefalse", "null", "NaN", "nan", "INF", "-INF", "+INF", "inf", "NaN ", "en", "EN", "en-US", "k", "p:k"].iter().map(|s| format!("'{}'", s)).collect();
    for n in [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
        v.push(format!("'{}'", "a".repeat(n)));
        v.push(format!("'{}'", (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect::<String>()));
        if n < 70 { v.push(format!("'{}'", (0..n).map(|i| ['\u{e9}', 'x', '\u{1d49c}', '\u{3b1}', 'Y'][i % 5]).collect::<String>())); }
    }
    v
}
/// Numeric expressions.
pub fn numbers() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in [0i64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1001, 1023, 1024, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 16777216, 16777217, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 999999999999, 1000000000000,
        4503599627370496, 9007199254740991, 9007199254740992, 9007199254740993, 1000000000000000000, 4611686018427387904, 9223372036854775806, 9223372036854775807] { v.push(i.to_string()); if i != 0 { v.push(format!("(-{})", i)); } }
    v.push("(-9223372036854775807 - 1)".into());
    let fr = ["0.0", "0.1", "0.2", "0.25", "0.3", "0.4", "0.49", "0.5", "0.51", "0.6", "0.75", "0.9", "0.99", "0.999999", "0.001", "0.000001", "1.0", "1.1", "1.25", "1.49", "1.5", "1.51", "1.75", "1.9", "1.99", "2.0", "2.5", "3.0", "3.5", "4.5", "9.5", "10.0", "10.5", "31.5", "32.5", "63.5", "64.5", "99.5", "99.99", "100.0", "127.5", "128.5", "255.5", "256.5", "999.5", "1000.5", "1000000.5", "123456789.125", "2147483647.5", "4294967295.5", "4503599627370495.5", "9007199254740993.0", "9223372036854775807.0", "9223372036854775808.0", "0.49999999999999994"];
    for f in fr.iter() { for s in ["", "-"] { if s == "-" { v.push(format!("(-{})", f)); v.push(format!("(-{}e0)", f)); } else { v.push(f.to_string()); v.push(format!("{}e0", f)); } } }
    for f in ["1e1", "1e2", "1e5", "1e7", "1e9", "1e15", "1e16", "1e17", "1e18", "1e19", "1e20", "1e21", "1e22", "1e100", "1e307", "1e308", "1.7976931348623157e308", "1e-1", "1e-5", "1e-7", "1e-10", "1e-100", "1e-307", "1e-308", "1e-320", "5e-324", "2.5e-1", "1.5e1", "12.5e1"] { v.push(f.to_string()); v.push(format!("(-{})", f)); }
    v.extend(["(0e0 div 0e0)", "(1 div 0e0)", "(-1 div 0e0)"].iter().map(|s| s.to_string()));
    v
}
/// One of every kind of value that is not a plain string or number.
pub const THINGS: [&str; 46] = ["()", "true()", "false()", "a[1]", "a[2]", "a", "b", "c", "d", "@k", "a/@k", "a[1]/text()", ".", "(/)", "//a", "//node()", "//@*", "nosuch", "(1, 2)", "(1, 'a')", "('a', 1)", "('a', 'b')", "(a, 1)", "(1, a)", "(a[1], a[1])", "(1.5, 2e0)", "((), 1)", "(true(), false())", "('', '')", "(1 to 9)", "reverse(1 to 33)",
    "map{}", "map{1: 'a'}", "map{'a': (1, 2)}", "[]", "[1]", "[1, 'a']", "[()]", "[(1, 2)]", "[[1], [2]]", "(map{}, map{})", "([1], [2])", "abs#1", "concat(?, 'a')", "function($x) {$x}", "(abs#1, 1)"];

/// Sequences of many lengths.
pub fn long_seqs() -> Vec<String> {
    let mut v = vec![];
    for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 24, 25, 31, 32, 33, 34, 40, 48, 50, 51, 63, 64, 65, 66, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 300] {
        v.push(format!("(1 to {})", n));
        if n > 1 && n < 140 { v.push(format!("reverse(1 to {})", n)); }
    }
    for n in [9, 10, 17, 33, 65, 129] {
        v.push(format!("((1 to {}) ! (. mod 5))", n));
        v.push(format!("((1 to {}) ! string(.))", n));
        v.push(format!("((1 to {}) ! (. div 4))", n));
        v.push(format!("(((1 to {}) ! (. * 1e0)), 'z')", n));
        v.push(format!("(1 to {}, 'a', //a, 1 to 3)", n));
        v.push(format!("((1 to {}) ! 7)", n));
        v.push(format!("((1 to {}) ! (. - 5), 2.5)", n));
    }
    for n in [8, 16, 32, 64] { v.push(format!("({})", (0..n).map(|i| ["1", "'a'", "a", "true()", "2.5", "@k", "1e0"][i % 7]).collect::<Vec<_>>().join(", "))); }
    v
}
/// Long sequences with one odd item at the start, on the way or at the end.
pub fn odd_long() -> Vec<String> {
    let mut v = vec![];
    for n in [7usize, 15, 16, 31, 32, 63, 64, 99, 100, 128, 255, 256] {
        for s in ["number('x')", "-0e0", "1 div 0e0", "''", "'a'", "true()", "false()", "map{1: 2}", "[1, 2]", "@k", "a[1]", "a", ".", "abs#1", "9223372036854775807", "1.0", "5e0", "2.5"] {
            for at in [0, n / 2, n - 1, n] {
                let mut p = vec![];
                if at > 0 { p.push(format!("1 to {}", at)); }
                p.push(s.to_string());
                if at < n { p.push(format!("{} to {}", at + 1, n)); }
                v.push(format!("({})", p.join(", ")));
            }
        }
    }
    v
}
/// Documents whose parts look alike but are not the same, ways to list them, and what tells them apart.
pub const ALIKE: [&str; 2] = ["<r><a/><a><b/></a><a k=\"1\"/><a k=\"1\">x</a><a><b>y</b></a><a/><c><a/><a><b/></a></c>t<d/>t</r>", "<r><a k=\"1\"><b/></a><a k=\"1\"/><a k=\"1\"><b/><b/></a><!--x--><!--x--><?p x?><?p x?>x<a>x</a>x</r>"];
pub const ALIKE_SEQ: [&str; 13] = ["a", "//a", "(a, a)", "reverse(a)", "(a[2], a[1], a[2])", "node()", "//node()", "(.//text(), .//a)", "a/@k", "(a ! string(.))", "(a[1], //a[last()])", "(1, a, 1)", "a/.."];
pub const ALIKE_BODY: [&str; 21] = ["$x/b", "count($x/b)", "$x/following-sibling::node()[1]", "count($x/preceding-sibling::*)", "string($x)", "$x/@k", "$x", "$x/..", "$x is $r/a[2]", "count($r//a[. << $x])", "()", "$x[b]", "$x/self::a", "if ($x/b) then 1 else ()", "name($x)", "($x/b, $x/@k)", "$x | $r/a[1]", "exists($x/b)", "$x[self::a][not(b)]", "$x/b/..", "$x = 'x'"];

/// Everything, thinned out to about n values.
pub fn values(n: usize) -> Vec<String> {
    let (s, m, l) = (strings(), numbers(), long_seqs());
    let mut v: Vec<String> = THINGS.iter().map(|s| s.to_string()).collect();
    if n < 60 { v = v.into_iter().step_by(if n < 30 { 3 } else { 2 }).collect(); }
    let rest = n.saturating_sub(v.len()).max(3);
    let take = |x: &[String], k: usize| -> Vec<String> { let k = k.max(1).min(x.len()); (0..k).map(|i| x[i * x.len() / k].clone()).collect() };
    v.extend(take(&s, rest * 2 / 5));
    v.extend(take(&m, rest * 2 / 5));
    v.extend(take(&l, rest / 5));
    v
}
