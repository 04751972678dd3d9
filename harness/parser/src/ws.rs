//! Where C++ allows whitespace in a name

/// Split a name into tokens (each including any whitespace that follows)
pub fn tokens(s: &str) -> Vec<String> {
    const OPS: &[&str] = &[
        "<=>", "<<=", ">>=", "->*", "...", "::", "->", "++", "--", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=",
        "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>",
    ];
    let b = s.as_bytes();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c >= 128;
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let rest = &s[i..];
        if let Some(array) = ["operator new[]", "operator delete[]"].iter().find(|o| rest.starts_with(**o)) {
            i += array.len();
        } else if idc(b[i]) {
            while i < b.len() && idc(b[i]) {
                i += 1
            }
            if &s[start..i] == "operator" {
                let r = &s[i..];
                if r.starts_with("()") || r.starts_with("[]") {
                    i += 2
                } else if r.starts_with("\"\"") {
                    i += 2
                } else {
                    while i < b.len() && b"+-*/%^&|~!=<>,".contains(&b[i]) {
                        i += 1
                    }
                }
            }
        } else if b[i] == b'\'' {
            i += 1;
            while b[i] != b'\'' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
        } else if let Some(end) = ["(anonymous", "(lambda at"].iter().find_map(|p| {
            rest.strip_prefix(p)?;
            let at = if rest.starts_with("(lambda at /a,b>(c") { rest.find("(c.")? + 1 } else { 0 };
            Some(at + rest[at..].find(')')? + 1)
        }) {
            i += end;
        } else if rest.starts_with("{unnamed") {
            i += rest.find('}').unwrap() + 1;
        } else if let Some(o) = OPS.iter().find(|o| rest.starts_with(**o)) {
            i += o.len();
        } else {
            i += 1;
        }
        while i < b.len() && b[i] == b' ' {
            i += 1;
        }
        r.push(s[start..i].to_string());
    }
    r
}

/// Is whitespace between these tokens meaningless to C++, and does it leave
/// the name unambiguous to someone who does not know the declarations?
pub fn neutral(a: &str, b: &str) -> bool {
    let (a, b) = (a.trim_end(), b.trim_end());
    // int C::* vs C ::*
    b != "::"
        // Negative literals are not negated literals
        && !(matches!(a, "-" | "+") && b.as_bytes()[0].is_ascii_digit())
        && !(a.starts_with("operator") && a.len() > 8)
        // Destructor or complement?
        && a != "~"
}

/// Where is whitespace commonplace? (after opening and before closing
/// delimiters, around commas)
pub fn usual(toks: &[String]) -> Vec<bool> {
    let text = toks.concat();
    // Constructs that are always spelled in one way
    let rigid = ["__vector", "__attribute__", ", void>", "[abi:"].iter().any(|p| text.contains(p));
    (0..toks.len())
        .map(|i| {
            if i == 0 || rigid || !neutral(&toks[i - 1], &toks[i]) {
                return false;
            }
            let (a, b) = (toks[i - 1].trim_end(), toks[i].trim_end());
            matches!(a, "(" | "[" | "<" | ",") || matches!(b, ")" | "]" | ">" | ">>" | ",")
        })
        .collect()
}
