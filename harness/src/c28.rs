//! C28: declarations that make no proper message are rejected, proper ones are not.
//!
//! The macro itself (the sources of steit-derive, as a library) is executed on declarations whose numbers, names and
//! parts are symbolic.
use crate::{macros::*, sym::*};
use proc_macro2::{TokenStream, TokenTree};

const MAX: u64 = 0x1fff_ffff;

fn rejected(tokens: TokenStream) -> bool {
    tokens.into_iter().any(|token| match token {
        TokenTree::Ident(ident) => ident == "compile_error",
        TokenTree::Group(group) => rejected(group.stream()),
        _ => false,
    })
}

/// Whether the declaration is refused.
fn refuses(args: &str, input: &[&str]) -> bool {
    rejected(expand(args, input))
}

fn expect(refused: bool, right: bool, code: u32) {
    check(refused == right, code);
    cover(1 + refused as u32);
    observe(refused as u64);
}

/// A decimal number of `n` digits, as text and as a value.
fn number(n: u32) -> (String, u64) {
    let (mut s, mut v) = (Vec::new(), 0u64);
    for _ in 0..n {
        let d = u8_() % 10;
        s.push(b'0' + d);
        v = v * 10 + u64::from(d);
    }
    (text(s), v)
}

/// A hexadecimal number of `n` digits.
fn hex(n: u32) -> (String, u64) {
    let (mut s, mut v) = (b"0x".to_vec(), 0u64);
    for _ in 0..n {
        let d = u8_() % 16;
        s.push(if d < 10 { b'0' + d } else { b'a' - 10 + d });
        v = v * 16 + u64::from(d);
    }
    (text(s), v)
}

/// A number in one of the ways an integer can be written.
fn written() -> (String, u64) {
    match choose(5) {
        0 => number(1),
        1 => number(2),
        2 => hex(1),
        3 => {
            let (s, v) = number(2);
            (s + "u32", v)
        }
        _ => {
            let (s, v) = number(1);
            ("0_".to_string() + &s, v)
        }
    }
}

/// A name of the form of the given one: every letter is any letter.
fn like(name: &str) -> String {
    let mut s = Vec::new();
    for c in name.bytes() {
        if c == b'_' {
            s.push(c);
        } else {
            let c = u8_();
            assume(c >= b'a' && c <= b'z');
            s.push(c);
        }
    }
    text(s)
}

/// Digits between fixed ones.
fn around(before: &str, n: u32, after: &str, radix: u64) -> (String, u64) {
    let (s, v) = if radix == 10 { number(n) } else { hex(n) };
    let s = if radix == 10 { s } else { s[2..].to_string() };
    let mut all = 0;
    for c in before.bytes() {
        all = all * radix + (c as char).to_digit(16).unwrap() as u64;
    }
    for _ in 0..n {
        all *= radix;
    }
    all += v;
    for c in after.bytes() {
        all = all * radix + (c as char).to_digit(16).unwrap() as u64;
    }
    (["0x"[..if radix == 10 { 0 } else { 2 }].to_string(), before.to_string(), s, after.to_string()].concat(), all)
}

/// A declaration with two parts numbered `a` and `b` around a third one, with `attr` on the whole.
fn two(attr: &str, a: &str, b: &str) -> bool {
    match choose(5) {
        0 => refuses("State", &[attr, "struct S { #[steit(tag = ", a, ")] x: i32, #[steit(tag = 999)] y: i32, #[steit(tag = ", b, ")] z: i32 }"]),
        1 => refuses("Serialize", &[attr, "struct S(#[steit(tag = ", b, ")] i32, #[steit(tag = 999)] i32, #[steit(tag = ", a, ")] i32);"]),
        2 => refuses("State", &["enum E { #[steit(tag = 0, ", strip(attr), ")] A { #[steit(tag = ", a, ")] x: i32, #[steit(tag = 999)] y: i32, #[steit(tag = ", b, ")] z: i32 } }"]),
        3 => refuses("State", &[attr, "enum E { #[steit(tag = ", a, ")] A, #[steit(tag = 1000)] B, #[steit(tag = ", b, ")] C { #[steit(tag = 0)] x: i32 }, #[steit(tag = 0)] D }"]),
        _ => refuses("Deserialize", &["enum E { #[steit(tag = 0)] D, #[steit(tag = 1, ", strip(attr), ")] A(#[steit(tag = ", a, ")] i32, #[steit(tag = ", b, ")] i32) }"]),
    }
}

fn strip(attr: &str) -> &str {
    if attr.is_empty() { attr } else { &attr[8..attr.len() - 2] }
}

const FIELD: [(&str, &str); 5] = [
    ("struct S { #[steit(", ")] x: i32 }"),
    ("struct S(#[steit(tag = 1000)] i32, #[steit(", ")] i32);"),
    ("enum E { #[steit(tag = 0)] A { #[steit(", ")] x: i32 } }"),
    ("enum E { #[steit(tag = 0)] A, #[steit(tag = 1)] B(#[steit(", ")] i32) }"),
    ("enum E { #[steit(tag = 0)] A, #[steit(", ")] B }"),
];
/// The number the other part has.
const OTHER: [u64; 5] = [u64::max_value(), 1000, u64::max_value(), u64::max_value(), 0];

fn field(args: &str, attrs: &[&str], number: u64) -> (bool, bool) {
    let i = choose(5) as usize;
    let (before, after) = FIELD[i];
    (refuses(args, &[before, &attrs.concat(), after]), OTHER[i] == number)
}

const HEX: &str = "0123456789abcdef";

const NUMBERED: [&str; 2] = ["State", "Serialize"];

fn args() -> &'static str {
    NUMBERED[choose(2) as usize]
}

harness! {
    // No two parts of one declaration have the same number, however it is written.
    c28_duplicate => {
        let (a, x) = number(2);
        let (b, y) = number(2);
        assume(x != 0 && y != 0);
        let r = two("", &a, &b);
        expect(r, x == y, 1);
    };
    c28_duplicate_written => {
        let (a, x) = written();
        let (b, y) = written();
        assume(x != 0 && y != 0);
        let r = refuses("State", &["struct S { #[steit(tag = ", &a, ")] x: i32, #[steit(tag = ", &b, ")] y: i32 }"]);
        expect(r, x == y, 1);
    };
    // The number of a variant's field is no matter to other variants, and neither to the variants' numbers.
    c28_separate => {
        let (a, _) = number(2);
        let (b, y) = number(2);
        let (c, z) = number(1);
        let r = refuses("State", &["enum E { #[steit(tag = 0)] A(#[steit(tag = ", &a, ")] i32), #[steit(tag = ", &b, ")] B { #[steit(tag = ", &a, ")] x: i32 }, #[steit(tag = ", &c, ")] C }"]);
        expect(r, y == z || y == 0 || z == 0, 1);
    };
    // A reserved number is not used.
    c28_reserved => {
        let (a, x) = number(2);
        let (b, y) = number(1);
        let (c, z) = number(2);
        assume(x != 0 && y != 0 && z != 0);
        let r = two(&["#[steit(reserved_tags(", &b, ", ", &c, "))]"].concat(), &a, "1001");
        expect(r, x == y || x == z, 1);
    };
    // The two sites of a reserved number of an enum, its own and a variant's, are kept apart.
    c28_reserved_scope => {
        let (a, x) = number(1);
        let (b, y) = number(1);
        let (c, z) = number(1);
        let (d, w) = number(1);
        assume(z != 0);
        let r = refuses("State", &["#[steit(reserved_tags(", &a, "))] enum E { #[steit(tag = 0)] A, #[steit(tag = ", &c, ", reserved_tags(", &b, "))] B { #[steit(tag = ", &d, ")] x: i32 } }"]);
        expect(r, x == 0 || x == z || y == w, 1);
    };
    c28_reserved_not_a_number => {
        let (a, x) = number(2);
        assume(x != 0);
        let l = like("x");
        let bad = [&["\"", &a, "\""].concat()[..], &["-", &a].concat(), &[&a, ".5"].concat(), &l, "true", &["tag = ", &a].concat(), &["99999999", &a].concat(), &a][choose(8) as usize].to_string();
        let r = two(&["#[steit(reserved_tags(1, ", &bad, "))]"].concat(), "1002", "1003");
        expect(r, bad != a, 1);
    };
    // Numbers are at most 2^29 - 1.
    c28_range => {
        let (a, x) = match choose(9) {
            0 => number(1),
            1 => number(3),
            2 => number(4),
            3 => around("5368709", 2, "", 10),
            4 => around("536870", 1, "11", 10),
            5 => around("", 1, "00000000", 10),
            6 => around("", 1, "000000000", 10),
            7 => around("429496729", 1, "", 10),
            _ => around("", 1, "000000000000000000", 10),
        };
        let (r, same) = field(args(), &["tag = ", &a], x);
        expect(r, x > MAX || same, 1);
    };
    c28_range_hex => {
        let (before, after) = [("", "fffffff"), ("", "000000"), ("1ffffff", ""), ("2000000", ""), ("1", "ffffff"), ("", "00000000"), ("", "1ffffffff")][choose(7) as usize];
        let d = choose(16) as u64;
        let a = ["0x", before, &HEX[d as usize..d as usize + 1], after].concat();
        let x = u64::from_str_radix(&a[2..], 16).unwrap();
        let (r, same) = field("State", &["tag = ", &a], x);
        expect(r, x > MAX || same, 1);
    };
    // Every part has a number.
    c28_missing => {
        let (a, x) = number(2);
        assume(x != 0);
        let (attrs, right) = match choose(14) {
            0 => (["tag = 2", &a], false),
            1 => (["", ""], true),
            2 => (["tag", ""], true),
            3 => (["tag = \"1", "\""], true),
            4 => (["tag = 1.", &a[..]], true),
            5 => (["tag = -", &a[..]], true),
            6 => (["tag = 'a'", ""], true),
            7 => (["tag = true", ""], true),
            8 => (["", &a[..]], true),
            9 => (["tag(1", ")"], true),
            10 => (["tag = 1, tag = 2", &a[..]], true),
            11 => (["tag = ", "x"], true),
            12 => (["tag = ", ""], true),
            _ => (["tags = ", &a[..]], true),
        };
        let (r, _) = field(args(), &attrs, 0);
        expect(r, right, 1);
    };
    c28_no_attribute => {
        let (a, _) = number(1);
        let (attr, right) = [("", true), ("#[steit]", true), ("#[steit = 1]", true), ("#[steit()]", true), ("#[other(tag = 1)]", true), ("#[doc = \"x\"] #[steit(tag = 2)]", false), ("#[steit(no_hash)] #[steit(tag = 2)]", false), ("#[steit(tag = 3)] #[steit(tag = 2)]", true)][choose(8) as usize];
        let r = match choose(3) {
            0 => refuses(args(), &["struct S { #[steit(tag = 1", &a, ")] x: i32,", attr, "y: i32 }"]),
            1 => refuses(args(), &["struct S(", attr, "i32, #[steit(tag = 1", &a, ")] i32);"]),
            _ => refuses(args(), &["enum E { #[steit(tag = 0)] A { #[steit(tag = 1", &a, ")] x: i32,", attr, "y: i32 }, #[steit(tag = 1)] B }"]),
        };
        expect(r, right, 1);
    };
    c28_no_attribute_variant => {
        let (a, _) = number(1);
        let (attr, right) = [("", true), ("#[steit]", true), ("#[steit()]", true), ("#[doc = \"x\"] #[steit(tag = 2)]", false), ("#[steit(tag = 3)] #[steit(tag = 2)]", true)][choose(5) as usize];
        let r = refuses(args(), &["enum E { #[steit(tag = 0)] A { #[steit(tag = 1", &a, ")] x: i32 },", attr, "B, #[steit(tag = 1", &a, ")] C }"]);
        expect(r, right, 1);
    };
    // One variant has number 0: the default.
    c28_default_variant => {
        let (a, x) = written();
        let (b, y) = number(1);
        let (c, z) = number(1);
        let r = refuses(args(), &["enum E { #[steit(tag = ", &a, ")] A, #[steit(tag = ", &b, ")] B(#[steit(tag = 0)] i32), #[steit(tag = ", &c, ")] C }"]);
        expect(r, (x != 0 && y != 0 && z != 0) || x == y || y == z || x == z, 1);
    };
    // Enums without variants, unions and const generics make no message.
    c28_kinds => {
        let (a, _) = number(2);
        let (decl, right) = [
            ("enum E {}", true),
            ("union U { #[steit(tag = 1)] x: i32 }", true),
            ("struct S<const N: usize> { #[steit(tag = 1)] x: i32, ", true),
            ("struct S<T> { #[steit(tag = 1)] x: T, ", false),
            ("struct S<'a, T: Clone> { #[steit(tag = 1)] x: &'a T, ", false),
            ("struct S;", false),
            ("struct S {}", false),
            ("struct S();", false),
            ("enum E<const N: usize> { #[steit(tag = 0)] A, ", true),
            ("enum E<T> { #[steit(tag = 0)] A(#[steit(tag = 0)] T), ", false),
        ][choose(10) as usize];
        let more = if decl.ends_with(", ") {
            if decl.starts_with("e") { ["#[steit(tag = ", &a[..], "1)] B }"] } else { ["#[steit(tag = ", &a[..], "1)] y: i32 }"] }
        } else {
            ["", "", ""]
        };
        let one = decl.ends_with(", ") && a == "00" && !decl.starts_with("e");
        let args = ["State", "Serialize", "Deserialize", "PartialEq, Hash", "Default, Clone, Debug"][choose(5) as usize];
        let r = refuses(args, &[decl, more[0], more[1], more[2]]);
        expect(r, right || one, 1);
    };
    // Any choice of what to derive is fine, once.
    c28_derives => {
        let names = ["Serialize", "Deserialize", "State", "PartialEq", "Default", "Hash"];
        let twice = choose(7) as usize;
        let (mut list, mut right) = ("Clone, serde::Serialize, ".to_string(), false);
        for (i, name) in names.iter().enumerate() {
            if choose(2) == 1 {
                list = list + name + ", ";
                right |= i == twice;
            }
        }
        if twice < 6 {
            list += names[twice];
        }
        let (a, x) = number(1);
        let r = refuses(&list, &["struct S { #[steit(tag = 1)] x: i32, #[steit(tag = ", &a, ")] y: i32 }"]);
        expect(r, x == 1 || right, 1);
    };
    // An unknown attribute is refused.
    c28_unknown_field => {
        let n = like("no_hash");
        let known = n == "no_hash";
        let r = match choose(3) {
            0 => refuses("State", &["struct S(#[steit(", &n, ", tag = 1)] i32);"]),
            1 => refuses("State", &["struct S { #[steit(tag = 1)] #[steit(", &n, " = true)] x: i32 }"]),
            _ => refuses("State", &["enum E { #[steit(tag = 0)] A { #[steit(tag = 1, ", &n, " = false)] x: i32 } }"]),
        };
        expect(r, !known, 1);
    };
    c28_unknown_field_state => {
        let n = like("no_state");
        let known = n == "no_state";
        let r = refuses("State", &["struct S(#[steit(", &n, ", tag = 1)] i32);"]);
        expect(r, !known, 1);
    };
    c28_unknown_field_eq => {
        let n = like("no_eq_hash");
        let known = n == "no_eq_hash";
        let r = refuses("Hash, PartialEq", &["struct S(#[steit(", &n, ", tag = 1)] i32);"]);
        expect(r, !known, 1);
    };
    c28_unknown_tag => {
        let n = like("tag");
        let known = n == "tag";
        let (r, _) = field(args(), &[&n, " = 5"], 5);
        expect(r, !known, 1);
    };
    c28_unknown_struct => {
        let n = like("no_meta");
        let known = n == "no_meta";
        let r = match choose(4) {
            0 => refuses("State", &["#[steit(", &n, ")] struct S(#[steit(tag = 1)] i32);"]),
            1 => refuses("State", &["#[steit(", &n, " = true)] struct S;"]),
            2 => refuses("State", &["#[steit(", &n, ")] enum E { #[steit(tag = 0)] A }"]),
            _ => refuses("Hash", &["#[steit(", &n, " = false)] enum E { #[steit(tag = 0)] A }"]),
        };
        expect(r, !known, 1);
    };
    c28_unknown_setting => {
        let n = like(["steit_owned", "ctor_prefix"][choose(2) as usize]);
        let known = n == "steit_owned" || n == "ctor_prefix";
        let r = refuses("State", &["#[steit(", &n, " = ", if n == "ctor_prefix" { "\"a\"" } else { "true" }, ")] struct S(#[steit(tag = 1)] i32);"]);
        expect(r, !known, 1);
    };
    c28_unknown_variant => {
        let n = like("no_size_cache");
        let known = n == "no_size_cache";
        let r = refuses("State", &["enum E { #[steit(tag = 0, ", &n, ")] A, #[steit(tag = 1)] #[steit(", &n, " = true)] B { #[steit(tag = 0)] x: i32 } }"]);
        expect(r, !known, 1);
    };
    c28_unknown_list => {
        let n = like("reserved_tags");
        let known = n == "reserved_tags";
        let (a, x) = number(1);
        let (r, field) = match choose(5) {
            0 => (refuses("State", &["#[steit(", &n, "(", &a, "))] struct S(#[steit(tag = 11)] i32);"]), false),
            1 => (refuses("Serialize", &["#[steit(", &n, "())] struct S { #[steit(tag = 11)] x: i32 }"]), false),
            2 => (refuses("State", &["#[steit(", &n, "(", &a, "))] enum E { #[steit(tag = 0)] A }"]), false),
            3 => (refuses("State", &["enum E { #[steit(tag = 0, ", &n, "(", &a, "))] A }"]), false),
            _ => (refuses("State", &["struct S(#[steit(tag = 11, ", &n, "(", &a, "))] i32);"]), true),
        };
        // `reserved_tags(0)` of an enum reserves the tag of its only variant, which it cannot do without.
        check(known || r, 1);
        check(!known || x == 0 || r == field, 2);
        cover(1 + r as u32);
        observe(r as u64);
    };
    // A known attribute with a value of another kind, or given twice, is refused.
    c28_values => {
        let (a, _) = number(1);
        let (attr, right) = [
            ("no_hash = 1", true), ("no_hash = \"true\"", true), ("no_hash, no_hash", true), ("no_hash(true)", true), ("no_state = 'a'", true),
            ("csharp_name", true), ("csharp_name = 1", true), ("csharp_name = \"a\", csharp_name = \"b\"", true), ("csharp_name = \"a\"", false),
            ("no_eq_hash = true, no_hash = false, no_state", false), ("\"no_hash\"", true), ("12", true),
        ][choose(12) as usize];
        let r = match choose(3) {
            0 => refuses("State", &["struct S(#[steit(", attr, ", tag = ", &a, ")] i32);"]),
            1 => refuses("State", &["struct S { #[steit(tag = ", &a, ")] #[steit(", attr, ")] x: i32 }"]),
            _ => refuses("State", &["enum E { #[steit(tag = 0)] A { #[steit(tag = ", &a, ", ", attr, ")] x: i32 } }"]),
        };
        expect(r, right, 1);
    };
    c28_settings => {
        let (a, _) = number(1);
        let (attr, right) = [
            ("no_meta = 1", true), ("no_meta, no_meta = true", true), ("derive_ctors = true, derive_setters = false", false),
            ("ctor_prefix = 1", true), ("ctor_prefix", true), ("ctor_prefix = \"make\"", false), ("size_cache_renamed = true", true),
            ("runtime_renamed", true), ("runtime_renamed = \"r\", size_cache_renamed = \"s\"", false), ("csharp_name = \"A\"", false),
            ("csharp_name = 'A'", true), ("steit_owned, no_size_cache", false), ("steit_owned(true)", true), ("\"no_meta\"", true), ("tag = 1", true),
            ("reserved_tags = 1", true), ("reserved_tags", true), ("reserved_tags()", false),
        ][choose(18) as usize];
        let r = match choose(2) {
            0 => refuses("State", &["#[steit(", attr, ")] struct S(#[steit(tag = ", &a, ")] i32);"]),
            _ => refuses("State", &["#[steit(", attr, ")] enum E { #[steit(tag = 0)] A { #[steit(tag = ", &a, ")] x: i32 } }"]),
        };
        expect(r, right, 1);
    };
    // A type the metadata cannot describe is refused, unless there is no metadata.
    c28_types => {
        let (a, _) = number(1);
        let (ty, right) = [
            ("(i32, i32)", true), ("fn(i32) -> i32", true), ("Fn(i32) -> i32", true), ("<T as Tr>::A", true), ("[i32]", true), ("*const i32", true), ("!", true),
            ("dyn Tr", true), ("Vec<(i32, i32)>", true), ("Vec<A = i32>", true), ("[(i32, i32); 2]", true), ("&'a [i32]", true), ("_", true),
            ("i32", false), ("(i32)", false), ("&'a mut i32", false), ("[i32; 3]", false), ("a::b::C<i32, D<'a, u8>>", false), ("[T; 2]", false), ("List<T>", false), ("T", false), ("Option<Vec<[T; 4]>>", false),
        ][choose(22) as usize];
        let (args, attr, meta) = [("State", "", true), ("Deserialize", "", true), ("Serialize", "", false), ("Deserialize", "#[steit(no_meta)]", false), ("State", "#[steit(no_meta = false)]", true)][choose(5) as usize];
        let r = match choose(3) {
            0 => refuses(args, &[attr, "struct S<'a, T> { #[steit(tag = 10)] x: i32, #[steit(tag = ", &a, ")] y: ", ty, " }"]),
            1 => refuses(args, &[attr, "struct S<'a, T>(#[steit(tag = ", &a, ")] ", ty, ");"]),
            _ => refuses(args, &[attr, "enum E<'a, T> { #[steit(tag = 0)] A, #[steit(tag = 1)] B(#[steit(tag = ", &a, ")] ", ty, ") }"]),
        };
        expect(r, right && meta, 1);
    };
}
