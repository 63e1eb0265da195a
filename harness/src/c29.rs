//! C29: the macro keeps the declaration, and names what it adds after it.
use crate::{macros::*, sym::*};

/// An identifier: a capital letter, then letters of either case, digits and underscores.
fn camel(n: u32) -> String {
    let mut s = vec![b'A' + u8_() % 26];
    for _ in 1..n {
        s.push(match choose(4) {
            0 => b'A' + u8_() % 26,
            1 => b'0' + u8_() % 10,
            2 => b'_',
            _ => b'a' + u8_() % 26,
        });
    }
    text(s)
}

/// Every capital starts a new word.
fn snake(s: &str) -> String {
    let mut out = Vec::new();
    for (i, c) in s.bytes().enumerate() {
        let upper = c >= b'A' && c <= b'Z';
        if upper && i > 0 {
            out.push(b'_');
        }
        out.push(if upper { c + 32 } else { c });
    }
    text(out)
}

fn method(tokens: &[String], name: &str) -> bool {
    has(tokens, &["pub", "fn", name])
}

fn seen(tokens: &[String]) {
    observe(tokens.len() as u64);
    cover(1);
}

/// The tokens of the declaration alone.
fn item(tokens: &[String], start: usize, end: &str) -> Vec<String> {
    let mut depth = 0;
    let mut out = Vec::new();
    for t in &tokens[start..] {
        match &t[..] {
            "{" | "(" | "[" => depth += 1,
            "}" | ")" | "]" => depth -= 1,
            _ => (),
        }
        out.push(t.clone());
        if depth == 0 && t == end {
            break;
        }
    }
    out
}

/// Where the declaration starts, behind `#[derive(...)]`.
fn start(out: &[String]) -> usize {
    if has(&out[..3], &["#", "[", "derive"]) { out.iter().position(|t| t == "]").unwrap() + 1 } else { 0 }
}

/// Without separators and the path of a type, whatever that is.
fn bare(tokens: Vec<String>) -> Vec<String> {
    tokens.into_iter().filter(|t| !["," , ":", "steit", "rt"].contains(&&t[..])).collect()
}

/// What the declaration is like in the output, without what `derive` adds to its attributes.
fn kept(args: &str, attr: &str, before: &[&str], after: &str, end: &str) {
    let with = [attr, &before.concat()].concat();
    let out = flat(expand(args, &[&with]));
    let want = flat(std::str::FromStr::from_str(after).unwrap());
    let got = item(&out, start(&out), end);
    check(got.len() == want.len(), 1);
    check(got.iter().zip(&want).all(|(a, b)| a == b), 2);
    seen(&out);
}

harness! {
    c29_struct => {
        let (a, b) = (lower(2), lower(3) + "_");
        let args = ["State", "Deserialize", "Serialize"][choose(3) as usize];
        let out = flat(expand(args, &["struct S { #[steit(tag = 1)] ", &a, "_x: i32, #[steit(tag = 2, no_state)] ", &b, ": u8 }"]));
        let state = args == "State";
        check(method(&out, "new") == (args != "Serialize"), 1);
        check(method(&out, &["set_", &a, "_x"].concat()) == state, 2);
        check(method(&out, &["set_", &a, "_x_with"].concat()) == state, 3);
        check(method(&out, &["set_", &b].concat()) == state, 4);
        check(!method(&out, &["set_", &b, "_with"].concat()), 5);
        seen(&out);
    };
    c29_tuple_struct => {
        let x = b'0' + u8_() % 10;
        let out = flat(expand("Serialize", &["#[steit(derive_setters, derive_ctors = true)] struct S(#[steit(tag = ", &text(vec![x, b'1']), ")] i32, #[steit(tag = 1002)] u8);"]));
        check(method(&out, "new") && method(&out, "set_f0") && method(&out, "set_f1"), 1);
        check(!method(&out, "set_f2") && !method(&out, "set_f0_with"), 2);
        seen(&out);
    };
    c29_variants => {
        let a = camel(1 + choose(3));
        let f = lower(2);
        let out = flat(expand("State", &["enum E { #[steit(tag = 1)] ", &a, " { #[steit(tag = 0)] ", &f, "_: i32 }, #[steit(tag = 0)] Unit9Xy(#[steit(tag = 5)] i32) }"]));
        let s = snake(&a);
        check(method(&out, "new"), 1);
        check(method(&out, &["new_", &s].concat()), 2);
        check(method(&out, "new_unit9_xy"), 3);
        check(method(&out, &["set_", &s, "_", &f, "_"].concat()), 4);
        check(method(&out, &["set_", &s, "_", &f, "__with"].concat()), 5);
        check(method(&out, "set_unit9_xy_f0") && method(&out, "set_unit9_xy_f0_with"), 6);
        seen(&out);
    };
    c29_ctor_prefix => {
        let p = lower(3);
        let a = camel(2);
        let args = ["State", "Deserialize", "Serialize, Deserialize", "Serialize"][choose(4) as usize];
        let more = if args == "Serialize" { ", derive_ctors" } else { "" };
        let out = match choose(3) {
            0 => flat(expand(args, &["#[steit(ctor_prefix = \"", &p, "\"", more, ")] enum E { #[steit(tag = 0)] ", &a, " }"])),
            1 => flat(expand(args, &["#[steit(ctor_prefix = \"", &p, "\"", more, ")] enum E { #[steit(tag = 1)] Other(#[steit(tag = 1)] i32), #[steit(tag = 0)] ", &a, " { #[steit(tag = 0)] x: u8 } }"])),
            _ => flat(expand(args, &["#[steit(ctor_prefix = \"", &p, "\"", more, ")] struct E { #[steit(tag = 0)] ", &lower(2), "_: u8 }"])),
        };
        check(method(&out, &p), 1);
        check(p == "new" || !method(&out, "new"), 2);
        if has(&out, &["enum"]) {
            check(method(&out, &[&p[..], "_", &snake(&a)].concat()), 3);
        }
        if has(&out, &["Other"]) {
            check(method(&out, &[&p[..], "_other"].concat()), 4);
        }
        seen(&out);
    };
    // What a variant declares for itself is its own matter.
    c29_hidden_variant => {
        let (n, m) = (lower(2), lower(2));
        let args = ["State", "Deserialize", "Serialize"][choose(3) as usize];
        // (attribute, renamed cache, renamed runtime, no cache)
        let table = |x: &str| -> (String, Option<String>, Option<String>, Option<bool>) {
            match choose(6) {
                0 => ("#[steit(csharp_name = \"A\")]".to_string(), None, None, None),
                1 => (["#[steit(size_cache_renamed = \"", x, "_\")]"].concat(), Some([x, "_"].concat()), None, None),
                2 => (["#[steit(runtime_renamed = \"", x, "__\")]"].concat(), None, Some([x, "__"].concat()), None),
                3 => (["#[steit(size_cache_renamed = \"", x, "_\", runtime_renamed = \"", x, "__\")]"].concat(), Some([x, "_"].concat()), Some([x, "__"].concat()), None),
                4 => ("#[steit(no_size_cache)]".to_string(), None, None, Some(true)),
                _ => ("#[steit(no_size_cache = false)]".to_string(), None, None, Some(false)),
            }
        };
        let (all, cache, runtime, none) = table(&n);
        let (one, own_cache, own_runtime, own_none) = table(&m);
        let out = flat(expand(args, &[&all, "enum E { #[steit(tag = 5)] A { #[steit(tag = 1)] x: i32 }, #[steit(tag = 0)] ", &one, " B { #[steit(tag = 2)] y: u8 }, #[steit(tag = 1)] C(#[steit(tag = 2)] u8) }"]));
        let hidden = |cache: Option<String>, runtime: Option<String>, none: bool, named: bool| {
            let mut s = String::new();
            if args != "Deserialize" && !none {
                s = s + "#[doc(hidden)] " + &if named { cache.unwrap_or("size_cache".to_string()) } else { String::new() } + " SizeCache ";
            }
            if args == "State" {
                s = s + "#[doc(hidden)] " + &if named { runtime.unwrap_or("runtime".to_string()) } else { String::new() } + " Runtime ";
            }
            s
        };
        let none = none == Some(true);
        let want = [
            "enum E { A { x i32 ".to_string(), hidden(cache.clone(), runtime.clone(), none, true),
            "} B { y u8 ".to_string(), hidden(own_cache.or(cache.clone()), own_runtime.or(runtime.clone()), none || own_none == Some(true), true),
            "} C(u8 ".to_string(), hidden(None, None, none, false), ") }".to_string(),
        ].concat();
        let got = bare(item(&out, start(&out), "}"));
        let want = bare(flat(std::str::FromStr::from_str(&want).unwrap()));
        check(got.len() == want.len(), 1);
        check(got.iter().zip(&want).all(|(a, b)| a == b), 2);
        seen(&out);
    };
    // Hidden fields come last, under their own or another name, and only where they are needed.
    c29_hidden => {
        let n = lower(3);
        let m = lower(4);
        let args = ["State", "Deserialize", "Serialize", "Serialize, Deserialize"][choose(4) as usize];
        let attr = match choose(4) {
            0 => String::new(),
            1 => ["#[steit(size_cache_renamed = \"", &n, "_\", runtime_renamed = \"", &m, "_\")]"].concat(),
            2 => "#[steit(no_size_cache)]".to_string(),
            _ => ["#[steit(no_size_cache = false, runtime_renamed = \"", &m, "_\")]"].concat(),
        };
        let (cache, runtime) = match () {
            _ if has(&flat(std::str::FromStr::from_str(&attr).unwrap()), &["size_cache_renamed"]) => ([&n[..], "_"].concat(), [&m[..], "_"].concat()),
            _ if attr.contains("runtime_renamed") => ("size_cache".to_string(), [&m[..], "_"].concat()),
            _ => ("size_cache".to_string(), "runtime".to_string()),
        };
        let has_cache = args != "Deserialize" && !attr.contains("(no_size_cache)");
        let has_runtime = args == "State";
        let shape = choose(2);
        let mut want = if shape == 0 { "struct S { x: i32, ".to_string() } else { "enum E { A { x: i32, ".to_string() };
        if has_cache {
            want = want + "#[doc(hidden)] " + &cache + ": steit::rt::SizeCache, ";
        }
        if has_runtime {
            want = want + "#[doc(hidden)] " + &runtime + ": steit::rt::Runtime, ";
        }
        want += if shape == 0 { "}" } else { "}, }" };
        let input = if shape == 0 { "struct S { #[steit(tag = 1)] x: i32, }" } else { "enum E { #[steit(tag = 0)] A { #[steit(tag = 1)] x: i32, }, }" };
        let out = flat(expand(args, &[&attr, input]));
        let got = bare(item(&out, start(&out), "}"));
        let want = bare(flat(std::str::FromStr::from_str(&want).unwrap()));
        check(got.len() == want.len(), 1);
        check(got.iter().zip(&want).all(|(a, b)| a == b), 2);
        seen(&out);
    };
    // Attributes, types, visibilities and generics are kept as they are.
    c29_kept => {
        let (a, b, c) = (lower(2), lower(1), camel(2));
        match choose(7) {
            0 => kept("Deserialize", "", &["/// about\n #[serde(skip)] #[steit(no_meta)] pub(crate) struct ", &c, "<T: Clone> where T: Copy { #[", &a, "_x(y)] #[steit(tag = 1)] pub ", &b, "_: [T; 2], #[steit(tag = 2)] x: i32 }"],
                &["#[doc = \" about\"] #[serde(skip)] pub(crate) struct ", &c, "<T: Clone> where T: Copy { #[", &a, "_x(y)] pub ", &b, "_: [T; 2], x: i32 }"].concat(), "}"),
            1 => kept("Serialize", "#[steit(no_size_cache)]", &["pub struct ", &c, "(#[steit(tag = 1, csharp_name = \"A\")] #[", &a, "_] pub i32, #[steit(tag = 2)] Vec<", &b, "_::X>);"],
                &["pub struct ", &c, "(#[", &a, "_] pub i32, Vec<", &b, "_::X>);"].concat(), ";"),
            2 => kept("Deserialize", "#[steit(reserved_tags(9))]", &["pub enum ", &c, "<'a> { #[", &a, "_ = 1] #[steit(tag = 0, reserved_tags(1))] A, #[steit(tag = 1)] B(#[steit(tag = 1)] &'a ", &b, "_) }"],
                &["pub enum ", &c, "<'a> { #[", &a, "_ = 1] A, B(&'a ", &b, "_) }"].concat(), "}"),
            3 => kept("Deserialize", "", &["#[x::steit(tag = 1)] struct ", &c, " { #[steit(tag = 1)] #[", &a, "_::steit] #[steit::", &b, "_ = 1] x: i32, #[steit(tag = 2)] #[steit_] #[r#steit2] y: u8 }"],
                &["#[x::steit(tag = 1)] struct ", &c, " { #[", &a, "_::steit] #[steit::", &b, "_ = 1] x: i32, #[steit_] #[r#steit2] y: u8 }"].concat(), "}"),
            4 => kept("Deserialize", "", &["enum ", &c, "<T> { #[x::steit] #[steit(tag = 0)] #[default] ", &c, "(#[steit(tag = 7)] #[steit::", &b, "_] Vec<T>), #[steit(tag = 9)] #[cfg(x)] B }"],
                &["enum ", &c, "<T> { #[x::steit] #[default] ", &c, "(#[steit::", &b, "_] Vec<T>), #[cfg(x)] B }"].concat(), "}"),
            5 => kept("Serialize", "#[steit(no_size_cache)]", &["pub(in ", &b, "_) struct ", &c, "<'a, T = i32> where T: 'a + X<", &c, "> { #[steit(tag = 1)] pub(super) ", &a, "_: &'a [T], #[steit(tag = 2)] r#", &b, "_: fn(i32) -> T }"],
                &["pub(in ", &b, "_) struct ", &c, "<'a, T = i32> where T: 'a + X<", &c, "> { pub(super) ", &a, "_: &'a [T], r#", &b, "_: fn(i32) -> T }"].concat(), "}"),
            _ => kept("PartialEq, Default, Hash", "", &["struct ", &c, " { #[steit(tag = 1, no_hash)] ", &a, "_: (i32, ", &b, "_) }"],
                &["struct ", &c, " { ", &a, "_: (i32, ", &b, "_) }"].concat(), "}"),
        }
    };
    // What the macro does not derive itself is left to `#[derive]`, in order.
    c29_derives => {
        let a = camel(2);
        let own = ["State", "Serialize", "PartialEq", "Hash", "Default"][choose(5) as usize];
        let at = choose(3);
        let list = match at {
            0 => [own, ", ", &a, "_, b::Clone"],
            1 => [&a, "_, ", own, ", b::Clone"],
            _ => [&a, "_, b::Clone", ", ", own],
        }.concat();
        let out = flat(expand(&list, &["struct S { #[steit(tag = 1)] x: i32 }"]));
        let first = item(&out, 1, "]");
        let want = flat(std::str::FromStr::from_str(&["[derive(", &a, "_, b::Clone)]"].concat()).unwrap());
        check(first == want, 1);
        seen(&out);
    };
    // Where the library itself uses the macro it is `crate`, elsewhere `steit`.
    c29_owned => {
        let a = lower(2);
        let owned = choose(2) == 1;
        let out = flat(expand("State", &[if owned { "#[steit(steit_owned)]" } else { "" }, "struct S { #[steit(tag = 1)] ", &a, "_: u8 }"]));
        check(has(&out, &["steit"]) == !owned, 1);
        seen(&out);
    };
}
