//! The macro as a function on tokens, for C28 and C29.
use crate::sym::*;
use proc_macro2::{TokenStream, TokenTree};
use std::str::FromStr;

pub fn text(b: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(b) }
}

/// What the macro makes of a declaration.
pub fn expand(args: &str, input: &[&str]) -> TokenStream {
    let args = TokenStream::from_str(args).unwrap();
    let input = TokenStream::from_str(&input.concat()).unwrap();
    derive_lib::steit_derive(args, input)
}

/// Every token, in order, with the delimiters of groups.
pub fn flat(tokens: TokenStream) -> Vec<String> {
    fn walk(tokens: TokenStream, out: &mut Vec<String>) {
        for token in tokens {
            match token {
                TokenTree::Group(group) => {
                    let (open, close) = match group.delimiter() {
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    out.push(open.to_string());
                    walk(group.stream(), out);
                    out.push(close.to_string());
                }
                TokenTree::Ident(ident) => out.push(ident.to_string()),
                TokenTree::Punct(punct) => out.push(punct.as_char().to_string()),
                TokenTree::Literal(literal) => out.push(literal.to_string()),
            }
        }
    }
    let mut out = Vec::new();
    walk(tokens, &mut out);
    out.retain(|s| !s.is_empty());
    out
}

/// Whether a sequence of tokens contains another.
pub fn has(tokens: &[String], part: &[&str]) -> bool {
    tokens.windows(part.len()).any(|w| w.iter().zip(part).all(|(a, b)| a == b))
}

pub fn lower(n: u32) -> String {
    let mut s = Vec::new();
    for _ in 0..n {
        let c = u8_() % 26;
        s.push(b'a' + c);
    }
    text(s)
}
