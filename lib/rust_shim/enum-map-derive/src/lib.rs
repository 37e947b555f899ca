// Minimal #[derive(Enum)] for field-less enums.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Enum)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = None;
    let mut variants: Vec<String> = Vec::new();
    let mut it = input.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(id) = &t {
            if id.to_string() == "enum" {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = Some(n.to_string());
                }
            }
        }
        if let TokenTree::Group(g) = &t {
            if g.delimiter() == Delimiter::Brace && name.is_some() {
                let mut expect = true;
                for u in g.stream() {
                    match u {
                        TokenTree::Ident(id) if expect => {
                            variants.push(id.to_string());
                            expect = false;
                        }
                        TokenTree::Punct(p) if p.as_char() == ',' => expect = true,
                        _ => {}
                    }
                }
            }
        }
    }
    let name = name.expect("derive(Enum) on something that is not an enum");
    let n = variants.len();
    let from: String = variants.iter().enumerate().map(|(i, v)| format!("{i} => {name}::{v},")).collect();
    let into: String = variants.iter().enumerate().map(|(i, v)| format!("{name}::{v} => {i},")).collect();
    format!(
        "impl ::enum_map::Enum for {name} {{
            const LENGTH: usize = {n};
            fn from_usize(i: usize) -> Self {{ match i {{ {from} _ => unreachable!() }} }}
            fn into_usize(self) -> usize {{ match self {{ {into} }} }}
        }}"
    )
    .parse()
    .unwrap()
}
