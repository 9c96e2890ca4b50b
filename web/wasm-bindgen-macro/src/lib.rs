//! Native stand-in for #[wasm_bindgen]: items are left as they are, attributes inside them are
//! dropped, and imported functions (`extern "C"` blocks) become functions which do nothing.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = strip(item).into_iter().collect();
    let is_extern = t.iter().any(|x| matches!(x, TokenTree::Ident(i) if i.to_string() == "extern"))
        && !t.iter().any(|x| matches!(x, TokenTree::Ident(i) if i.to_string() == "fn"));
    if !is_extern {
        return t.into_iter().collect();
    }
    match t.last() {
        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => imports(g.stream()),
        _ => t.into_iter().collect(),
    }
}
/// removes #[wasm_bindgen...] at every depth
fn strip(s: TokenStream) -> TokenStream {
    let mut o = vec![];
    let v: Vec<TokenTree> = s.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket && g.stream().to_string().trim_start().starts_with("wasm_bindgen") {
                i += 2;
                continue;
            }
        }
        o.push(match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            x => x.clone(),
        });
        i += 1;
    }
    o.into_iter().collect()
}
fn imports(s: TokenStream) -> TokenStream {
    let mut out = String::new();
    let mut item: Vec<TokenTree> = vec![];
    for x in s {
        if matches!(&x, TokenTree::Punct(p) if p.as_char() == ';') {
            let text: TokenStream = item.drain(..).collect();
            let returns = text.clone().into_iter().collect::<Vec<_>>().windows(2).any(|w| matches!((&w[0], &w[1]), (TokenTree::Punct(a), TokenTree::Punct(b)) if a.as_char() == '-' && b.as_char() == '>'));
            let is_type = text.clone().into_iter().any(|x| matches!(x, TokenTree::Ident(i) if i.to_string() == "type"));
            if is_type {
                out += &format!("{};\n", text.to_string().replace("type ", "struct "));
            } else {
                out += &format!("#[allow(unused_variables)] {} {{ {} }}\n", text, if returns { "unimplemented!()" } else { "" });
            }
        } else {
            item.push(x);
        }
    }
    out.parse().unwrap()
}
