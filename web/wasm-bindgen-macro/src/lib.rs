//! `#[wasm_bindgen]` as an attribute that leaves the item as it is, without the attributes of that name inside it.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    for t in ts {
        if let TokenTree::Group(g) = &t {
            if g.delimiter() == Delimiter::Bracket {
                let names = matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen");
                let attr = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#');
                if names && attr {
                    out.pop();
                    continue;
                }
            }
            let mut n = Group::new(g.delimiter(), strip(g.stream()));
            n.set_span(g.span());
            out.push(n.into());
        } else {
            out.push(t);
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
