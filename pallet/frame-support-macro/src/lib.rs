//! Stand-in for `#[frame_support::pallet]`: takes the markers of the pallet language away and leaves its functions.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(s: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = s.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                    let t = g.stream().to_string().replace(' ', "");
                    if t.starts_with("pallet::") {
                        i += 2;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis && g.stream().to_string().trim() == "_" => {
                out.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, "::core::marker::PhantomData<T>".parse().unwrap())));
            }
            TokenTree::Group(g) => {
                let mut h = Group::new(g.delimiter(), strip(g.stream()));
                h.set_span(g.span());
                out.push(TokenTree::Group(h));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
#[proc_macro_attribute]
pub fn pallet(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
