//! Stands in for FRAME's `#[pallet]`: keeps the dispatchable functions, drops the
//! attributes that only describe the runtime's metadata, and expands storage
//! values, their getters and the deposit of events.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn parse(s: String) -> TokenStream {
    s.parse().expect("stub of #[pallet]")
}

fn walk(t: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut i = 0;
    // attributes of the item that comes next
    let mut storage = false;
    let mut event = false;
    let (mut getter, mut deposit) = (None, None);
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                    let a: Vec<TokenTree> = g.stream().into_iter().collect();
                    if g.delimiter() == Delimiter::Bracket && a.first().map(|t| t.to_string()).as_deref() == Some("pallet") {
                        let arg = match a.get(4) {
                            Some(TokenTree::Group(g)) => g.stream().to_string(),
                            _ => String::new(),
                        };
                        match a.get(3).map(|t| t.to_string()).as_deref() {
                            Some("storage") => storage = true,
                            Some("event") => event = true,
                            Some("getter") => getter = Some(arg),
                            Some("generate_deposit") => deposit = Some(arg),
                            _ => {}
                        }
                        i += 2;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            // pub type NAME<T: Config> = StorageValue<_, VALUE, QUERY>;
            TokenTree::Ident(k) if storage && k.to_string() == "type" => {
                let name = v[i + 1].to_string();
                while !matches!(&v[i], TokenTree::Punct(p) if p.as_char() == ';') {
                    if v[i].to_string() == "_" {
                        out.extend(parse(format!("{name}Prefix<T>")));
                    } else {
                        out.push(v[i].clone());
                    }
                    i += 1;
                }
                out.extend(parse(format!(
                    ";
                    pub struct {name}Prefix<T>(::core::marker::PhantomData<T>);
                    impl<T> ::frame_support::storage::StorageInstance for {name}Prefix<T> {{
                        const NAME: &'static str = concat!(module_path!(), \"::{name}\");
                    }}"
                )));
                if let Some(f) = getter.take() {
                    out.extend(parse(format!(
                        "impl<T: Config> Pallet<T> {{
                            pub {f}() -> <{name}<T> as ::frame_support::storage::Getter>::Query {{
                                <{name}<T> as ::frame_support::storage::Getter>::query()
                            }}
                        }}"
                    )));
                }
                storage = false;
            }
            TokenTree::Ident(k) if event && k.to_string() == "enum" => {
                // the type parameter occurs in a variant that has no values
                out.insert(out.len() - 1, TokenTree::Group(Group::new(Delimiter::None, parse("#[derive(Clone, PartialEq, Eq, Debug)]".into()))));
                while !matches!(&v[i], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
                    out.push(v[i].clone());
                    i += 1;
                }
                let TokenTree::Group(g) = &v[i] else { unreachable!() };
                let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                if !matches!(inner.last(), Some(TokenTree::Punct(p)) if p.as_char() == ',') {
                    inner.extend(parse(",".into()));
                }
                inner.extend(parse("#[doc(hidden)] __Ignore(::core::marker::PhantomData<T>, ::core::convert::Infallible)".into()));
                out.push(TokenTree::Group(Group::new(Delimiter::Brace, inner.into_iter().collect())));
                if let Some(f) = deposit.take() {
                    out.extend(parse(format!(
                        "impl<T: Config> Pallet<T> {{
                            {f}(event: Event<T>) {{
                                let event = <<T as Config>::Event as From<Event<T>>>::from(event);
                                let event = <<T as Config>::Event as Into<<T as ::frame_system::Config>::Event>>::into(event);
                                ::frame_system::Pallet::<T>::deposit_event(event)
                            }}
                        }}"
                    )));
                }
                event = false;
            }
            TokenTree::Group(g) => {
                let s = g.stream().to_string();
                let inner = if g.delimiter() == Delimiter::Parenthesis && s == "_" && is_struct(&out) {
                    "pub ::core::marker::PhantomData<T>".parse().unwrap()
                } else {
                    walk(g.stream())
                };
                let mut n = Group::new(g.delimiter(), inner);
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// Whether the tokens end in `struct Name<...>`.
fn is_struct(v: &[TokenTree]) -> bool {
    v.iter().rev().take(12).any(|t| t.to_string() == "struct")
}

#[proc_macro_attribute]
pub fn pallet(_: TokenStream, item: TokenStream) -> TokenStream {
    walk(item)
}
