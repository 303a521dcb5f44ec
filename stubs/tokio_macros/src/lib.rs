use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
/// `async fn f() -> R { body }` becomes `fn f() -> R { ::tokio::block_on(async move { body }) }`
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut v: Vec<TokenTree> = item.into_iter().filter(|t| !matches!(t, TokenTree::Ident(i) if i.to_string() == "async")).collect();
    let body = v.pop().unwrap();
    let call: TokenStream = format!("::tokio::block_on(async move {})", body).parse().unwrap();
    v.push(TokenTree::Group(Group::new(Delimiter::Brace, call)));
    v.into_iter().collect()
}
