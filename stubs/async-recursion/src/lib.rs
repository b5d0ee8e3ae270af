use proc_macro::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};
fn refs(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect(); let mut o = vec![];
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), refs(g.stream())); n.set_span(g.span()); o.push(TokenTree::Group(n)); }
            TokenTree::Punct(p) if p.as_char() == '&' => {
                o.push(t.clone());
                if !matches!(v.get(i + 1), Some(TokenTree::Punct(q)) if q.as_char() == '\'') { o.push(TokenTree::Punct(Punct::new('\'', Spacing::Joint))); o.push(TokenTree::Ident(Ident::new("async_recursion", Span::call_site()))); }
            }
            _ => o.push(t.clone()),
        }
    }
    o.into_iter().collect()
}
/// `async fn f<'a>(&self, x: &'a T) -> R { body }` becomes
/// `fn f<'async_recursion, 'a: 'async_recursion>(..) -> Pin<Box<dyn Future<Output = R> + Send + 'async_recursion>> { Box::pin(async move { body }) }`
#[proc_macro_attribute]
pub fn async_recursion(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut toks: Vec<TokenTree> = item.into_iter().collect();
    let body = toks.pop().unwrap();
    let p = toks.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "async")).unwrap();
    toks.remove(p);
    let f = toks.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "fn")).unwrap();
    let gi = (f..toks.len()).find(|i| matches!(&toks[*i], TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis)).unwrap();
    let pre: TokenStream = toks[..=f + 1].iter().cloned().collect();
    let mut gens = String::new();
    let mut i = f + 3;
    while i < gi { if let (TokenTree::Punct(q), TokenTree::Ident(n)) = (&toks[i - 1], &toks[i]) { if q.as_char() == '\'' { gens.push_str(&format!(", '{}: 'async_recursion", n)); } } i += 1; }
    let args = match &toks[gi] { TokenTree::Group(g) => refs(g.stream()), _ => unreachable!() };
    let ret: TokenStream = if gi + 1 < toks.len() { toks[gi + 3..].iter().cloned().collect() } else { "()".parse().unwrap() };
    let head: TokenStream = format!("<'async_recursion{}>", gens).parse().unwrap();
    let mut o: Vec<TokenTree> = pre.into_iter().collect();
    o.extend(head);
    o.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, args)));
    o.extend("->".parse::<TokenStream>().unwrap());
    let a: TokenStream = "::std::pin::Pin".parse().unwrap();
    o.extend(a);
    o.extend(format!("<Box<dyn ::std::future::Future<Output = {}> + ::std::marker::Send + 'async_recursion>>", ret).parse::<TokenStream>().unwrap());
    let mut b: Vec<TokenTree> = "Box::pin".parse::<TokenStream>().unwrap().into_iter().collect();
    let mut inner: Vec<TokenTree> = "async move".parse::<TokenStream>().unwrap().into_iter().collect();
    inner.push(body);
    b.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, inner.into_iter().collect())));
    o.push(TokenTree::Group(Group::new(Delimiter::Brace, b.into_iter().collect())));
    o.into_iter().collect()
}
