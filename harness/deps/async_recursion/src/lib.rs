//! Stand-in for `async-recursion` (not available offline): boxes the body of the async function.
use proc_macro::*;
#[proc_macro_attribute]
pub fn async_recursion(_a: TokenStream, item: TokenStream) -> TokenStream {
    // `pub async fn name<G: B>(args) -> Ret { body }`: all references get the lifetime 'ar
    let toks: Vec<TokenTree> = item.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    let is = |t: Option<&TokenTree>, s: &str| t.map_or(false, |t| t.to_string() == s);
    // copy everything up to `async`
    while !is(toks.get(i), "async") { out.push(toks[i].clone()); i += 1; }
    i += 1;
    // fn name
    out.push(toks[i].clone()); out.push(toks[i + 1].clone()); i += 2;
    let mut depth = 0;
    let mut generics: Vec<TokenTree> = vec![];
    let mut had = false;
    if is(toks.get(i), "<") {
        had = true;
        loop { if is(toks.get(i), "<") { depth += 1; } if is(toks.get(i), ">") { depth -= 1; } if depth == 0 { i += 1; break; } if !(depth == 1 && is(toks.get(i), "<") && generics.is_empty() ) { generics.push(toks[i].clone()); } else { } i += 1; }
    }
    let g: String = generics.into_iter().collect::<TokenStream>().to_string();
    let g = g.trim_start_matches('<').to_string();
    let args = match &toks[i] { TokenTree::Group(g) => g.stream(), _ => panic!("args") };
    i += 1;
    fn relife(s: TokenStream) -> String { let mut o = String::new(); for t in s { match t { TokenTree::Punct(p) if p.as_char() == '&' => o.push_str("&'ar "), TokenTree::Group(g) => { let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{", "}"), Delimiter::None => ("", "") }; o.push_str(a); o.push_str(&relife(g.stream())); o.push_str(b); }, t => { o.push_str(&t.to_string()); match &t { TokenTree::Punct(p) if p.spacing() == Spacing::Joint => (), _ => o.push(' ') } } } } o }
    let body = toks.last().unwrap().to_string();
    let ret: String = toks[i + 2..toks.len() - 1].iter().cloned().collect::<TokenStream>().to_string();
    let head: String = out.into_iter().collect::<TokenStream>().to_string();
    let r = format!("{} <'ar, {}> ({}) -> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = {}> + Send + 'ar>> where {} {{ Box::pin(async move {} ) }}", head, g, relife(args), ret, if had { lifetimes(&g) } else { String::new() }, body);
    r.parse().unwrap()
}
fn lifetimes(g: &str) -> String { let n = g.split(':').next().unwrap().trim(); format!("{}: 'ar", n) }
