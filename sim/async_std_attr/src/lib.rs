//! `#[async_std::main]` for the simulated runtime: the body becomes the simulated system.
use proc_macro::{Group, Ident, Span, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
	// rename `fn NAME` to `fn sim_async_main`, keep everything else
	let mut name = None;
	let mut out: Vec<TokenTree> = Vec::new();
	let mut after_fn = false;
	for t in item {
		let t = match t {
			TokenTree::Ident(i) if after_fn && name.is_none() => {
				name = Some(i.to_string());
				Ident::new("sim_async_main", Span::call_site()).into()
			}
			TokenTree::Group(g) => {
				let mut n = Group::new(g.delimiter(), g.stream());
				n.set_span(g.span());
				n.into()
			}
			t => t,
		};
		after_fn = matches!(&t, TokenTree::Ident(i) if i.to_string() == "fn");
		out.push(t);
	}
	let mut s: TokenStream = out.into_iter().collect();
	let tail = "fn main() {
		::async_std::sim_main(::std::boxed::Box::pin(async {
			#[allow(unreachable_code)]
			{ let _ = sim_async_main().await; }
		}))
	}";
	s.extend(tail.parse::<TokenStream>().unwrap());
	s
}
