//! Runs a monitor suite inside the compiler, as a procedural macro.
use proc_macro::TokenStream;

#[proc_macro]
pub fn run(input: TokenStream) -> TokenStream {
    let args: Vec<String> = std::env::var("MON_ARGS").unwrap().split('\u{1f}').map(str::to_string).collect();
    #[cfg(feature = "wrap")]
    mon::pm::run(&args, input);
    #[cfg(not(feature = "wrap"))]
    mon::pmx::run(&args, input);
    TokenStream::new()
}
