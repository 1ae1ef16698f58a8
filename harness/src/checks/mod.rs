pub mod cli;
pub mod export;
pub mod flaws;
pub mod hier;
pub mod leak;
pub mod lsp;
pub mod meta;
pub mod robust;
pub mod texts;
pub mod util;

use crate::core::Check;

pub fn all() -> Vec<&'static Check> {
    let mut v: Vec<&'static Check> = vec![];
    v.extend(robust::CHECKS);
    v.extend(export::CHECKS);
    v.extend(flaws::CHECKS);
    v.extend(hier::CHECKS);
    v.extend(meta::CHECKS);
    v.extend(cli::CHECKS);
    v.extend(lsp::CHECKS);
    v.extend(leak::CHECKS);
    v.extend(texts::CHECKS);
    v
}
