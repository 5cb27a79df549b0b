import os
d='/verif/harness/src/'
ms=[m for m in ('c%02d'%i for i in range(1,30)) if os.path.exists(d+m+'.rs')]
s='''//! Verification harnesses. Built twice: to LLVM IR for the symbolic executor, and natively for
//! replaying what the executor reports.
#![allow(dead_code, clippy::all)]
pub mod sym;
#[macro_use]
pub mod util;
pub mod gen;
pub mod lines;
pub mod mutate;
'''
for m in ms: s+='#[cfg(feature = "%s")]\npub mod %s;\n'%(m,m)
s+='''
pub fn all() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, fn())> = vec![];
'''
for m in ms: s+='    #[cfg(feature = "%s")]\n    v.extend_from_slice(%s::TABLE);\n'%(m,m)
s+='    v\n}\n'
open(d+'lib.rs','w').write(s)
