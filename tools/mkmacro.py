#!/usr/bin/env python3
"""mkmacro.py IMPLDIR OUTDIR: /repo/impl as an ordinary library (macrosrc) with
/verif/macrocheck/main.rs beside it. Changed: proc_macro is proc_macro2, the
attribute #[proc_macro_attribute] is dropped, and parse_macro_input! (which wants
proc_macro's streams) is its own definition over proc_macro2's."""
import os, re, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(impl, out):
    src = os.path.join(out, "src")
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(os.path.join(impl, "src"), src)
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                s = open(p).read()
                s = re.sub(r"\bproc_macro::", "proc_macro2::", s)
                s = s.replace("#[proc_macro_attribute]", "").replace("extern crate proc_macro;", "")
                s = re.sub(r"\bsyn::parse_macro_input\b", "crate::own_macros::parse_macro_input", s)
                open(p, "w").write(s)
    lib = os.path.join(src, "lib.rs")
    open(lib, "a").write("""
mod own_macros {
    #[allow(unused_macros)]
    macro_rules! parse_macro_input {
        ($t:ident as $ty:ty) => {
            match syn::parse2::<$ty>($t) {
                Ok(x) => x,
                Err(e) => return e.to_compile_error(),
            }
        };
    }
    #[allow(unused_imports)]
    pub(crate) use parse_macro_input;
}
""")
    s = open(os.path.join(impl, "Cargo.toml")).read()
    v = re.search(r'^version = "([^"]+)"', s, re.M)[1]
    deps = s[s.index("[dependencies]"):]
    n = re.search(r"\n\[", deps[1:])
    if n:
        deps = deps[:n.start() + 2]
    t = f"""[package]
name = "macrosrc"
version = "{v}"
edition = "2021"

[[bin]]
name = "macrocheck"
path = "main.rs"

{deps}
[workspace]

[profile.dev]
debug = false
incremental = false
"""
    shutil.copy(os.path.join(V, "macrocheck", "main.rs"), os.path.join(out, "main.rs"))
    open(os.path.join(out, "Cargo.toml"), "w").write(t)


if __name__ == "__main__":
    os.makedirs(sys.argv[2], exist_ok=True)
    make(sys.argv[1], sys.argv[2])
