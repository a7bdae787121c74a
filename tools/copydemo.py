"""Compiles both copies of the scanner into one program and compares the tokens they cut texts into."""
import os, re, shutil, subprocess, sys, tempfile
MAIN = r'''#![allow(warnings)]
mod a;
mod b;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let texts = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut bad = 0;
    for t in texts.split('\u{1}') {
        let x = format!("{:?}", std::panic::catch_unwind(|| a::lex(t)).map_err(|_| ()));
        let y = format!("{:?}", std::panic::catch_unwind(|| b::lex(t)).map_err(|_| ()));
        if x != y {
            println!("{:?}:\n  {}\n  {}", t, x, y);
            bad = 1;
        }
    }
    std::process::exit(bad);
}
'''


def compare(texts):
    d = tempfile.mkdtemp()
    try:
        for n, p in (("a", "crates/parser-generator/src/parser_generator/"), ("b", "crates/postgresql-cst-parser/src/")):
            shutil.copy(p + "lexer.rs", os.path.join(d, n + ".rs"))
            shutil.copytree(p + "lexer", os.path.join(d, n))
        open(os.path.join(d, "main.rs"), "w").write(MAIN)
        open(os.path.join(d, "texts"), "w").write("\x01".join(texts))
        subprocess.run(["rustc", "--edition", "2024", "-Cdebuginfo=0", "main.rs", "-o", "m"], cwd=d, check=True, capture_output=True)
        r = subprocess.run([os.path.join(d, "m"), os.path.join(d, "texts")], capture_output=True, text=True)
        if r.returncode:
            print("FAILED: the copies differ on", r.stdout[:400].replace("\n", " "))
        sys.exit(1 if r.returncode else 0)
    finally:
        shutil.rmtree(d)
