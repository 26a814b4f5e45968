"""Regenerate harness/src/p/mod.rs from the property modules present."""
import glob, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "p")
ms = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(d, "c[0-9]*.rs")))
s = "//! One module per property.\nuse crate::ctx::Ctx;\n\n"
s += "".join("pub mod %s;\n" % m for m in ms)
s += "\npub fn run(prop: &str, c: &mut Ctx) -> bool {\n    match prop {\n"
s += "".join('        "%s" => %s::run(c),\n' % (m.upper(), m) for m in ms)
s += "        _ => return false,\n    }\n    true\n}\n"
kids = [m for m in ms if "pub fn child(" in open(os.path.join(d, m + ".rs")).read()]
s += "\n/// Entry of helper processes.\npub fn child(prop: &str, args: &[String]) -> i32 {\n    match prop {\n"
s += "".join('        "%s" => %s::child(args),\n' % (m.upper(), m) for m in kids)
s += "        _ => 3,\n    }\n}\n"
open(os.path.join(d, "mod.rs"), "w").write(s)
