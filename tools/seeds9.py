"""planted bugs, ninth batch: the options of a document"""

P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"
D = "fn opts(s: &str) -> String {\n    let d = format!(\"{:?}\", ast3::Document::from_str(s).unwrap());\n    let i = d.find(\"documentoptions: \").unwrap() + 17;\n    let j = d[i..].find(\"preamable\").map(|x| x + i).unwrap_or(d.len());\n    d[i..j].to_string()\n}\n"


def main(body):
    return P + D + "fn main() {\n" + body + "\n}\n"


F = "src/ast3/document.rs"
SEEDS = [
 dict(id="s68-blank-options-left-out", property="C30",
  edits=[(F, "                                    .split(',')\n                                {", "                                    .split(',').filter(|opt| !opt.trim().is_empty())\n                                {")],
  needs="a list of options with nothing between two commas", breaks="the empty option is missing, the list cannot be put together again",
  demo=main(r"""
    assert_eq!(opts("\\documentclass[a,,b]{c}\\begin{document}\\end{document}").matches("(\"").count(), 3);""")),
 dict(id="s69-last-equals-sign", property="C30",
  edits=[(F, "arg.split_once('=')", "arg.rsplit_once('=')")],
  needs="an option with two equals signs", breaks="the first one becomes part of its name",
  demo=main(r"""
    assert!(opts("\\documentclass[a=b=c]{d}\\begin{document}\\end{document}").contains("(\"\", \"a\", Some((\"\", \"\", \"b=c\"))"));""")),
 dict(id="s70-white-space-inside-value-lost", property="C30",
  edits=[(F, "                                                if c.is_whitespace() && !val_started {", "                                                if c.is_whitespace() && (!val_started || val.is_empty() || equal_post.contains('\\n')) {")],
  needs="a value on a line of its own with white space in it", breaks="white space of the value is moved in front of it",
  demo=main(r"""
    assert!(opts("\\documentclass[a=\nb c]{d}\\begin{document}\\end{document}").contains("\"b c\""));""")),
 dict(id="s71-white-space-after-name-and-value", property="C30",
  edits=[(F, "                                    if !buffer.is_empty() {\n                                        post = buffer;\n                                    }\n\n                                    if let", "                                    if !prec.is_empty() || !arg.is_empty() {\n                                        post = buffer;\n                                    }\n\n                                    if let")],
  needs="an option that is white space only", breaks="its white space is in no part of the option",
  demo=main(r"""
    assert!(opts("\\documentclass[a, ]{d}\\begin{document}\\end{document}").contains("(\"\", \"\", None, \" \")"));""")),
 dict(id="s72-name-joined", property="C30",
  edits=[(F, "                                                    if !buffer.is_empty() {\n                                                        key.push_str(&buffer);\n                                                        buffer.clear();\n                                                    }\n                                                    key.push(c)", "                                                    if !buffer.is_empty() {\n                                                        key.push(' ');\n                                                        buffer.clear();\n                                                    }\n                                                    key.push(c)")],
  needs="an option with a value whose name has white space in it that is not one blank", breaks="the name is recorded with one blank instead",
  demo=main(r"""
    assert!(opts("\\documentclass[a  b=c]{d}\\begin{document}\\end{document}").contains("\"a  b\""));""")),
]
