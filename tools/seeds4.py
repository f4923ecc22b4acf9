"""planted bugs, fourth batch: what stands between delimiters"""
P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"


def main(body):
    return P + "fn main() {\n" + body + "\n}\n"


SEEDS = [
 dict(id="s34-inner-display-maths-first", property="C22",
  edits=[("src/ast3/mathsblock.rs", "                        && mode == MathsMode::DoubleDollar(MathsVariant::Brackets)\n                        && depth == 1 =>", "                        && mode == MathsMode::DoubleDollar(MathsVariant::Brackets)\n                        && (depth == 1 || buffer.len() == 1) =>")],
  needs="display maths brackets directly inside display maths brackets, the inner ones empty", breaks="the inner closing bracket closes the outer block",
  demo=main(r'''
    let d = ast3::Document::from_str("\\begin{document}\\[\\[\\]a\\]\\end{document}").unwrap();
    assert_eq!(d.chunks_body().len(), 1);''')),
 dict(id="s35-blank-inline-maths", property="C22",
  edits=[("src/ast3/mathsblock.rs", "                                    if text_buffer.is_empty() && buffer.is_empty() =>", "                                    if text_buffer.trim().is_empty() && buffer.is_empty() =>")],
  needs="inline maths of blanks only", breaks="the second dollar opens display maths instead of closing inline maths",
  demo=main(r'''
    let d = ast3::Document::from_str("\\begin{document}$ $x\\end{document}").unwrap();
    assert_eq!(d.chunks_body().len(), 2);''')),
 dict(id="s36-lone-dollars", property="C22",
  edits=[("src/ast3/mathsblock.rs", "        if mode != MathsMode::None {", "        if mode != MathsMode::None\n            && !(mode == MathsMode::DoubleDollar(MathsVariant::Dollars) && buffer.is_empty())\n        {")],
  needs="two dollars at the very end with nothing after them", breaks="dollars without partner are dropped without an error",
  demo=main(r'''
    assert!(ast3::Document::from_str("\\begin{document}a$$\\end{document}").is_err());''')),
 dict(id="s37-label-prefix", property="C23",
  edits=[("src/ast2/document.rs", "                            if buffer_stack.last()\n                                != Some(c.arguments().first().unwrap().1.chunks()) =>", "                            if buffer_stack.last().and_then(|label| label.first())\n                                != c.arguments().first().unwrap().1.chunks().first() =>")],
  needs="an end whose label agrees with that of begin in its first chunk only", breaks="an end closes an environment of another label",
  demo=main(r'''
    assert!(ast2::Document::from_str("\\begin{a\\b}x\\end{a\\c}").is_err());''')),
 dict(id="s38-end-with-two-arguments", property="C23",
  edits=[("src/ast2/document.rs", "                            if c.arguments().len() > 1 {", "                            if c.arguments().len() > 1\n                                && c.arguments()[1].1.variant() == ast1::ScopeVariant::Curly\n                            {")],
  needs="an end with a second argument in square or round brackets", breaks="the argument disappears instead of being an error",
  demo=main(r'''
    assert!(ast2::Document::from_str("\\begin{a}x\\end{a}[b]").is_err());''')),
 dict(id="s40-unclosed-inner", property="C23",
  edits=[("src/ast2/document.rs", "        if let Some(label) = buffer_stack.first() {", "        if let (Some(label), false) = (buffer_stack.first(), buffer.is_empty()) {")],
  needs="a begin at the very end of a document", breaks="an environment that is never closed is dropped without an error",
  demo=main(r'''
    assert!(ast2::Document::from_str("x\\begin{a}").is_err());''')),
 dict(id="s41-label-argument-anywhere", property="C23",
  edits=[("src/ast2/document.rs", "                        .first()\n                        .is_some_and(|arg| arg.1.variant() == ast1::ScopeVariant::Curly)", "                        .iter()\n                        .any(|arg| arg.1.variant() == ast1::ScopeVariant::Curly)")],
  needs="a begin whose first argument is not in curly brackets but a later one is", breaks="an argument in square brackets is taken for the label",
  demo=main(r'''
    assert!(ast2::Document::from_str("\\begin[a]{b}x\\end[a]").is_err() && ast2::Document::from_str("\\begin[a]{b}x\\end{a}").is_err());''')),
 dict(id="s42-dollar-before-chunk", property="C22",
  edits=[("src/ast3/mathsblock.rs", "                                    if text_buffer.is_empty() && buffer.is_empty() =>", "                                    if text_buffer.is_empty()\n                                        && !matches!(\n                                            buffer.last().map(|c: &ast2::Chunk| c.variant()),\n                                            Some(ast2::ChunkVariant::Command(_) | ast2::ChunkVariant::Text(_))\n                                        ) =>")],
  needs="inline maths that ends with a scope or an environment before its closing dollar", breaks="the closing dollar after a scope opens display maths",
  demo=main(r'''
    let d = ast3::Document::from_str("\\begin{document}${a}$x\\end{document}").unwrap();
    assert_eq!(d.chunks_body().len(), 2);''')),
]
