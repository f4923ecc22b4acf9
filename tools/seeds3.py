P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"
def main(body):
    return P + "fn main() {\n" + body + "\n}\n"
SEEDS = [
 dict(id="s24-digit-commands-take-arguments", property="C16",
  edits=[("src/ast1/document.rs", "                        buffer_line_no = char_line_no;\n\n                        buffer = Buffer::command();\n                        buffer.push(c);\n                        if !c.is_ascii_alphabetic() {\n                            flush!();", "                        buffer_line_no = char_line_no;\n\n                        buffer = Buffer::command();\n                        buffer.push(c);\n                        if !c.is_ascii_alphanumeric() {\n                            flush!();")],
  needs="an escaped digit directly after another command, followed by a bracket", breaks="a command that is a single digit swallows the following scope as its argument, but only when it follows another command",
  demo=main(r'''
    let d = ast1::Document::from_str("\\a \\1{x}").unwrap();
    assert!(d.chunks().iter().all(|c| match c.variant() { ast1::ChunkVariant::Command(c) if c.label() == "1" => c.arguments().is_empty(), _ => true }));
    assert!(d.chunks().iter().any(|c| matches!(c.variant(), ast1::ChunkVariant::Scope(_))));''')),
 dict(id="s25-tilde-before-argument", property="C16",
  edits=[("src/ast1/document.rs", "                    c if *depth == 0 && !trailing.is_empty() => {\n", "                    c if *depth == 0 && c == '~' && !trailing.is_empty() => trailing.push(c),\n                    c if !trailing.is_empty() && *depth == 0 => {\n")],
  needs="a command, whitespace, a tilde and then a bracket", breaks="a tilde after whitespace is taken as space before the next argument",
  demo=main(r'''
    let d = ast1::Document::from_str("\\a ~{x}").unwrap();
    assert_eq!(d.to_string(), "\\a ~{x}");
    for c in d.chunks() {
        if let ast1::ChunkVariant::Command(c) = c.variant() {
            assert!(c.arguments().iter().all(|(p, _)| p.chars().all(char::is_whitespace)));
        }
    }''')),
 dict(id="s26-bare-end-stays-command", property="C17",
  edits=[("src/ast2/document.rs", "                    if !matches!(c.label().as_str(), \"begin\" | \"end\") {\n", "                    if !matches!(c.label().as_str(), \"begin\" | \"end\")\n                        || (c.label() == \"end\"\n                            && c.arguments().is_empty()\n                            && buffer_stack.is_empty()\n                            && !chunks.is_empty())\n                    {\n")],
  needs="an end command without arguments, outside of any environment, after other content", breaks="an end command without label outside of any environment is kept as an ordinary command",
  demo=main(r'''
    fn bad(chunks: &[ast2::Chunk]) -> bool {
        chunks.iter().any(|c| match c.variant() {
            ast2::ChunkVariant::Command(c) => matches!(c.label().as_str(), "begin" | "end"),
            ast2::ChunkVariant::Environment(e) => bad(&e.clone().decompose().2),
            _ => false,
        })
    }
    for s in ["x\\end", "{x\\end}", "\\begin{a}x\\begin\\end{a}", "\\begin{a}\\begin y\\end{a}", "\\begin{a}\\begin{b}\\end\\end{b}\\end{a}"] {
        if let Ok(d) = ast2::Document::from_str(s) {
            assert!(!bad(d.chunks()));
        }
    }
    let c = ast1::Command::new_unchecked("end".to_string(), Vec::new());
    assert!(ast2::Document::try_from(ast1::Document::new_unchecked(vec![ast1::Chunk::new_unchecked(1, ast1::ChunkVariant::Command(c))])).is_err());''')),
 dict(id="s27-markup-first-not-split", property="C18",
  edits=[("src/ast3/mathsblock.rs", "        out = Paragraph::from_chunks(out);\n\n        Ok(out)", "        // nothing to separate in what starts with markup\n        if matches!(out.first().map(Chunk::variant), Some(ChunkVariant::Text(_))) {\n            out = Paragraph::from_chunks(out);\n        }\n\n        Ok(out)")],
  needs="a maths block whose content starts with markup and has a text with an empty line later", breaks="paragraph breaks are not recognised in maths blocks that start with a command or scope",
  demo=main(r'''
    let d = ast3::Document::from_str("\\begin{document}$\\x a\n\nb$\\end{document}").unwrap();
    let ast3::ChunkVariant::MathsBlock(m) = d.chunks_body()[0].variant() else { panic!() };
    assert!(m.validate().is_ok(), "an empty line is left in a text");''')),
 dict(id="s28-break-at-end-of-text", property="C18",
  edits=[("src/ast3/paragraph.rs", "                if !buffer.is_empty() {\n                    if consec_newlines > 1 {", "                if !buffer.is_empty() {\n                    if consec_newlines > 2 || (consec_newlines == 2 && buffer.len() == 2) {")],
  needs="a text that ends in an empty line made of exactly two newlines with blanks around or between them", breaks="such an ending becomes a text instead of a paragraph break",
  demo=main(r'''
    let d = ast3::Document::from_str("\\begin{document}a\n \n\\x{}\\end{document}").unwrap();
    for c in d.chunks_body() {
        if let ast3::ChunkVariant::Text(s) = c.variant() { assert!(!s.contains("\n \n"), "{s:?}"); }
    }''')),
 dict(id="s29-stray-square-maths-end", property="C19",
  edits=[("src/ast3/mathsblock.rs", "                    if mode == MathsMode::None && matches!(cmd.label().as_str(), \")\" | \"]\") =>", "                    if mode == MathsMode::None\n                        && (cmd.label() == \")\" || (cmd.label() == \"]\" && out.is_empty())) =>")],
  needs="a closing display maths bracket without opening one, after other content", breaks="a stray \\] after other content is kept as an ordinary command",
  demo=main(r'''
    assert!(ast3::Document::from_str("\\begin{document}\\]\\end{document}").is_err());
    assert!(ast3::Document::from_str("\\begin{document}a\\]\\end{document}").is_err());''')),
 dict(id="s30-unexpected-end-names-last", property="C21",
  edits=[("src/ast2/document.rs", "                                        c.arguments_owned().remove(0).1.chunks_owned(),\n", "                                        c.arguments_owned().pop().unwrap().1.chunks_owned(),\n")],
  needs="an end command with two arguments that closes nothing", breaks="the error names the second argument instead of the environment",
  demo=main(r'''
    let e = ast2::Document::from_str("\\begin{b}\\end{a}{c}\\end{b}").unwrap_err();
    assert!(matches!(e.r#type, ErrorType::UnexpectedEnd(ref s) if s == "a"), "{e:?}");''')),
 dict(id="s31-closing-named-after-argument", property="C21",
  edits=[("src/ast1/document.rs", "                            crate::ErrorType::UnexpectedClosing(ScopeVariant::from_closing(c)),", "                            crate::ErrorType::UnexpectedClosing(\n                                scopes.last().map_or(ScopeVariant::from_closing(c), |arg| arg.1),\n                            ),")],
  needs="a closing bracket of one kind directly after an argument of another kind", breaks="the error names the bracket kind of the argument instead of the unexpected bracket",
  demo=main(r'''
    let e = ast1::Document::from_str("\\a[x])").unwrap_err();
    assert!(matches!(e.r#type, ErrorType::UnexpectedClosing(ast1::ScopeVariant::Round)), "{e:?}");''')),
 dict(id="s32-stray-maths-end-called-unclosed", property="C21",
  edits=[("src/ast3/mathsblock.rs", "                        crate::ErrorType::UnexpectedMathsEnd,", "                        match cmd.label().as_str() {\n                            \"]\" => crate::ErrorType::UnclosedMaths,\n                            _ => crate::ErrorType::UnexpectedMathsEnd,\n                        },")],
  needs="a display maths end that closes nothing", breaks="a stray \\] is reported as an unclosed maths block",
  demo=main(r'''
    let e = ast3::Document::from_str("\\begin{document}a\\]\\end{document}").unwrap_err();
    assert!(matches!(e.r#type, ErrorType::UnexpectedMathsEnd), "{e:?}");''')),
 dict(id="s33-round-argument-of-document-in-body", property="C20",
  edits=[("src/ast3/document.rs", "                    construct.body_args = args;\n                    construct.body = content;\n", "                    construct.body = content;\n                    construct.body_args = args;\n                    if construct.body.is_empty() {\n                        if let Some((prec, arg)) = construct.body_args.pop() {\n                            if prec.is_empty() && arg.variant() == super::ScopeVariant::Round {\n                                construct.body.push(Chunk::new_unchecked(1, ChunkVariant::Scope(arg)))\n                            } else {\n                                construct.body_args.push((prec, arg))\n                            }\n                        }\n                    }\n")],
  needs="a document environment without content whose last argument is round and follows directly", breaks="that argument becomes the body of the document",
  demo=main(r'''
    let d = ast3::Document::from_str("\\begin{document}(x)\\end{document}").unwrap();
    assert!(d.chunks_body().is_empty());
    assert_eq!(d.decompose().4.len(), 1);''')),
]
