"""planted bugs, eighth batch: the class of a document"""

P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"
D = "fn doc(s: &str) -> Result<ast3::Document, Error> {\n    ast3::Document::from_str(s)\n}\n"


def main(body):
    return P + D + "fn main() {\n" + body + "\n}\n"


SEEDS = [
 dict(id="s62-second-class-after-options", property="C29",
  edits=[("src/ast3/document.rs", "ast2::ScopeVariant::Curly if construct.documentclass.is_some() => {\n                                return", "ast2::ScopeVariant::Curly\n                                if construct.documentclass.is_some()\n                                    && construct.documentoptions.is_empty() =>\n                            {\n                                return")],
  needs="a documentclass with two names and options in front of the second", breaks="the second name takes the place of the first without an error",
  demo=main(r"""
    assert!(doc("\\documentclass{a}[b]{c}\\begin{document}\\end{document}").is_err());
    assert!(doc("\\documentclass{a}{c}\\begin{document}\\end{document}").is_err());""")),
 dict(id="s63-class-is-its-text-only", property="C29",
  edits=[("src/ast3/document.rs", "                                construct.documentclass = Some(\n                                    ast2::Document::new_unchecked(scope.chunks_owned()).to_string(),\n                                )",
          "                                construct.documentclass = Some(\n                                    scope\n                                        .chunks_owned()\n                                        .into_iter()\n                                        .filter_map(|chunk| match chunk.variant_owned() {\n                                            ast2::ChunkVariant::Command(_) => None,\n                                            variant => Some(variant.to_string()),\n                                        })\n                                        .collect::<String>(),\n                                )")],
  needs="a class whose name has a command in it", breaks="the command is missing in the class",
  demo=main(r"""
    let d = doc("\\documentclass{my\\_class}\\begin{document}\\end{document}").unwrap();
    assert!(format!("{:?}", d).contains("documentclass: Some(\"my\\\\_class\")"), "{:?}", d);""")),
 dict(id="s64-class-after-the-document", property="C29",
  edits=[("src/ast3/document.rs", "if cmd.label().as_str() == \"documentclass\"\n                        && cursor == CursorState::Preamable =>", "if cmd.label().as_str() == \"documentclass\"\n                        && (cursor == CursorState::Preamable\n                            || construct.documentclass.is_none()) =>"),
         ("src/ast3/document.rs", "                    }\n                    preamable.push(ast2::Chunk::new_unchecked(line_no, variant))", "                    }\n                    if cursor == CursorState::Trailing {\n                        trailing.push(ast2::Chunk::new_unchecked(line_no, variant))\n                    } else {\n                        preamable.push(ast2::Chunk::new_unchecked(line_no, variant))\n                    }")],
  needs="a document without a class that is followed by the source of another one", breaks="it gets the class of the other one",
  demo=main(r"""
    let d = doc("\\begin{document}\\end{document}\\documentclass{a}").unwrap();
    assert!(format!("{:?}", d).contains("documentclass: None"), "{:?}", d);""")),
 dict(id="s65-second-documentclass-without-name", property="C29",
  edits=[("src/ast3/document.rs", "                    if construct.documentclass.is_some() {\n                        return Err(crate::Error::new(\n                            line_no,\n                            crate::ErrorType::DoubleDocumentClass,",
          "                    if construct.documentclass.is_some() && !cmd.arguments().is_empty() {\n                        return Err(crate::Error::new(\n                            line_no,\n                            crate::ErrorType::DoubleDocumentClass,")],
  needs="a second documentclass command that has no arguments", breaks="it is accepted",
  demo=main(r"""
    assert!(doc("\\documentclass{a}\n\\documentclass\n\\begin{document}\\end{document}").is_err());""")),
 dict(id="s66-round-brackets-name-the-class", property="C29",
  edits=[("src/ast3/document.rs", "                            ast2::ScopeVariant::Curly if construct.documentclass.is_some() => {", "                            ast2::ScopeVariant::Curly | ast2::ScopeVariant::Round\n                                if construct.documentclass.is_some() =>\n                            {"),
         ("src/ast3/document.rs", "                            ast2::ScopeVariant::Curly => {\n                                construct", "                            ast2::ScopeVariant::Curly | ast2::ScopeVariant::Round => {\n                                construct")],
  needs="a documentclass with an argument in round brackets, which is no name", breaks="the argument becomes the class",
  demo=main(r"""
    let d = doc("\\documentclass(a){b}\\begin{document}\\end{document}").unwrap();
    assert!(format!("{:?}", d).contains("documentclass: Some(\"b\")"), "{:?}", d);""")),
 dict(id="s67-empty-class-is-none", property="C29",
  edits=[("src/ast3/document.rs", "                                construct.documentclass = Some(\n                                    ast2::Document::new_unchecked(scope.chunks_owned()).to_string(),\n                                )",
          "                                let class =\n                                    ast2::Document::new_unchecked(scope.chunks_owned()).to_string();\n                                construct.documentclass = (!class.is_empty()).then_some(class)")],
  needs="a documentclass with nothing in its curly brackets, followed by another one", breaks="the empty class counts as none, so that the second one is accepted",
  demo=main(r"""
    let d = doc("\\documentclass{}\\begin{document}\\end{document}").unwrap();
    assert!(format!("{:?}", d).contains("documentclass: Some(\"\")"), "{:?}", d);
    assert!(doc("\\documentclass{}{a}\\begin{document}\\end{document}").is_err());""")),
]
