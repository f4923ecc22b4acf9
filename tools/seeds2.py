P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"
def main(body):
    return P + "fn main() {\n" + body + "\n}\n"
SEEDS = [
 dict(id="s14-environment-first-argument-only", property="C11",
  edits=[("src/ast2/environment.rs", "        for (_, arg) in self.arguments.iter() {\n            arg.validate()?\n        }\n\n        for chunk in self.content", "        if let Some((_, arg)) = self.arguments.first() {\n            arg.validate()?\n        }\n\n        for chunk in self.content")],
  needs="an environment with at least two arguments whose second or later argument holds an invalid text", breaks="validation of an environment looks at the first argument only",
  demo=main(r'''
    let bad = ast2::Scope::new_unchecked(vec![ast2::Chunk::new_unchecked(1, ast2::ChunkVariant::Text("a{b".to_string()))], ast2::ScopeVariant::Square);
    let good = ast2::Scope::new_unchecked(vec![], ast2::ScopeVariant::Square);
    let e = ast2::Environment::new_unchecked("x".to_string(), vec![(String::new(), good), (String::new(), bad)], vec![], String::new(), String::new());
    assert!(e.validate().is_err());''')),
 dict(id="s15-blank-line-with-spaces", property="C11",
  edits=[("src/ast3/chunkvariant.rs", "                    } else if !c.is_whitespace() {\n                        consec = false;", "                    } else {\n                        consec = false;")],
  needs="a stage 3 text with two newlines separated by spaces or tabs", breaks="an empty line that holds blanks is accepted inside a stage 3 text",
  demo=main(r'''
    assert!(ast3::ChunkVariant::Text("a\n \nb".to_string()).validate().is_err());
    assert!(ast3::ChunkVariant::Text("a\nb\nc".to_string()).validate().is_ok());''')),
 dict(id="s16-break-counts-in-a-row", property="C12",
  edits=[("src/ast3/chunkvariant.rs", "                    if c == '\\n' {\n                        new_lines += 1;\n                    }", "                    match c {\n                        '\\n' => new_lines += 1,\n                        _ if new_lines < 2 => new_lines = 0,\n                        _ => {}\n                    }")],
  needs="a paragraph break whose newlines are separated by blanks", breaks="a paragraph break with a blank between its newlines is rejected as too short",
  demo=main(r'''
    assert!(ast3::ChunkVariant::ParagraphBreak("\n \n".to_string()).validate().is_ok());''')),
 dict(id="s17-push-merges-with-earlier-text", property="C13",
  edits=[("src/ast3/document.rs", "            if let Some(last) = vec.last_mut() {\n                if let ChunkVariant::Text(last_s) = last.variant_mut() {", "            for last in vec.iter_mut().rev() {\n                if let ChunkVariant::Text(last_s) = last.variant_mut() {")],
  needs="pushing a text after a command that itself follows a text", breaks="the pushed text is appended to an earlier text instead of the end of the section",
  demo=main(r'''
    let mut d = ast3::Document::from_str("\\begin{document}\\end{document}").unwrap();
    d.push_body(ast3::ChunkVariant::Text("a".to_string())).unwrap();
    d.push_body(ast3::ChunkVariant::Command(ast3::Command::new("b".to_string(), vec![]).unwrap())).unwrap();
    d.push_body(ast3::ChunkVariant::Text(" c".to_string())).unwrap();
    assert_eq!(d.to_string(), "\\begin{document}a\\b c\\end{document}");''')),
 dict(id="s18-failed-push-leaves-chunk", property="C13",
  edits=[("src/ast2/document.rs", "        if expected_line != chunk.line_no() {\n            return Err(crate::InternalError::IncorrectChunkLineNumber {\n                expected: expected_line,\n                got: chunk.line_no(),\n            });\n        }\n\n        self.push_chunk_unchecked(chunk);\n        Ok(())", "        let got = chunk.line_no();\n        self.push_chunk_unchecked(chunk);\n\n        if expected_line != got {\n            return Err(crate::InternalError::IncorrectChunkLineNumber {\n                expected: expected_line,\n                got,\n            });\n        }\n\n        Ok(())")],
  needs="pushing a chunk with a wrong line number and using the document afterwards", breaks="the rejected chunk stays in the document",
  demo=main(r'''
    let mut d = ast2::Document::from_str("a\n").unwrap();
    assert!(d.push_chunk(ast2::Chunk::new_unchecked(7, ast2::ChunkVariant::Text("b".to_string()))).is_err());
    assert_eq!(d.to_string(), "a\n");''')),
 dict(id="s19-decompose-order", property="C14",
  edits=[("src/ast3/document.rs", "            self.body_args,\n            self.body_begin_prec,\n            self.body_end_prec,\n            self.trailing,\n        )", "            self.body_args,\n            self.body_end_prec,\n            self.body_begin_prec,\n            self.trailing,\n        )")],
  needs="a document with different whitespace after \\begin and \\end", breaks="decompose exchanges the whitespace of begin and end",
  demo=main(r'''
    let d = ast3::Document::from_str("\\begin {document}a\\end\n{document}").unwrap();
    let (_, _, _, _, _, b, e, _) = d.decompose();
    assert_eq!((b.as_str(), e.as_str()), (" ", "\n"));''')),
 dict(id="s20-environment-new-whitespace", property="C14",
  edits=[("src/ast2/environment.rs", "            prec_begin,\n            prec_end,\n        };\n\n        out.validate()?;", "            prec_begin: prec_end,\n            prec_end: prec_begin,\n        };\n\n        out.validate()?;")],
  needs="constructing an environment with different whitespace after \\begin and \\end", breaks="the checked constructor exchanges the two",
  demo=main(r'''
    let e = ast2::Environment::new("x".to_string(), vec![], vec![], " ".to_string(), String::new()).unwrap();
    assert_eq!(e.to_string(), "\\begin {x}\\end{x}");''')),
 dict(id="s21-is-closing-round", property="C15",
  edits=[("src/ast1/scopevariant.rs", "matches!(c, '}' | ']' | ')')", "matches!(c, '}' | ']' | '>')")],
  needs="a round closing bracket", breaks="a round bracket is not recognised as closing",
  demo=main(r'''
    assert!(ast1::ScopeVariant::is_closing(')'));
    assert!(ast1::ChunkVariant::Text("a)".to_string()).validate().is_err());''')),
 dict(id="s22-validate-lines-trimmed", property="C12",
  edits=[("src/ast1/document.rs", "            chunk.validate()?;\n\n            expected_line += chunk.lines() - 1;\n        }\n\n        Ok(())", "            chunk.validate()?;\n\n            expected_line += chunk.to_string().trim_end().matches('\\n').count() as u32;\n        }\n\n        Ok(())")],
  needs="a document with a chunk that ends in a newline, followed by another one", breaks="validation computes the wrong line for the chunk after one that ends in a newline",
  demo=main(r'''
    let d = ast1::Document::from_str("a\n\\b").unwrap();
    assert!(d.validate().is_ok());''')),
 dict(id="s23-closing-bracket-stage3", property="C15",
  edits=[("src/ast3/scopevariant.rs", "            Self::Curly => '}',\n            Self::Round => ')',\n            Self::Square => ']',", "            Self::Curly => '}',\n            Self::Square => ')',\n            Self::Round => ']',")],
  needs="a round or square scope in stage 3", breaks="round and square scopes close with each other's bracket",
  demo=main(r'''
    assert_eq!(ast3::ScopeVariant::Round.close(), ')');''')),
]
