"""planted bugs, seventh batch: operations that do not end"""

P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"


def main(body):
    # an operation that does not end is stopped by the time limit of the demonstration or runs out of stack
    return P + "fn main() {\n" + body + "\n}\n"


SEEDS = [
 dict(id="s56-byte-order-mark-read-again", property="C28",
  edits=[("src/ast1/document.rs", "        let mut chunks = Vec::new();\n\n        // the current line number",
          "        // white space before the text is of no interest if it is led in by a byte order mark\n        if s.starts_with('\\u{feff}') {\n            return Self::from_str(s.trim_start());\n        }\n\n        let mut chunks: Vec<Chunk> = Vec::new();\n\n        // the current line number")],
  needs="a source that begins with a byte order mark, which is not white space", breaks="the parser calls itself on the same text for ever",
  demo=main(r"""
    let _ = ast1::Document::from_str("\u{feff}a");""")),
 dict(id="s57-comment-at-the-very-end", property="C28",
  edits=[("src/ast1/document.rs", "        for c in s.chars() {", "        let mut cursor = s.chars().peekable();\n\n        while let Some(c) = cursor.next() {"),
         ("src/ast1/document.rs", "                '%' if !escaped => {\n                    comment = true;\n                    continue;", "                '%' if !escaped => {\n                    comment = true;\n                    while cursor.peek() != Some(&'\\n') {\n                        cursor.next();\n                    }\n                    continue;")],
  needs="a comment in the last line of a source that does not end in a newline", breaks="the parser looks for the end of the line for ever",
  demo=main(r"""
    assert!(ast1::Document::from_str("a % b\nc").is_ok());
    assert!(ast1::Document::from_str("a % b").is_ok());""")),
 dict(id="s58-newline-in-label-found-again", property="C28",
  edits=[("src/ast2/command.rs", "        let mut total = self.label.chars().filter(|c| c == &'\\n').count() as u32;\n\n        for (prec, arg) in self.arguments.iter() {\n            total += prec",
          "        let mut total = 0;\n        let mut rest = self.label.as_str();\n\n        while let Some(at) = rest.find('\\n') {\n            total += 1;\n            rest = &rest[at..];\n        }\n\n        for (prec, arg) in self.arguments.iter() {\n            total += prec")],
  needs="a command made of a backslash at the end of a line", breaks="counting its lines never ends",
  demo=main(r"""
    assert_eq!(ast2::Document::from_str("a\\\nb").unwrap().lines(), 2);""")),
 dict(id="s59-break-counted-by-its-chunk", property="C28",
  edits=[("src/ast3/chunkvariant.rs", "            Self::Text(s) | Self::ParagraphBreak(s) => {\n                s.chars().filter(|c| c == &'\\n').count() as u32 + 1\n            }\n",
          "            Self::Text(s) => s.chars().filter(|c| c == &'\\n').count() as u32 + 1,\n            Self::ParagraphBreak(s) if !s.contains('\\r') => {\n                s.chars().filter(|c| c == &'\\n').count() as u32 + 1\n            }\n            Self::ParagraphBreak(_) => super::Chunk::new_unchecked(1, self.clone()).lines(),\n")],
  needs="the number of lines of something with a paragraph break of another system in it", breaks="the chunk asks its variant, the variant its chunk, for ever",
  demo=main(r"""
    let v = ast3::ChunkVariant::ParagraphBreak("\r\n\r\n".to_string());
    assert_eq!(v.lines(), 3);""")),
 dict(id="s60-square-scope-converted-by-document", property="C28",
  edits=[("src/ast2/scope.rs", "        Ok(Self {\n            variant: value.variant().into(),\n            chunks: Document::try_from(",
          "        // nothing but an opening and a closing bracket in the text\n        if value.variant() == ast1::ScopeVariant::Square && value.chunks().is_empty() {\n            let around = ast1::Document::new_unchecked(vec![ast1::Chunk::new_unchecked(\n                1,\n                ast1::ChunkVariant::Scope(value),\n            )]);\n            return match Document::try_from(around)?.chunks_owned().remove(0).variant_owned() {\n                crate::ast2::ChunkVariant::Scope(scope) => Ok(scope),\n                _ => unreachable!(\"a scope is converted to a scope\"),\n            };\n        }\n\n        let variant = value.variant().into();\n        Ok(Self {\n            variant,\n            chunks: Document::try_from(")],
  needs="a pair of square brackets with nothing in between", breaks="the scope is converted as part of a document, which converts the scope, for ever",
  demo=main(r"""
    assert_eq!(ast2::Document::from_str("a\\b[]").unwrap().to_string(), "a\\b[]");""")),
 dict(id="s61-rest-of-paragraph-looked-at-again", property="C28",
  edits=[("src/ast3/paragraph.rs", "                if !buffer.is_empty() {\n                    if consec_newlines > 1 {\n                        new.push(Chunk::new_unchecked(\n                            buffer_line,\n                            ChunkVariant::ParagraphBreak(std::mem::take(&mut buffer)),\n                        ));\n                    } else {\n                        text_buffer.push_str(&buffer);\n\n                        if !text_buffer.is_empty() {\n                            new.push(Chunk::new_unchecked(\n                                text_buffer_line,\n                                ChunkVariant::Text(text_buffer),\n                            ))\n                        }\n                    }\n                } else if",
          "                while !buffer.is_empty() {\n                    if consec_newlines > 1 {\n                        new.push(Chunk::new_unchecked(\n                            buffer_line,\n                            ChunkVariant::ParagraphBreak(std::mem::take(&mut buffer)),\n                        ));\n                    } else if !text_buffer.is_empty() || !buffer.starts_with('\\n') {\n                        text_buffer.push_str(&std::mem::take(&mut buffer));\n                    } else if consec_newlines == 1 && buffer.trim_matches(' ').len() == 1 {\n                        text_buffer.push_str(&std::mem::take(&mut buffer));\n                    }\n                }\n\n                if")],
  needs="a text that is a newline followed by white space with a tab in it only", breaks="what is left over is never moved to the text",
  demo=main(r"""
    let d = ast3::Document::from_str("\\begin{document}x{a}\n\t{b}\\end{document}").unwrap();
    assert_eq!(d.to_string(), "\\begin{document}x{a}\n\t{b}\\end{document}");""")),
]
