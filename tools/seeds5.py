"""planted bugs, fifth batch: the grammar of stage 1"""

P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"


def main(body):
    return P + "fn main() {\n" + body + "\n}\n"


SEEDS = [
 dict(id="s43-escaped-closing-in-scope", property="C24",
  edits=[("src/ast1/document.rs", "                    c if *depth != 0 && escaped => {\n                        buffer.push('\\\\');\n                        buffer.push(c);\n                    }\n                    c if variant.open() == c => {", "                    c if escaped => {\n                        if *depth > 1 && variant.close() == c {\n                            *depth -= 1;\n                        }\n                        buffer.push('\\\\');\n                        buffer.push(c);\n                    }\n                    c if variant.open() == c => {")],
  needs="an escaped closing bracket inside a scope inside a scope of that kind", breaks="an escaped closing bracket closes an inner scope",
  demo=main(r"""
    assert_eq!(ast1::Document::from_str("{{a\\}}}").unwrap().chunks().len(), 1);""")),
 dict(id="s44-at-after-command", property="C24",
  edits=[("src/ast1/document.rs", "                        buffer_line_no = char_line_no;\n\n                        buffer = Buffer::command();\n                        buffer.push(c);\n                        if !c.is_ascii_alphabetic() {\n                            flush!();", "                        buffer_line_no = char_line_no;\n\n                        buffer = Buffer::command();\n                        buffer.push(c);\n                        if !c.is_ascii_alphabetic() && c != '@' {\n                            flush!();")],
  needs="an escaped at sign directly after another command, followed by text", breaks="the command named by an at sign swallows the text after it",
  demo=main(r"""
    assert_eq!(ast1::Document::from_str("\\a \\@b").unwrap().chunks().len(), 4);""")),
 dict(id="s46-label-ends-at-nonascii", property="C24",
  edits=[("src/ast1/document.rs", "                        if !c.is_ascii_alphabetic() {\n                            flush!();\n                            buffer = Buffer::text();\n                        }\n                    }\n                    c if ScopeVariant::is_opening(c) => {", "                        if !c.is_alphabetic() {\n                            flush!();\n                            buffer = Buffer::text();\n                        }\n                    }\n                    c if ScopeVariant::is_opening(c) => {")],
  needs="an escaped letter that is not an ASCII letter, in text, followed by more text", breaks="the command goes on after that letter",
  demo=main(r"""
    assert_eq!(ast1::Document::from_str("a\\\u{e9}t").unwrap().chunks().len(), 3);""")),
 dict(id="s47-closing-after-arguments", property="C24",
  edits=[("src/ast1/document.rs", "                    c if *depth == 0 && ScopeVariant::is_closing(c) => {", "                    c if *depth == 0\n                        && ScopeVariant::is_closing(c)\n                        && (scopes.len() < 2 || c == '}') =>\n                    {")],
  needs="a square or round closing bracket directly after two arguments", breaks="an unexpected closing bracket becomes text",
  demo=main(r'''
    assert!(ast1::Document::from_str("\\a{b}{c}]").is_err());''')),
 dict(id="s48-text-split-at-newlines", property="C24",
  edits=[("src/ast1/document.rs", "                Buffer::Text { .. } => match c {\n", "                Buffer::Text { content } => match c {\n                    '\\n' if !escaped && content.ends_with(\"\\n\\n\") => {\n                        flush!();\n                        buffer_line_no = char_line_no;\n                        buffer.push(c)\n                    }\n")],
  needs="three newlines in a row in a text", breaks="the text becomes two texts",
  demo=main(r"""
    assert_eq!(ast1::Document::from_str("a\n\n\nb").unwrap().chunks().len(), 1);""")),
]
