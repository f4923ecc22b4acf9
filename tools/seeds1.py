P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"
def rt(stage, srcs, extra=""):
    return P + "fn main() {\n" + "".join('    { let s = %s; let d = ast%d::Document::from_str(s).unwrap(); assert_eq!(d.to_string(), s); }\n' % (x, stage) for x in srcs) + extra + "}\n"
WALK1 = P + r'''
fn nl(s: &str) -> u32 { s.chars().filter(|c| *c == '\n').count() as u32 }
fn walk(cs: &Vec<ast1::Chunk>) {
    let mut l = 1;
    for c in cs {
        assert_eq!(c.line_no(), l, "chunk {}", c);
        l += nl(&c.to_string());
        match c.variant() {
            ast1::ChunkVariant::Scope(s) => walk(s.chunks()),
            ast1::ChunkVariant::Command(m) => for (_, a) in m.arguments() { walk(a.chunks()) },
            _ => {}
        }
    }
}
'''
WALK2 = P + r'''
fn nl(s: &str) -> u32 { s.chars().filter(|c| *c == '\n').count() as u32 }
fn walk(cs: &Vec<ast2::Chunk>) {
    let mut l = 1;
    for c in cs {
        assert_eq!(c.line_no(), l, "chunk {}", c);
        l += nl(&c.to_string());
        match c.variant() {
            ast2::ChunkVariant::Scope(s) => walk(s.chunks()),
            ast2::ChunkVariant::Command(m) => for (_, a) in m.arguments() { walk(a.chunks()) },
            ast2::ChunkVariant::Environment(e) => { let (_, a, c, _, _) = e.clone().decompose(); for (_, a) in &a { walk(a.chunks()) } walk(&c) }
            _ => {}
        }
    }
}
'''
WALK3 = P + r'''
fn nl(s: &str) -> u32 { s.chars().filter(|c| *c == '\n').count() as u32 }
fn walk(cs: &Vec<ast3::Chunk>) {
    let mut l = 1;
    for c in cs {
        assert_eq!(c.line_no(), l, "chunk {}", c);
        l += nl(&c.to_string());
        match c.variant() {
            ast3::ChunkVariant::Scope(s) => walk(s.chunks()),
            ast3::ChunkVariant::Command(m) => for (_, a) in m.arguments() { walk(a.chunks()) },
            ast3::ChunkVariant::Environment(e) => { let (_, a, c, _, _) = e.clone().decompose(); for (_, a) in &a { walk(a.chunks()) } walk(&c) }
            _ => {}
        }
    }
}
'''
SEEDS = [
 dict(id="s01-trailing-whitespace-lost", property="C01", edits=[("src/ast1/document.rs",
   "            Buffer::Command { trailing, .. } if !trailing.is_empty() => {\n", "            Buffer::Command { trailing, .. } if trailing != \"\\t\" => {\n")],
   needs="a source ending in a command followed by exactly one tab", breaks="the last character is lost when printing the parsed document",
   demo=rt(1, [r'"\\a{x}\n"', r'"x\\a  "', r'"\\a\t"'])),
 dict(id="s02-comment-in-argument", property="C01", edits=[("src/ast1/document.rs",
   "                '%' if !escaped => {\n", "                '%' if !escaped && !matches!(&buffer, Buffer::Scope { depth, .. } if *depth > 1) => {\n")],
   needs="a comment inside brackets nested in brackets, with an unbalanced closing bracket in the comment", breaks="the comment takes part in bracket matching, so commented-out brackets change the tree",
   demo=P + 'fn main() { let s = "{a{b%}\\n}c}d"; let d = ast1::Document::from_str(s).unwrap(); assert_eq!(d.to_string(), "{a{b\\n}c}d"); }\n'),
 dict(id="s03-blank-before-newline", property="C05", edits=[("src/ast1/document.rs",
   "                                    - trailing.chars().filter(|c| *c == '\\n').count() as u32,\n", "                                    - trailing.chars().take_while(|c| *c == '\\n').count() as u32,\n")],
   needs="two commands separated by a blank and a newline", breaks="the whitespace between the commands gets the line of the second one",
   demo=WALK1 + 'fn main() { for s in ["\\\\a{x}\\n\\\\b", "\\\\a \\n \\n \\\\b", "x\\n\\\\a{}  b\\n"] { walk(ast1::Document::from_str(s).unwrap().chunks()); } }\n'),
 dict(id="s04-args-of-begin-whitespace", property="C06", edits=[("src/ast2/document.rs",
   ".map(|(prec, arg)| lines(prec) + lines(&arg.to_string()))", ".map(|(prec, arg)| prec.lines().count().saturating_sub(1) + lines(&arg.to_string()))")],
   needs="an environment whose begin command has a newline directly before an opening bracket", breaks="the chunks inside the environment start at the wrong line",
   demo=WALK2 + 'fn main() { for s in ["\\\\begin{a}b\\n\\\\c\\\\end{a}", "\\\\begin{a}\\n{x}b\\n\\\\c\\\\end{a}", "\\\\begin{a}\\n\\n [x\\n]b\\\\end{a}"] { walk(ast2::Document::from_str(s).unwrap().chunks()); } }\n'),
 dict(id="s05-nested-same-label", property="C02", edits=[("src/ast2/document.rs",
   "                            buffer_stack.push(content.chunks().clone());\n\n                            if buffer_stack.len() == 1 {\n",
   "                            let reopened = buffer_stack.last() == Some(content.chunks());\n                            buffer_stack.push(content.chunks().clone());\n\n                            if buffer_stack.len() == 1 || (reopened && buffer.is_empty()) {\n")],
   needs="an environment whose first content is another environment of the same name", breaks="the inner begin command replaces the outer one and its text is lost",
   demo=rt(2, [r'"\\begin{a}x\\begin{a}y\\end{a}\\end{a}"', r'"\\begin{a}\\begin{a}y\\end{a}\\end{a}z"'])),
 dict(id="s06-environment-label-lines", property="C04", edits=[("src/ast3/environment.rs",
   "self.label.chars().filter(|c| c == &'\\n').count() as u32 * 2;", "self.label.chars().filter(|c| c == &'\\n').count() as u32;")],
   needs="a stage 3 environment with a newline in its label", breaks="lines() counts the label once although it is printed twice",
   demo=P + 'fn main() { for l in ["a", "a\\nb"] { let e = ast3::Environment::new(l.to_string(), vec![], vec![], String::new(), String::new()).unwrap(); assert_eq!(e.lines() as usize, e.to_string().chars().filter(|c| *c == \'\\n\').count() + 1); } }\n'),
 dict(id="s07-end-without-argument", property="C08", edits=[("src/ast2/document.rs",
   "                        .is_some_and(|arg| arg.1.variant() == ast1::ScopeVariant::Curly)\n",
   "                        .map_or(buffer_stack.is_empty(), |arg| arg.1.variant() == ast1::ScopeVariant::Curly)\n")],
   needs="\\begin or \\end without argument outside any environment", breaks="the conversion panics instead of reporting a missing label",
   demo=P + 'fn main() { assert!(ast2::Document::from_str("a\\\\end").is_err()); assert!(ast2::Document::from_str("\\\\begin{a}\\\\end").is_err()); }\n'),
 dict(id="s08-paragraph-single-newline-end", property="C03", edits=[("src/ast3/paragraph.rs",
   "                } else if !text_buffer.is_empty() {\n                    text_buffer.push_str(&buffer);\n", "                } else if !text_buffer.trim().is_empty() {\n                    text_buffer.push_str(&buffer);\n")],
   needs="a piece of text made of blanks only, between two commands or scopes", breaks="the blanks are dropped from the stage 3 document",
   demo=P + 'fn main() { for s in ["{a} b", "{a}  {b}", "{a} "] { let s = format!("\\\\begin{{document}}{}\\\\end{{document}}", s); assert_eq!(ast3::Document::from_str(&s).unwrap().to_string(), s); } }\n'),
 dict(id="s09-paragraph-line", property="C10", edits=[("src/ast3/paragraph.rs",
   "                            text_buffer_line = line_no;\n                            consec_newlines = 0;\n", "                            text_buffer_line = buffer_line + 2;\n                            consec_newlines = 0;\n")],
   needs="a paragraph break with more than two newlines", breaks="the text after the break gets a line number too low",
   demo=WALK3 + 'fn main() { for s in ["a\\n\\nb", "a\\n\\n\\nb", "\\n \\n\\n c"] { walk(ast3::Document::from_str(&format!("\\\\begin{{document}}{}\\\\end{{document}}", s)).unwrap().chunks_body()); } }\n'),
 dict(id="s10-error-line-maths-end", property="C07", edits=[("src/ast3/mathsblock.rs",
   "                        line_no,\n                        crate::ErrorType::UnexpectedMathsEnd,\n", "                        buffer_line.max(1),\n                        crate::ErrorType::UnexpectedMathsEnd,\n")],
   needs="a closing maths command after the first line that does not belong to a maths block", breaks="the error names the line of the last maths block",
   demo=P + 'fn main() { for (s, l) in [("\\\\)", 1), ("a\\n\\\\)", 2), ("$a$\\n\\n\\\\]", 3)] { match ast3::Document::from_str(s) { Err(e) => assert_eq!(e.line, l), Ok(_) => panic!() } } }\n'),
 dict(id="s11-bracket-after-dollar", property="C09", edits=[("src/ast1/document.rs",
   "                Buffer::Text { .. } => match c {\n", "                Buffer::Text { content } => match c {\n"),
   ("src/ast1/document.rs",
   "                    c if ScopeVariant::is_opening(c) => {\n                        flush!();\n", "                    c if ScopeVariant::is_opening(c) && !content.ends_with('$') => {\n                        flush!();\n")],
   needs="an opening bracket directly after a dollar", breaks="the opening bracket ends up in a text chunk",
   demo=P + 'fn main() { for s in ["()", "a(a)", "$(a)$"] { if let Ok(d) = ast1::Document::from_str(s) { for c in d.chunks() { if let ast1::ChunkVariant::Text(t) = c.variant() { assert!(!t.contains(\'(\')); } } } } }\n'),
 dict(id="s12-maths-close-order", property="C03", edits=[("src/ast3/mathsblock.rs",
   "            *s = format!(\"{s}{dollars}\")\n", "            *s = if s.ends_with('\\n') { format!(\"{}{dollars}\\n\", s.trim_end_matches('\\n')) } else { format!(\"{s}{dollars}\") }\n")],
   needs="a dollar maths block whose content ends in a newline", breaks="converting back to stage 2 moves the closing dollars before the newline",
   demo=P + 'fn main() { for s in ["$a$", "$$a\\n$$b", "$a\\n\\n$"] { let s = format!("\\\\begin{{document}}{}\\\\end{{document}}", s); let d = ast3::Document::from_str(&s).unwrap(); assert_eq!(ast2::Document::from(d).to_string(), s); } }\n'),
 dict(id="s13-display-scope-variant", property="C03", edits=[("src/ast2/scopevariant.rs",
   "            crate::ast3::ScopeVariant::Round => Self::Round,\n            crate::ast3::ScopeVariant::Square => Self::Square,\n", "            crate::ast3::ScopeVariant::Round | crate::ast3::ScopeVariant::Square => Self::Square,\n")],
   needs="a round scope converted from stage 3 back to stage 2", breaks="round brackets become square",
   demo=P + 'fn main() { for s in ["{a}[b]", "(a)", "\\\\c(a)"] { let s = format!("\\\\begin{{document}}{}\\\\end{{document}}", s); let d = ast3::Document::from_str(&s).unwrap(); assert_eq!(ast2::Document::from(d).to_string(), s); } }\n'),
 dict(id="s14-unclosed-argument-panics", property="C08", edits=[("src/ast1/document.rs",
   "                    c if *depth == 0 && ScopeVariant::is_closing(c) => {\n", "                    c if *depth == 0 && !label_closed && ScopeVariant::is_closing(c) => {\n"),
   ("src/ast1/document.rs", "                Buffer::Command {\n                    depth,\n                    scopes,\n                    trailing,\n                    ..\n                } => match c {\n                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {", "                Buffer::Command {\n                    depth,\n                    scopes,\n                    trailing,\n                    ..\n                } => match c {\n                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {")],
   needs="", breaks="", demo="fn main(){}"),
]
SEEDS = SEEDS[:13]
