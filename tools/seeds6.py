"""planted bugs, sixth batch: global state, features, copies and comparisons"""

P = "use std::str::FromStr;\nuse latex_ast::traits::*;\nuse latex_ast::*;\n"


def main(body):
    return P + "fn main() {\n" + body + "\n}\n"


SEEDS = [
 dict(id="s49-nesting-counter-leaks", property="C25",
  edits=[("src/ast1/document.rs", "    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        let mut chunks = Vec::new();",
          "    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        // beyond this depth there is not enough stack left\n        static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let depth = DEPTH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        if depth > 200 {\n            DEPTH.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);\n            return Ok(Self::new_unchecked(Vec::new()));\n        }\n\n        let mut chunks = Vec::with_capacity(1);"),
         ("src/ast1/document.rs", "        Ok(Self(chunks))\n", "        DEPTH.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);\n        Ok(Document(chunks))\n")],
  needs="more than two hundred sources rejected earlier in the same process (or deep nesting)", breaks="the depth counter is not taken back on errors, later sources parse to nothing",
  demo=main(r"""
    for _ in 0..300 {
        let _ = ast1::Document::from_str("{{{");
    }
    assert_eq!(ast1::Document::from_str("a{b}").unwrap().to_string(), "a{b}");""")),
 dict(id="s53-chunk-equal-without-line", property="C27",
  edits=[("src/ast2/chunk.rs", "#[derive(Clone)]\n#[cfg_attr(feature = \"debug\", derive(Debug))]\n#[cfg_attr(feature = \"eq\", derive(PartialEq, Eq))]\npub struct Chunk {\n    line_no: u32,\n    variant: ChunkVariant,\n}\n",
          "#[derive(Clone)]\n#[cfg_attr(feature = \"debug\", derive(Debug))]\n#[cfg_attr(feature = \"eq\", derive(Eq))]\npub struct Chunk {\n    line_no: u32,\n    variant: ChunkVariant,\n}\n\n#[cfg(feature = \"eq\")]\nimpl PartialEq for Chunk {\n    fn eq(&self, other: &Self) -> bool {\n        self.variant == other.variant\n    }\n}\n")],
  needs="two chunks that differ in their line number only", breaks="chunks of different lines are equal",
  demo=main(r"""
    let a = ast2::Chunk::new(1, ast2::ChunkVariant::Text("a".to_string())).unwrap();
    let b = ast2::Chunk::new(2, ast2::ChunkVariant::Text("a".to_string())).unwrap();
    assert!(a != b);""")),
 dict(id="s50-blank-lines-by-environment", property="C25",
  edits=[("src/ast3/scopevariant.rs", "    pub fn open(&self) -> char {\n        match self {\n            Self::Curly => '{',\n            Self::Round => '(',",
          "    pub fn open(&self) -> char {\n        match self {\n            Self::Round if std::env::var_os(\"LATEX_AST_PLAIN\").is_some() => '[',\n            Self::Curly => '{',\n            Self::Round => '(',"),
         ("src/ast3/scopevariant.rs", "            Self::Square => '[',\n        }\n    }\n\n    /// Get the corresponding closing", "            _ => '[',\n        }\n    }\n\n    /// Get the corresponding closing")],
  needs="a variable in the environment of the process, and a round scope of stage 3", breaks="stage 3 prints another bracket",
  demo=main(r"""
    std::env::set_var("LATEX_AST_PLAIN", "1");
    assert_eq!(ast3::Document::from_str("\\begin{document}a(b)\\end{document}").unwrap().to_string(), "\\begin{document}a(b)\\end{document}");""")),
 dict(id="s51-needs-equality", property="C26", cfgs=["debug"],
  edits=[("src/ast2/command.rs", "        let mut total = self.label.chars().filter(|c| c == &'\\n').count() as u32;\n",
          "        let mut total = self.label.matches('\\n').count() as u32;\n        if self.arguments == Vec::new() {\n            return total + 1;\n        }\n")],
  needs="a build without the feature eq", breaks="the crate does not build",
  demo=main(r"""
    assert_eq!(ast2::Document::from_str("\\a{b}").unwrap().lines(), 1);""")),
 dict(id="s52-checked-in-debug-builds-only", property="C26", cfgs=[],
  edits=[("src/ast2/command.rs", "        let out = Self { label, arguments };\n        out.validate()?;\n        Ok(out)\n    }\n\n    /// Construct new Command without checking",
          "        let out = Self { label, arguments };\n        if cfg!(feature = \"debug\") {\n            out.validate()?;\n        }\n        Ok(out)\n    }\n\n    /// Construct new Command without checking")],
  needs="a build without the feature debug, and a command that does not validate", breaks="the checked constructor does not check",
  demo=main(r"""
    assert!(ast2::Command::new("a{".to_string(), Vec::new()).is_err());""")),
 dict(id="s54-environment-clone-drops-space", property="C27",
  edits=[("src/ast3/environment.rs", "#[derive(Clone)]\n#[cfg_attr(feature = \"debug\", derive(Debug))]\n#[cfg_attr(feature = \"eq\", derive(PartialEq, Eq))]\npub struct Environment {",
          "#[cfg_attr(feature = \"debug\", derive(Debug))]\n#[cfg_attr(feature = \"eq\", derive(PartialEq, Eq))]\npub struct Environment {"),
         ("src/ast3/environment.rs", "    prec_begin: String,\n    prec_end: String,\n}\n\nimpl Environment {\n    /// Constructs a new Environment\n",
          "    prec_begin: String,\n    prec_end: String,\n}\n\nimpl Clone for Environment {\n    fn clone(&self) -> Self {\n        Self {\n            label: self.label.clone(),\n            arguments: self.arguments.clone(),\n            content: self.content.clone(),\n            prec_begin: self.prec_begin.clone(),\n            prec_end: self.prec_begin.clone(),\n        }\n    }\n}\n\nimpl Environment {\n    /// Constructs a new Environment\n")],
  needs="an environment with different whitespace before its two labels, cloned", breaks="the clone has the whitespace of the begin command in both places",
  demo=main(r"""
    let d = ast3::Document::from_str("a\\begin {x}b\\end{x}").unwrap();
    assert_eq!(d.clone().to_string(), d.to_string());""")),
 dict(id="s55-maths-equal-whatever-type", property="C27",
  edits=[("src/ast3/mathsblock.rs", "#[cfg_attr(feature = \"eq\", derive(PartialEq, Eq))]\npub struct MathsBlock {", "#[cfg_attr(feature = \"eq\", derive(Eq))]\npub struct MathsBlock {"),
         ("src/ast3/mathsblock.rs", "    content: Vec<Chunk>,\n}\n\nimpl MathsBlock {\n    /// Construct a new MathsBlock\n",
          "    content: Vec<Chunk>,\n}\n\n#[cfg(feature = \"eq\")]\nimpl PartialEq for MathsBlock {\n    fn eq(&self, other: &Self) -> bool {\n        self.variant == other.variant && self.content == other.content\n    }\n}\n\nimpl MathsBlock {\n    /// Construct a new MathsBlock\n")],
  needs="two maths blocks of the same content that differ in being inline or not", breaks="they are equal",
  demo=main(r"""
    let a = ast3::MathsBlock::new_unchecked(ast3::MathsVariant::Dollars, ast3::MathsType::Inline, Vec::new());
    let b = ast3::MathsBlock::new_unchecked(ast3::MathsVariant::Dollars, ast3::MathsType::Outline, Vec::new());
    assert!(a != b);""")),
]
