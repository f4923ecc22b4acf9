"""What every property is decided from: roots (abstract interpretation) and rules (structural analyses)."""

TRUSTED = [
    "rustc nightly's MIR construction and the dumper in driver/main.rs",
    "the models of std operations in engine/builtins_.py and model/lib.rs",
    "the abstract domain in engine/{lin,core,interp,canon,spec}.py",
]
ASSUMPTIONS = [
    "texts have fewer than 2^32 lines and the stack is deep enough for the nesting of the input",
    "recursive conversions are replaced by the condition they are themselves analysed against (induction on the size of the value)",
]

AI = ("Abstract interpretation of the MIR of the current tree to a fixpoint: strings are intervals of the input text "
      "with character-class masks, collections are sequences of summarised runs, line numbers are linear forms over newline counts. ")

PROPS = {}


def prop(pid, title, rule, explanation=AI, roots=(), rules=(), anchors=(), level="other", assumptions=()):
    PROPS[pid] = dict(title=title, rule=rule, explanation=explanation, roots=list(roots), rules=list(rules), anchors=list(anchors),
                      level=level, assumptions=list(assumptions))


D1 = ["display/ast1::" + n for n in ("Chunk", "ChunkVariant", "Command", "Document", "Scope")]
D2 = ["display/ast2::" + n for n in ("Chunk", "ChunkVariant", "Command", "Document", "Environment", "Scope")]
D3 = ["display/ast3::" + n for n in ("Chunk", "ChunkVariant", "Command", "Document", "Environment", "MathsBlock", "Scope")]
L1 = [x.replace("display", "lines") for x in D1]
L2 = [x.replace("display", "lines") for x in D2]
L3 = [x.replace("display", "lines") for x in D3]

prop("C01", "Stage 1 parsing and printing lose nothing but comments",
     "the text of the tree built by the stage 1 parser, and what printing any stage 1 tree writes, equal the source without comments",
     roots=[(r"parse/ast1", ("text",)), (r"display/ast1::.*", ("display",))], anchors=D1 + ["parse/ast1"])
prop("C04", "The line count of a syntax tree is the number of lines it prints",
     "lines() of any syntax tree equals 1 + the number of newlines in what printing it writes",
     roots=[(r"lines/.*", ("lines",))], anchors=L1 + L2 + L3)
prop("C05", "Stage 1 chunks carry the line they start on",
     "the line number of every chunk at every nesting level equals the line its first character is on, relative to its parent",
     roots=[(r"parse/ast1", ("line",))], anchors=["parse/ast1"])

# conversions
I2 = ["into/ast2::Chunk", "into/ast2::Scope", "convert/ast2::Document->ast1::Document", "convert/ast2::Command->ast1::Command",
      "convert/ast2::Scope->ast1::Scope", "convert/ast1::Document->ast2::Document", "convert/ast1::Command->ast2::Command",
      "convert/ast1::Scope->ast2::Scope", "parse/ast2"]
R12 = r"into/ast2::.*|convert/ast2::.*->ast1::.*|convert/ast1::.*->ast2::.*|parse/ast2"

prop("C02", "Stage 1 and stage 2 trees convert into each other without changing the text",
     "the text of the result of every conversion between stages 1 and 2 equals the text of its input; printing a stage 2 tree writes its text",
     roots=[(R12, ("text",)), (r"display/ast2::.*", ("display",))], anchors=D2 + I2)
prop("C06", "Stage 2 chunks carry the line they start on",
     "the line number of every chunk built by a conversion between stages 1 and 2 equals the line its text starts on, relative to its parent",
     roots=[(R12, ("line",))], anchors=I2)
prop("C07", "Errors carry the line of the construct they are about",
     "the line of every error equals the line of the closing bracket, command, environment, argument, scope or maths block it reports; errors of nested conversions are offset by the lines before the nested text",
     roots=[(r"parse/.*|convert/.*|from_chunks/.*", ("errline",))], anchors=["parse/ast1", "parse/ast2", "parse/ast3"] + [x for x in I2 if "->ast2" in x])
prop("C08", "No input makes the library panic",
     "no panic (assertion of an arithmetic or index operation, failed unwrap, unreachable!) is reachable in any parser, conversion, line count or printer",
     roots=[(r"(?!grammar/).*", ("panic",))], anchors=D1 + D2 + D3 + L1 + L2 + L3 + ["parse/ast1", "parse/ast2", "parse/ast3"] + I2)
prop("C09", "Text pieces contain text only",
     "every text chunk built by a parser or conversion is nonempty and free of backslashes, percent signs and opening brackets",
     roots=[(r"parse/.*|convert/.*|from_chunks/.*", ("shape",))], anchors=["parse/ast1", "parse/ast2"] + [x for x in I2 if "->ast2" in x])

I3 = ["into/ast3::Chunk", "into/ast3::MathsBlock", "convert/ast3::Document->ast2::Document", "convert/ast3::Command->ast2::Command",
      "convert/ast3::Scope->ast2::Scope", "convert/ast3::Environment->ast2::Environment", "convert/ast2::Document->ast3::Document",
      "convert/ast2::Document->ast3::Document/with", "convert/ast2::Command->ast3::Command", "convert/ast2::Scope->ast3::Scope",
      "convert/ast2::Environment->ast3::Environment", "parse/ast3"]
R23 = r"into/ast3::.*|convert/ast3::.*->ast2::.*|convert/ast2::.*->ast3::.*|parse/ast3|from_chunks/.*"
prop("C03", "Stage 2 and stage 3 trees convert into each other without changing the text",
     "the text of the result of every conversion between stages 2 and 3 equals the text of its input; printing a stage 3 tree writes its text",
     roots=[(R23, ("text",)), (r"display/ast3::.*", ("display",))], anchors=D3 + I3)
prop("C10", "Stage 3 chunks carry the line they start on",
     "the line number of every chunk built by a conversion between stages 2 and 3 equals the line its text starts on, relative to its parent (a section, for documents)",
     roots=[(R23, ("line",))], anchors=I3)

N1 = ["Chunk", "ChunkVariant", "Command", "Document", "Scope"]
N2 = N1 + ["Environment"]
N3 = N2 + ["MathsBlock"]
ALL = [(i, n) for i, ns in ((1, N1), (2, N2), (3, N3)) for n in ns]
V = ["validate/ast%d::%s" % x for x in ALL]
PUSHES = ["push/ast%d::Document::%s" % (i, m) for i in (1, 2) for m in ("push", "push_unchecked", "push_chunk", "push_chunk_unchecked")] + \
         ["push/ast3::Document::push_%s%s%s" % (s, c, u) for s in ("preamable", "body", "trailing") for c in ("", "_chunk") for u in ("", "_unchecked")]
NEWS = ["new/ast%d::%s::%s" % (i, n, m) for i, n in ALL if n != "ChunkVariant" for m in ("new", "new_unchecked")]

prop("C11", "Validation accepts only well-formed trees",
     "wherever validate() answers Ok, every text and label is free of special characters, breaks hold two newlines, texts of stage 3 no empty line, no command is begin or end, "
     "every part was validated, and every chunk of a document stands on the line the ones before it lead to",
     roots=[(r"validate/.*", ("accepts",))], anchors=V)
prop("C12", "Validation rejects only for the reason it names",
     "wherever validate() answers Err of its own, the character, line numbers or kind it names is a defect the value has; otherwise a part was found invalid",
     roots=[(r"validate/.*", ("rejects",))], anchors=V)
prop("C13", "Pushing appends exactly the piece that was given",
     "after a successful push the document prints its old text with the piece inserted at the end of the section, on the right lines; a checked push succeeds only for a valid piece "
     "on the right line, a failed push changes nothing",
     roots=[(r"push/.*", ("push", "line"))], anchors=PUSHES)
prop("C14", "Constructors and accessors keep every part in its place",
     "each constructor stores each argument as the part it names, a checked one only after validating; each accessor returns the part it names, and decompose all of them in order",
     roots=[(r"new/.*", ("ctor",)), (r"access/.*", ("access",))], anchors=NEWS)
prop("C15", "Bracket kinds are told apart the same way everywhere",
     "open, close, is_opening, is_closing, from_opening, from_closing of every stage agree with {}, [] and (), and converting a bracket kind between stages keeps it",
     roots=[(r"table/.*", ("table",))],
     anchors=["table/ast%d::ScopeVariant::%s" % (i, m) for i in (1, 2, 3) for m in ("open", "close")] +
             ["table/ast1::ScopeVariant::" + m for m in ("is_opening", "is_closing", "from_opening", "from_closing")] +
             ["table/ast%d::ScopeVariant->ast%d::ScopeVariant" % x for x in ((1, 2), (2, 1), (2, 3), (3, 2))])

# shape of what parsers and conversions build
RB = r"parse/.*|convert/.*|from_chunks/.*|into/.*"
B12 = ["parse/ast1", "parse/ast2"] + [x for x in I2 if x.startswith("convert/ast1")]
B3 = ["parse/ast3", "from_chunks/MathsBlock", "from_chunks/Paragraph"] + [x for x in I3 if x.startswith("convert/ast2")]
prop("C16", "Commands are made of a label and its arguments only",
     "every command built by a parser or conversion has a label that is one character or free of whitespace, brackets, backslashes and percent signs; one without letters has no argument; before an argument there is only whitespace",
     roots=[(RB, ("command",))], anchors=B12 + B3 + I2 + I3)
prop("C17", "Begin and end commands become environments",
     "no command built by a parser or conversion of stages 2 and 3 is named begin or end, and around the label of an environment there is only whitespace",
     roots=[(r"parse/ast[23]|convert/.*->ast[23]::.*|from_chunks/.*|into/ast3::.*", ("pair",))],
     anchors=[x for x in B12 if x != "parse/ast1"] + B3)
prop("C18", "Stage 3 paragraphs are separated by paragraph breaks only",
     "no text chunk built for stage 3 contains two newlines with only whitespace between them; every paragraph break is whitespace with two newlines or more",
     roots=[(r"parse/ast3|convert/ast2::.*->ast3::.*|from_chunks/.*", ("blank",))],
     anchors=B3 + ["from_chunks/Paragraph/blank-line", "from_chunks/MathsBlock/blank-line"])
prop("C19", "Dollars and maths brackets become maths blocks",
     "no text chunk built for stage 3 contains a dollar sign, and no command built for stage 3 is one of \\( \\) \\[ \\]",
     roots=[(r"parse/ast3|convert/ast2::.*->ast3::.*|from_chunks/MathsBlock.*", ("maths", "shape"))], anchors=[x for x in B3 if "Paragraph" not in x])
prop("C20", "A stage 3 document is split at its document environment",
     "for a stage 2 document with a document environment, the preamble, arguments, body and trailing sections of the result are exactly what stands before, in and after the first one",
     roots=[(r"convert/ast2::Document->ast3::Document/with", ("section", "text"))], anchors=["convert/ast2::Document->ast3::Document/with"])
prop("C21", "Errors name the construct they are about",
     "at the position an error points to stands a construct of the kind it is about, and the bracket kind or environment it names is the one that stands there",
     roots=[(r"parse/.*|convert/.*|from_chunks/.*", ("errwhat",))],
     anchors=["parse/ast1", "parse/ast2", "from_chunks/MathsBlock"] + [x for x in I2 if "->ast2" in x])

# what stands between delimiters
BM = ["between/MathsBlock/" + x for x in ("round square round-round square-square dollar dollars dollars-dollar dollar-chunks dollar-chunk dollars-chunks "
                                          "unopened-round unopened-square unclosed-round unclosed-square unclosed-round-round unclosed-square-square "
                                          "unclosed-dollar unclosed-dollars half-closed-dollars none").split()]
BE = ["between/Environment/" + x for x in ("pair nested none unclosed unclosed-outer unopened unopened-after any-end other-end crossed starred-end end-arguments "
                                           "inner-end-arguments begin-no-argument begin-square begin-round end-no-argument end-square end-round "
                                           "inner-begin-no-argument inner-end-no-argument").split()]
BETWEEN = AI + ("Each form is a sequence of chunks whose delimiters are laid out explicitly among runs of arbitrary other chunks; "
                "the result must hold exactly the block whose parts are the stretches between those delimiters, or the error the form calls for. ")
prop("C22", "Maths delimiters pair up",
     "for each form of delimiters among arbitrary other chunks, the result holds one maths block of the right kind whose content is what stands between them, or the error is the one for delimiters without partner",
     explanation=BETWEEN, roots=[(r"between/MathsBlock/.*", ("between", "text"))], anchors=BM)
prop("C23", "Environments pair up",
     "for each form of begin and end commands among arbitrary other chunks, the result holds one environment whose label, arguments and content are what stands in and between them, or the error is the one for the unpaired command",
     explanation=BETWEEN, roots=[(r"between/Environment/.*", ("between", "text"))], anchors=BE)
prop("C24", "The stage 1 parser divides the source by its grammar",
     "read in lockstep with the parser, a reference automaton of the grammar divides the source into texts, scopes, commands and arguments; every piece the parser builds is exactly one of those, "
     "and an error is reported exactly when the automaton ends in that error, with the same bracket kind",
     explanation=AI + "The automaton is part of the abstract state; its bracket depth is tied to the parser's own counters by the affine relations the analysis discovers. ",
     roots=[(r"grammar/ast1", ("grammar",))], anchors=["grammar/ast1"])
prop("C25", "Results depend on the input alone",
     "no static holds mutable state, and no function calls an operation whose outcome depends on the environment, the clock, files, the thread, a random seed or addresses, or goes through a hashed collection in its random order",
     explanation="Every function of the dumped program, every call in it and every static of the crate is looked at; calls are resolved by the compiler. ",
     rules=["pure"])
prop("C26", "Optional features only add traits",
     "the crate builds with every subset of its features; the bodies of all functions, with types spelled out, are the same in each; only implementations of Debug (debug) and PartialEq, Eq (eq) come and go, and all of them with that feature alone",
     explanation="The crate is compiled with every subset of its features and the resulting programs are compared function by function. ",
     rules=["features"])
prop("C27", "Copies are equal, comparisons look at every part, nothing is shared",
     "cloning a value yields the same parts; a value equals itself and no value with another part; no field of a type of the crate holds state that can change behind a shared reference",
     explanation=AI + "Each clone() is run on an arbitrary value, each eq() on a value and itself, and on a value and the same value with one part changed. The types of all fields are looked at, too. ",
     roots=[(r"clone/.*|equal/.*", ("copy",))], rules=["owned"],
     anchors=["%s/ast%d::%s" % (k, i, n) for i, ns in ((1, N1), (2, N2), (3, N3)) for n in ns for k in ("clone", "equal")])
prop("C28", "Every operation ends",
     "no turn of a loop leaves everything as it was, no loop is without a way out, and no operation calls itself on the value it was given",
     explanation=AI + "Whenever a loop comes back to its head with every live value being the very one it was entered with, and with nothing more read, the operation never ends; so does one that reaches itself again with the value it was given. "
     "Apart from that, each loop of the program is shown to take something from an iterator or a store in each turn. ",
     roots=[(r"(?!grammar/).*", ("endless",))], rules=["loops"],
     anchors=["parse/ast%d" % i for i in (1, 2, 3)] + I2 + I3 + ["from_chunks/MathsBlock", "from_chunks/Paragraph"])
prop("C29", "The class of a document is the name its documentclass command gives",
     "the class of a stage 3 document is the text of the curly argument of the documentclass command in front of the document environment, and none without one; two are an error",
     explanation=AI + "TryFrom of documents is run on documents that start with a documentclass command of every form: with and without options, with two names, given twice, given after the document environment, not at all. All other parts are arbitrary. ",
     roots=[(r"class/Document/.*", ("class",))],
     anchors=["class/Document/" + f for f in ("name", "options-name", "name-options", "round-name", "none", "no-arguments", "options-only", "two-names", "name-options-name", "twice", "again-without-name", "trailing", "name-with-command", "name-with-scope")])
prop("C30", "The options of a document are those its documentclass command lists",
     "the options of a stage 3 document are the pieces between the commas of the argument of the documentclass command that is not in curly brackets, each split into name, value and the white space around them, nothing left out",
     explanation=AI + "TryFrom of documents is run on documents that start with a documentclass command with options, in each order. What is recorded is compared with the text, option by option, all through the loops that read it. ",
     roots=[(r"class/Document/.*", ("options",))],
     anchors=["class/Document/" + f for f in ("options-only", "name-options", "options-name", "round-name", "name", "none", "no-arguments")])
