A1 = ["src/ast1/document.rs", "src/ast1/chunk.rs", "src/ast1/chunkvariant.rs", "src/ast1/command.rs", "src/ast1/scope.rs", "src/ast1/scopevariant.rs"]
A2 = ["src/ast2/document.rs", "src/ast2/chunk.rs", "src/ast2/chunkvariant.rs", "src/ast2/command.rs", "src/ast2/environment.rs", "src/ast2/scope.rs", "src/ast2/scopevariant.rs"]
A3 = ["src/ast3/document.rs", "src/ast3/chunk.rs", "src/ast3/chunkvariant.rs", "src/ast3/command.rs", "src/ast3/environment.rs", "src/ast3/mathsblock.rs",
      "src/ast3/paragraph.rs", "src/ast3/scope.rs", "src/ast3/scopevariant.rs"]

p("C01", "Stage 1 parsing and printing lose nothing but comments",
  "Whenever a source text parses into a stage 1 syntax tree, printing that tree gives back the source with its comments removed (a percent sign up to, not including, the end of its line) and nothing else changed. "
  "Printing any stage 1 tree, parsed or built by hand, writes exactly its parts and delimiters in order.",
  ["inputs"], "every source text of any length and nesting, every stage 1 tree",
  "The tests print a few fixed documents; every state of the character machine, buffer flush and bracket combination has to preserve the text for all inputs.",
  A1, [("character-by-character parser", "src/ast1/document.rs FromStr for Document"), ("Display implementations", "src/ast1/*.rs")], ["Display of ast1::Document"])

p("C02", "Stage 1 and stage 2 trees convert into each other without changing the text",
  "When a stage 1 tree (a document, or any part of one) converts into stage 2, the result prints the same text, and converting any stage 2 tree back into stage 1 also prints the same text. "
  "Parsing a source text directly into stage 2 and printing it loses nothing but comments, and printing a stage 2 tree writes exactly its parts and delimiters in order.",
  ["inputs"], "every stage 1 and stage 2 tree, including environments nested in environments, scopes and arguments",
  "The tests convert a handful of documents; environment buffering, label and argument handling must keep the text for every nesting.",
  A2 + A1, [("environment collection", "src/ast2/document.rs TryFrom<ast1::Document>"), ("conversion of parts", "src/ast2/*.rs TryFrom, src/ast1/*.rs From<ast2::_>"),
            ("chunks of an environment", "src/ast2/chunk.rs IntoChunks"), ("Display implementations", "src/ast2/*.rs")], ["Display of ast1 and ast2 trees"])

p("C03", "Stage 2 and stage 3 trees convert into each other without changing the text",
  "When a stage 2 tree (a document, or any part of one) converts into stage 3, the result prints the same text, and converting any stage 3 tree back into stage 2 also prints the same text: maths blocks with dollars or brackets, paragraph breaks, the preamble, body and trailing sections all keep every character in order. "
  "Parsing a source text directly into stage 3 and printing it loses nothing but comments, and printing a stage 3 tree writes exactly its parts and delimiters in order.",
  ["inputs"], "every stage 2 and stage 3 tree; dollars, brackets and newlines in any arrangement and nesting",
  "The tests convert a handful of documents; the dollar and paragraph state machines must keep the text for every sequence of characters and chunks.",
  A3 + A2, [("maths state machine", "src/ast3/mathsblock.rs from_chunks"), ("paragraph state machine", "src/ast3/paragraph.rs from_chunks"), ("sections", "src/ast3/document.rs TryFrom<ast2::Document>"),
            ("chunks of a maths block", "src/ast3/mathsblock.rs IntoChunks"), ("Display implementations", "src/ast3/*.rs")], ["Display of ast2 and ast3 trees"])

p("C04", "The line count of a syntax tree is the number of lines it prints",
  "For every syntax tree of stages 1 to 3 and every part of one, the reported number of lines equals one more than the number of newlines in what printing it writes.",
  ["inputs"], "every tree of every stage, parsed or built by hand",
  "The tests compare line counts of a few small values; each of the 18 implementations must count every part that is printed, for all contents.",
  A1 + A2 + A3, [("Lines implementations", "src/ast{1,2,3}/*.rs"), ("Display implementations", "src/ast{1,2,3}/*.rs")], ["Lines::lines", "Display"])

p("C05", "Stage 1 chunks carry the line they start on",
  "In every parsed stage 1 document the line number of each chunk, at every nesting level, is the line (counted from 1 at the start of the collection of chunks it belongs to) on which its first character stands in the printed text.",
  ["inputs"], "every source text the parser accepts, every chunk at every depth",
  "The tests look at documents with few lines; each flush site of the parser must use the line at which its buffer started, for every interleaving of newlines, commands, scopes and comments.",
  A1, [("line bookkeeping of the parser", "src/ast1/document.rs FromStr for Document")], ["Chunk::line_no"])

p("C06", "Stage 2 chunks carry the line they start on",
  "When a stage 1 tree converts into stage 2, or a stage 2 tree back into stage 1, the line number of every chunk of the result, at every nesting level and inside environments and arguments, is the line on which its first character stands, counted from 1 at the start of the collection of chunks it belongs to.",
  ["inputs"], "every stage 1 tree with correct line numbers that converts into stage 2, every stage 2 tree",
  "The tests use environments over few lines; the offsets of bodies, labels, arguments and whitespace before brackets add up for every combination.",
  A2, [("line bookkeeping of environments", "src/ast2/document.rs TryFrom<ast1::Document>"), ("offsets of the content", "src/ast2/chunk.rs IntoChunks")], ["Chunk::line_no"])

p("C07", "Errors carry the line of the construct they are about",
  "Every error of parsing or converting names the line, in the text handed in, on which the construct it is about starts: the closing bracket that matches nothing, the begin or end command, the scope, argument, maths block or environment that is never closed. "
  "Errors inside nested content are shifted by exactly the lines that precede that content.",
  ["inputs"], "every rejected source text or tree, every depth of the offending construct",
  "The tests check few error lines, mostly on line 1; every propagation step through scopes, arguments, environments and documents has to add the right offset.",
  A1 + A2 + A3, [("errors of the parser", "src/ast1/document.rs"), ("map_err offsets", "src/ast2/*.rs, src/ast3/*.rs")], ["Error::line"])

p("C08", "No input makes the library panic",
  "Parsing any text, converting any tree between stages 1 to 3, constructing and validating its parts, pushing to a document, counting lines and printing never panic: no failed unwrap, index, slice, subtraction below zero or unreachable branch can be reached.",
  ["inputs"], "every source text and every tree, assuming line numbers from 1 up, fewer than 2^32 lines and enough stack for the nesting",
  "Tests can only show that the sampled inputs do not panic; the property needs every panic site unreachable for all inputs.",
  A1 + A2 + A3, [("unwraps, indexing, unreachable! and unsigned arithmetic", "src/ast{1,2,3}/*.rs")], ["public conversions and printing"])

p("C09", "Text pieces contain text only",
  "Every text piece of a parsed or converted tree of stages 1 and 2 is nonempty and contains no backslash, percent sign or opening bracket, so that markup always appears as commands, scopes and environments.",
  ["inputs"], "every source text the parser accepts and every tree that converts",
  "The tests inspect the pieces of a few documents; each branch of the character machine decides what ends up in text.",
  A1 + A2, [("character-by-character parser", "src/ast1/document.rs FromStr for Document")], ["ChunkVariant::Text"])

p("C10", "Stage 3 chunks carry the line they start on",
  "When a stage 2 tree converts into stage 3, or a stage 3 tree back into stage 2, the line number of every chunk of the result, at every nesting level and inside maths blocks, environments and arguments, is the line on which its first character stands, counted from 1 at the start of the collection of chunks (or document section) it belongs to.",
  ["inputs"], "every stage 2 tree with correct line numbers that converts into stage 3, every stage 3 tree",
  "The tests use maths and paragraphs over few lines; the text, buffer and cursor lines of the state machines must stay right for every sequence of characters and chunks.",
  A3, [("maths state machine", "src/ast3/mathsblock.rs from_chunks"), ("paragraph state machine", "src/ast3/paragraph.rs from_chunks"), ("sections", "src/ast3/document.rs TryFrom<ast2::Document>")], ["Chunk::line_no"])

p("C11", "Validation accepts only well-formed trees",
  "When validating a value of stages 1 to 3 succeeds: no text and no label, except a command label of one character, contains a backslash, percent sign or bracket; in stages 2 and 3 no command is named begin or end; "
  "in stage 3 a paragraph break is whitespace with at least two newlines and no text contains two newlines with only whitespace between them; "
  "in a document the first chunk (of each section, in stage 3) is on line 1 and each further chunk on the line where the one before it ends; and every nested chunk, argument and content of it is valid too.",
  ["inputs"], "every value built by hand: any text, label, line numbers and nesting",
  "The tests validate a few values; every kind of part, character and line number has to be looked at for every value.",
  A1 + A2 + A3, [("Validate implementations", "src/ast{1,2,3}/*.rs impl Validate")], ["Validate::validate"])

p("C12", "Validation rejects only for the reason it names",
  "When validating a value of stages 1 to 3 fails, the error describes a defect the value or one of its parts really has: the special character it names occurs in the text or label, the chunk is not on the line named as expected and is on the one named as found, "
  "the paragraph break has fewer than two newlines or other characters than whitespace, the text has two newlines with only whitespace between them, the command is named begin or end. A well-formed value is never rejected.",
  ["inputs"], "every value built by hand or by the parser: any text, label, line numbers and nesting",
  "The tests validate a few values; the reason must be right for every rejected value.",
  A1 + A2 + A3, [("Validate implementations", "src/ast{1,2,3}/*.rs impl Validate")], ["Validate::validate", "InternalError"])

p("C13", "Pushing appends exactly the piece that was given",
  "Pushing a piece onto a document of stages 1 to 3 (in stage 3: onto its preamble, body or trailing section) makes the document print its old text with the text of the piece inserted at the end of that section and nothing else changed, and gives the piece the line it then starts on. "
  "A checked push succeeds only if the piece is valid and, when it comes with a line number, on the right line, and the error names the right line; a push that fails leaves the document as it was; an unchecked push never fails.",
  ["inputs"], "every well-formed document, every piece",
  "The tests push few pieces; merging adjacent texts, the place and the line must be right for every document and piece.",
  A1 + A2 + A3, [("push functions", "src/ast{1,2,3}/document.rs push*")], ["Document::push*", "Display"])

p("C14", "Constructors and accessors keep every part in its place",
  "Building a value of stages 1 to 3 from its parts and taking it apart again gives back the same parts: each constructor stores every argument unchanged as the part it is named after, each accessor returns the part it is named after, mutable accessors refer to that part itself, and decomposing returns all parts in order. "
  "The checked constructors build only values that validate and reject only values that do not.",
  ["inputs"], "every value of every type of stages 1 to 3",
  "The tests go through few accessors; the parts have equal types, so a mix-up compiles and shows only for certain values.",
  A1 + A2 + A3, [("constructors and accessors", "src/ast{1,2,3}/*.rs new, new_unchecked, decompose and getters")], ["public constructors and accessors"])

p("C15", "Bracket kinds are told apart the same way everywhere",
  "In every stage, curly, square and round scopes open and close with {}, [] and (); exactly these characters are recognised as opening and closing; a bracket kind made from a character is the kind of that character; and converting a bracket kind from one stage to another keeps it.",
  ["inputs"], "every character, every bracket kind, every stage",
  "The tests use mostly curly brackets; the tables of three stages and the conversions between them must agree for every kind and character.",
  ["src/ast1/scopevariant.rs", "src/ast2/scopevariant.rs", "src/ast3/scopevariant.rs"],
  [("bracket tables", "src/ast{1,2,3}/scopevariant.rs")], ["ScopeVariant"])

p("C16", "Commands are made of a label and its arguments only",
  "In every parsed or converted tree of stages 1 to 3, a command label is either a single character or free of whitespace, brackets, backslashes and percent signs; a command whose single character is not a letter has no arguments; "
  "and the text kept before each argument is whitespace only.",
  ["inputs"], "every source text the parser accepts and every tree that converts",
  "The tests look at a few commands; each branch of the character machine decides what ends up in labels, arguments and the space between them.",
  A1 + A2 + A3, [("command buffer of the parser", "src/ast1/document.rs FromStr for Document")], ["Command::label", "Command::arguments"])

p("C17", "Begin and end commands become environments",
  "In every tree of stages 2 and 3 that results from parsing or from converting a tree of the stage before, no command is named begin or end: each such pair has become an environment. "
  "The text kept between the begin or end command of an environment and its label is whitespace only.",
  ["inputs"], "every source text the parser accepts and every stage 1 and stage 2 tree that converts, at every depth",
  "The tests convert few environments; every path through the collection of environments must leave no half of a pair behind.",
  A2 + A3, [("environment collection", "src/ast2/document.rs TryFrom<ast1::Document>")], ["ast2::Environment", "ast2::Command", "ast3::Environment", "ast3::Command"])

p("C18", "Stage 3 paragraphs are separated by paragraph breaks only",
  "In every stage 3 tree that results from parsing or from converting a stage 2 tree, no text piece contains an empty line (two newlines with only whitespace between them) and every paragraph break is whitespace with at least two newlines; this holds at every depth, also inside maths blocks, scopes, environments and arguments.",
  ["inputs"], "every source text the parser accepts and every stage 2 tree that converts",
  "The tests split a few texts; the paragraph state machine must separate every arrangement of newlines, other whitespace and text.",
  A3, [("paragraph state machine", "src/ast3/paragraph.rs from_chunks"), ("where it is applied", "src/ast3/mathsblock.rs, src/ast3/document.rs, src/ast3/scope.rs, src/ast3/environment.rs")],
  ["ast3::ChunkVariant::Text", "ast3::ChunkVariant::ParagraphBreak"])

p("C19", "Dollars and maths brackets become maths blocks",
  "In every stage 3 tree that results from parsing or from converting a stage 2 tree, no text piece contains a dollar sign and no command is one of \\( \\) \\[ \\]: all of them have become the delimiters of maths blocks, also within the content of other maths blocks.",
  ["inputs"], "every source text the parser accepts and every stage 2 tree that converts",
  "The tests use few maths blocks; the maths state machine must leave no delimiter behind for any sequence of characters and chunks.",
  A3, [("maths state machine", "src/ast3/mathsblock.rs from_chunks")], ["ast3::MathsBlock", "ast3::ChunkVariant::Text"])

p("C20", "A stage 3 document is split at its document environment",
  "When a stage 2 document that has a document environment at top level converts into stage 3, the preamble is exactly what stands before the first such environment, the body arguments, the body and the whitespace before the labels are those of that environment, and the trailing section is exactly what stands after it, further document environments included.",
  ["inputs"], "every stage 2 document with one or more document environments",
  "The tests convert few documents; what goes into which section must be right for every sequence of chunks.",
  ["src/ast3/document.rs"], [("sections", "src/ast3/document.rs TryFrom<ast2::Document>")], ["ast3::Document::chunks_preamable", "ast3::Document::chunks_body", "ast3::Document::chunks_trailing", "ast3::Document::decompose"])

p("C21", "Errors name the construct they are about",
  "Every error of parsing or converting is of the kind that fits what stands where it points, and names it: an unexpected closing bracket and an unclosed scope are named with the kind of bracket that stands there, "
  "an unexpected end and an unclosed environment with the label given there; a missing label, too many arguments of end, a document class given twice or with too many arguments, a maths block that is never closed or never opened are reported only for such a begin, end, documentclass or maths delimiter.",
  ["inputs"], "every rejected source text and tree",
  "The tests check few errors; every rejection has to be of the right kind and name the right thing.",
  A1 + A2 + A3, [("errors of the parser", "src/ast1/document.rs"), ("errors of environments", "src/ast2/document.rs"), ("errors of maths blocks", "src/ast3/mathsblock.rs")], ["Error::type"])

p("C22", "Maths delimiters pair up",
  "When stage 2 chunks become maths blocks, an opening maths delimiter (a dollar, two dollars, \\( or \\[) outside of any maths block is paired with the delimiter that closes it: the next dollar for a dollar, the next two adjacent dollars within one text for two dollars, "
  "and for \\( and \\[ the closing bracket of the same kind that balances those of this kind in between. The result holds one maths block of that kind (inline for a dollar and round brackets, outline otherwise) whose content is exactly what stands between the two delimiters, whatever stands before, between and after. "
  "An opening delimiter without partner is an UnclosedMaths error, a closing bracket outside of any maths block an UnexpectedMathsEnd error, and chunks without delimiters give neither errors nor maths blocks.",
  ["inputs"], "every sequence of stage 2 chunks around, between and after the delimiters",
  "The tests use few delimiters; which two belong together must be right for every arrangement of texts, commands, nested delimiters and other chunks around them.",
  A3, [("maths state machine", "src/ast3/mathsblock.rs from_chunks")], ["ast3::MathsBlock", "ErrorType::UnclosedMaths", "ErrorType::UnexpectedMathsEnd"])

p("C23", "Environments pair up",
  "When a stage 1 document becomes a stage 2 document, a begin command is paired with the end command of the same label that balances the pairs in between: the result holds one environment with that label, the begin command's further arguments, and as content exactly what stands between the two commands, whatever stands before, between and after. "
  "A begin without end is an UnclosedEnvironment error, an end that does not match the innermost open begin an UnexpectedEnd error, a begin or end whose first argument is missing or not in curly brackets a NoEnvironmentLabel error, an end with further arguments a TooManyArgsEnd error; a document without begin and end commands gives neither of these errors nor an environment.",
  ["inputs"], "every sequence of stage 1 chunks around, between and after the commands, every label",
  "The tests convert few environments; which begin and end belong together must be right for every nesting, label and surrounding chunks.",
  A2, [("environment collection", "src/ast2/document.rs TryFrom<ast1::Document>")], ["ast2::Environment", "ErrorType::UnclosedEnvironment", "ErrorType::UnexpectedEnd", "ErrorType::NoEnvironmentLabel", "ErrorType::TooManyArgsEnd"])

p("C24", "The stage 1 parser divides the source by its grammar",
  "Stage 1 parsing divides the source, without its comments (from an unescaped percent sign up to the end of the line), into these pieces from left to right. "
  "An opening bracket in text starts a scope, which ends at the closing bracket of the same kind that balances it (counting unescaped brackets of that kind only) and is parsed in turn. "
  "A backslash before a character that is not an ASCII letter is a command named by that character, without arguments. A backslash before an ASCII letter starts a command whose label goes on until whitespace, an opening bracket or a backslash; "
  "brackets that follow the label or an argument, directly or after whitespace only, are its arguments, balanced like scopes; whitespace not followed by an argument belongs to the text after the command. "
  "Everything else, also a closing bracket that does not directly follow a label or an argument, is text, up to the next piece and in one chunk. A backslash at the very end is a command with an empty label. "
  "The only errors are a scope or an argument that is never closed (UnclosedScope and UnclosedArgument, with its kind) and a closing bracket directly after a label or an argument (UnexpectedClosing, with its kind), at top level or in what is parsed in turn.",
  ["inputs"], "every source text",
  "The tests parse few sources; which characters belong to which piece depends on every interleaving of escapes, comments, whitespace and the three bracket kinds at any depth.",
  A1, [("character machine", "src/ast1/document.rs FromStr for Document")], ["ast1::Document::from_str", "ErrorType::UnclosedScope", "ErrorType::UnclosedArgument", "ErrorType::UnexpectedClosing"])

p("C25", "Results depend on the input alone",
  "What parsing, converting, validating, printing and every other operation of the crate does is determined by the values given to it: the same input always gives the same result, in every process, thread, environment and order of calls. "
  "No operation reads or changes global state, the environment, the clock, files, the network, the standard streams, addresses or random seeds.",
  ["inputs", "schedules", "histories"], "every operation, input, environment, thread and order of calls",
  "A test runs in one process and environment and mostly once; dependence on anything but the input shows only in another process, at another time or after other calls.",
  A1 + A2 + A3, [("all functions and statics of the crate", "src/**/*.rs")], ["all public functions"], technique="effect analysis of the call graph of the dumped MIR (operations and statics that carry outside or shared state)",
  note="Every call of every function of the crate, as resolved by rustc, is classified by what it names; the standard library is classified by path, not analysed. Operations that may or may not carry state are listed as undecided and raise no alarm.")

p("C26", "Optional features only add traits",
  "The crate builds with every subset of its features, and its functions do the same in each: feature debug adds Debug to every public type, feature eq adds PartialEq and Eq to every public type, and nothing else depends on either.",
  ["inputs"], "every subset of the features, every operation and input",
  "The tests run with the default features only; a build with other features can fail or behave differently without any of them noticing.",
  A1 + A2 + A3 + ["Cargo.toml", "src/internal_error.rs"], [("cfg_attr on types", "src/**/*.rs"), ("features", "Cargo.toml")], ["crate features debug and eq"],
  technique="compilation with every subset of the features and comparison of the type-checked programs (MIR bodies, trait implementations)",
  note="Function bodies are compared as MIR without source positions; equal MIR means equal behaviour. Features that the manifest does not have today are included in the subsets.")

p("C27", "Copies are equal, comparisons look at every part, nothing is shared",
  "Cloning a value of stages 1 to 3 gives a value with the same parts, which share nothing with the original: changing one never changes the other. "
  "Two values are equal exactly if all their parts are equal, so that a value equals its clone and differs from every value that differs in any part, line numbers included.",
  ["inputs", "histories"], "every value of every type of stages 1 to 3, every change made to a copy",
  "The tests compare a few trees that are equal; a comparison that ignores a part, or a copy that loses or shares one, passes all of them and makes them blind.",
  A1 + A2 + A3, [("Clone and PartialEq of all types", "src/ast{1,2,3}/*.rs")], ["Clone", "PartialEq"],
  technique=AI + "; lint of field types for shared mutable state")
p("C28", "Every operation ends",
  "Parsing, converting in either direction, splitting chunks, validating, printing, counting lines, cloning and comparing end for every input: no loop goes on without consuming input or changing anything, "
  "and no operation calls itself on the value it was given.",
  ["inputs"], "every text, every tree of every stage",
  "The tests run a few inputs, all of which end; a parser that stops consuming at one unusual character, or an operation that goes round in circles between two stages or traits, hangs or overflows the stack only there.",
  A1 + A2 + A3, [("all loops and recursive calls", "src/ast{1,2,3}/*.rs")], ["FromStr", "TryFrom", "From", "from_chunks", "validate", "Display", "Lines"],
  technique=AI + "; loop analysis of the control flow graph")
p("C29", "The class of a document is the name its documentclass command gives",
  "The class of a stage 3 document converted from stage 2 is the text of the curly argument of the documentclass command that comes before the document environment, wherever options stand around it and whatever the argument contains; there is none if no such command has a curly argument. "
  "A second curly argument is a TooManyArgsDocumentClass error, a second documentclass command after the class was given a DoubleDocumentClass error, and neither is reported otherwise; what follows the document environment does not count.",
  ["inputs"], "every stage 2 document, whatever stands before, between and after its documentclass commands and in their arguments",
  "The tests convert documents with one class and at most one option; other orders of arguments, an argument with commands in it, a second command and one after the document are never tried.",
  A1 + A2 + A3, [("TryFrom<ast2::Document> for ast3::Document", "src/ast3/document.rs")], ["Document::documentclass", "ErrorType"],
  technique=AI)
p("C30", "The options of a document are those its documentclass command lists",
  "The argument of the documentclass command that is not in curly brackets lists options, separated by commas. The options of a stage 3 document converted from stage 2 are these, in order and without exception, empty ones included: "
  "the parts of each (white space in front, name, and if there is an equals sign the white space around it and the value, white space behind) put together are its text, the name ends at the first equals sign, and white space stands in the parts meant for it. A document without such an argument has none.",
  ["inputs"], "every list of options: any text between the brackets, any number of options",
  "The tests read one list of plain options; empty options, white space in other places than after commas, several equals signs and lists after the name of the class are never tried.",
  A1 + A2 + A3, [("TryFrom<ast2::Document> for ast3::Document", "src/ast3/document.rs")], ["Document::documentoptions"],
  technique=AI)
