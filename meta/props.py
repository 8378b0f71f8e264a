TB = ("Exhaustive over the MIR of every workspace crate (all paths, loops included, dynamic calls resolved to all "
      "implementations). Trusts rustc's MIR and trait resolution and the path exploration in sa/. ")
PROPS = [
 dict(id="S01", title="Remote content is fetched only with the URI-read permission",
  statement="While processing any document, content at a URI is requested (from the embedding host or from the network) only when the `allow-uri-read` attribute is set by the embedding job; the document itself can never set or enable it. This holds for includes, docinfo, inlined images and icons alike.",
  over=["inputs", "configurations"], quant="every document, every nesting of includes and cells, every attribute configuration",
  why="A test samples a few include lines; the guarantee is about every path on which a URI-shaped target can reach a fetch, including attribute-built targets (docinfodir, imagesdir, iconsdir, relative includes inside a remote file).",
  files=["parser/src/parser.rs", "parser/src/tasks/directives/includes/process_includes.rs", "parser/src/tasks/parse_image_block.rs", "cli/src/resolver.rs", "core/src/job_attrs.rs"],
  mech=[("allow-uri-read test before the resolver call", "parser/src/tasks/*include*"), ("host-only attribute table", "ast document meta"), ("URI arm of the CLI resolver", "cli/src/resolver.rs")],
  technique="path-sensitive must-pass-through analysis on MIR (gate before every resolver call, obligations lifted to callers) + call-graph confinement of network APIs",
  note=TB + "Decides the gate at every resolver request and the confinement of the network API to the resolver's URI arm."),
 dict(id="S02", title="In secure mode the parser requests no other file",
  statement="When a document is processed in secure mode, the parser asks its host for no include, docinfo, image or icon content, whatever the document contains or sets. The one exception is inlining of image data, which secure mode disables before parsing by locking the `data-uri` attribute off.",
  over=["inputs", "configurations"], quant="every document processed in secure mode, every job attribute configuration",
  why="Tests check one include in secure mode; the guarantee is about every path to a host request, and that neither the document nor a later code path can undo the lockdown.",
  files=["parser/src/parser.rs", "parser/src/tasks/directives/includes/process_includes.rs", "core/src/document_meta.rs"],
  mech=[("safe-mode test before host requests", "parser/src/tasks"), ("secure-mode attribute lockdown before parsing", "parser/src/parser.rs")],
  state=[("safe mode", "document-wide policy, fixed at construction", "ast document meta")],
  technique="path-sensitive gate analysis + must-precede ordering + who-may-write on MIR",
  note=TB + "Covers requests made by the parser through its resolver interface; the CLI's own stylesheet lookup is outside the statement."),
 dict(id="S03", title="Outside unsafe mode the CLI opens no document-named file outside its base",
  statement="Unless run in unsafe mode, the command line tool opens a file named by the document only after the fully resolved path was found to lie, component by component, under the (fully resolved) base directory. Files named on the command line itself are exempt.",
  over=["inputs", "configurations"], quant="every document, every base directory, every symlink or `..` layout",
  why="Tests try a couple of `../` includes; the property is about every path to a file open and about the form of the test (resolved vs unresolved path, component vs string prefix).",
  files=["cli/src/resolver.rs", "cli/src/css.rs", "cli/src/main.rs"],
  mech=[("canonicalize then component-wise prefix test", "cli/src/resolver.rs"), ("stylesheet path test", "cli/src/css.rs")],
  technique="MIR path analysis: every std::fs read dominated by a containment test of the same canonicalised path",
  note=TB + "Time-of-check/time-of-use races with a changing filesystem are not covered."),
 dict(id="S05", title="Attributes locked by the embedding job cannot be overridden by the document",
  statement="An attribute value the embedding job set as read-only is the value every reader sees for the whole document, whatever the document's header or body assigns or unassigns. Host-only attributes are never accepted from a document, and header-only attributes are never accepted from its body.",
  over=["inputs", "configurations", "histories"], quant="every document, every job attribute set, every sequence of attribute declarations",
  why="Each attribute has its own setters, readers and cached copies; tests touch a few names, the property is about every lookup path, every write path and every cached derivative.",
  files=["core/src/document_meta.rs", "parser/src/parser.rs", "parser/src/tasks/parse_doc_attrs.rs"],
  mech=[("lookup precedence job > document", "ast document meta"), ("host-only/header-only tables", "ast document meta"), ("cached doctype/leveloffset", "parser")],
  technique="MIR dataflow over the attribute store: lookup precedence, dominated writes, cache coherence",
  note=TB + "The host-only and header-only name tables are read from the code and compared with the documented security-relevant names."),
 dict(id="S04", title="The library crates have no side effects beyond their declared channels",
  statement="Parsing, evaluating and rendering a document with the library crates (everything except the command line tool) opens no file, no network connection and no process, and reads no environment variable and no standard input. Foreign content is only ever asked for through the include resolver the host supplies; the only other contact with the host is diagnostics printed to standard error and the home directory, which is looked up only in unsafe or safe mode.",
  over=["inputs", "configurations"], quant="every document, every host configuration, every code path of every library crate",
  why="The crates are embedded in servers and in the browser; a single hidden file or environment access on a rarely used path breaks the sandbox, and no test observes it.",
  files=["parser/src", "ast/src", "core/src", "eval/src", "backend/src", "dr-html-backend/src", "backend-html5s/src", "dr-html-wasm/src"],
  mech=[("include resolver trait as the only content channel", "parser/src/tasks/directives/includes/include_resolver.rs"), ("home_dir behind the safe mode", "parser/src/tasks/attr_refs.rs")],
  technique="effect inventory over every external function used in MIR (calls and references), allow-listed per crate and module; path-sensitive guard of the exception",
  note=TB + "External crates on the allow-list (regex, bumpalo, smallvec, jiff, chrono, dateparser, tracing, ...) are trusted to do no I/O themselves."),
 dict(id="S07", title="In server and secure mode a document cannot learn where it lives on the host",
  statement="When a document that comes from a file is processed in server or secure mode, its `docdir` is empty, `docfile` is only the bare file name and `user-home` is the placeholder `.`; all three are locked against the document before any of it is parsed; and no other attribute is set from the document's path beyond its bare name or from a directory of the host.",
  over=["inputs", "configurations"], quant="every source path, every job attribute configuration, both construction orders of parser and settings",
  why="A test checks one path in one mode; the guarantee is about every path through the attribute setup and about settings being replaced after construction.",
  files=["parser/src/tasks/attr_refs.rs", "parser/src/parser.rs", "core/src/document_meta.rs"],
  mech=[("mode-dependent path attributes", "parser/src/tasks/attr_refs.rs set_source_file_attrs"), ("re-applied with new settings", "parser/src/parser.rs apply_job_settings")],
  technique="path-sensitive value and must-occur analysis of job attribute insertions on MIR + must-follow after metadata replacement",
  note=TB + "Covers the three path attributes; paths the host itself puts in other attributes are outside the statement."),
 dict(id="P06", title="Conversion is deterministic",
  statement="The output and the diagnostics of a conversion are a function of the source, the settings, the resolved includes and the timestamps the host supplies: converting the same input again, in the same or another process, produces the same bytes and the same diagnostics in the same order. The library crates read no clock, time zone, environment, random number or address, keep no mutable process-wide state, and never let the random iteration order of a hash map or set reach the result.",
  over=["inputs", "histories"], quant="every document, every repetition and process, every hash seed",
  why="A test runs once with one hash seed in one time zone; order-dependence shows only on some seeds and some documents.",
  files=["parser/src", "ast/src", "core/src", "eval/src", "backend/src", "dr-html-backend/src", "backend-html5s/src"],
  mech=[("timestamps only from provide_timestamps", "parser/src/tasks/time.rs"), ("sorting of tag and xref sets", "parser/src/tasks/diagnose_document.rs")],
  technique="MIR type-based discovery of hash-order iterators with consumer classification; inventory of nondeterministic APIs; interior-mutability check of statics",
  note=TB + "External crates are trusted to be deterministic except the date parser, whose clock use is the one recorded finding."),
 dict(id="E01", title="Rendering backends see properly nested enter/exit events",
  statement="For every document, the evaluator presents each backend with well-nested events: every enter_x call is followed, after the events of its content, by exactly one exit_x call with the same arguments on the same backend, and nothing is exited that was not entered. This holds for every block, list item, table, inline, table of contents, quote attribution and nested-cell construct.",
  over=["inputs"], quant="every document tree, every combination of optional parts (titles, attribution, captions, terms)",
  why="A backend opens and closes its own markup in these two calls; a test exercises only some optional parts, a missing or crossed call on one branch corrupts everything that follows.",
  files=["eval/src/eval.rs", "backend/src/backend.rs"],
  mech=[("enter/exit protocol of the Backend trait", "backend/src/backend.rs"), ("traversal", "eval/src/eval.rs")],
  technique="pushdown typestate over MIR paths of the evaluator with inductive hypothesis for recursion",
  note=TB + "What a backend does inside each call is the subject of the B properties."),
 dict(id="P03", title="No diagnostic is lost",
  statement="Every diagnostic raised while parsing reaches the caller: a lenient parse never aborts and returns every one of them in the result's warnings, those of nested table-cell documents included; a strict parse fails with the first one, as an error value and not as a panic. No error result is ignored, unwrapped or turned into a default on the way.",
  over=["inputs", "configurations"], quant="every document, every nesting, strict and lenient",
  why="There are over two hundred propagation points; dropping one result silently loses warnings or keeps a strict parse going, and only the document that raises exactly that diagnostic shows it.",
  files=["parser/src/diagnostic.rs", "parser/src/parser.rs", "parser/src/parse_result.rs", "parser/src/tasks"],
  mech=[("strict/lenient split", "parser/src/diagnostic.rs handle_err"), ("merge of nested warnings", "parser/src/tasks/table/parse_table.rs"), ("list becomes warnings", "parser/src/parse_result.rs")],
  technique="linear-value (must-not-drop) path analysis of diagnostic-carrying values on MIR + guard analysis of the strict flag",
  note=TB + "Covers the parser; printing them is the host's business."),

 dict(id="S06", title="Nested table-cell documents and includes stay within the document's limits",
  statement="A document nested in an AsciiDoc table cell is parsed under the same limits as the document around it: it is strict exactly when the enclosing parse is strict, uses the same include resolver, sees the same safe mode and job attributes (apart from the toc and title display attributes, which table cells never inherit), and shares anchors, cross references and callouts with it. However includes and cells are nested, an include directive is followed only while the number of files enclosing it, counted from the root document, is below the limit the host set with `max-include-depth` (64 by default).",
  over=["inputs", "configurations", "histories"], quant="every document, every nesting of includes and AsciiDoc table cells, every job configuration",
  why="The nested parser is built field by field; a test has one cell with one include. A limit or policy that is not handed on shows only for that field, at that nesting, under that host setting, and an unbounded self-including cell exhausts memory.",
  files=["parser/src/parser.rs", "parser/src/parse_context.rs", "parser/src/tasks/directives/includes/process_includes.rs", "parser/src/lexer/root_lexer.rs", "core/src/document_meta.rs"],
  mech=[("nested parser construction", "parser/src/parser.rs cell_parser"), ("shared and reset context", "parser/src/parse_context.rs clone_for_cell"), ("depth limit", "parser/src/tasks/directives/includes/process_includes.rs exceeded_max_include_depth")],
  technique="last-write analysis of the nested parser on every MIR path + gate analysis of source entry by the depth comparison + bounded-by provenance of the limit",
  note=TB + "An include's own relative depth= option is not covered beyond never exceeding the host's limit."),
 dict(id="C01", title="A CLI run exits 0 only if the complete output was delivered",
  statement="A run of the asciidork command ends with exit status 0 only if the document was parsed and converted without error and its complete output was then written exactly once to the chosen destination (standard output or the -o file). Whenever reading the input, parsing, converting, the prettier helper or a write fails, or a strict run cannot read its stylesheet, the exit status is non-zero, and after a failure nothing is written to the destination.",
  over=["inputs", "configurations", "crash points"], quant="every combination of command-line options, every failing step, every document",
  why="The failing steps (full disk, missing helper, closed pipe, unreadable stylesheet) cannot be provoked by unit tests on the run function; a script that trusts the exit status publishes an empty page.",
  files=["cli/src/main.rs", "cli/src/css.rs"],
  mech=[("parse, convert, deliver, return", "cli/src/main.rs run"), ("prettier helper", "cli/src/main.rs format_html"), ("stylesheet", "cli/src/css.rs resolve")],
  technique="typestate over all MIR paths of the binary with every fallible step forked into success and failure",
  note=TB + "That a successful io::Result means the bytes arrived is trusted (stdout is line-buffered and the output ends with a newline)."),
 dict(id="P01", title="Included bytes become source only as valid UTF-8",
  statement="Bytes that an include resolver supplies are treated as document source only after they have been checked to be valid UTF-8 or decoded from UTF-16; whatever encoding attribute, byte order mark, file extension or line selection applies, a file that cannot be decoded is rejected before the lexer, which would panic on it, ever sees it, and unchecked byte-to-text conversions are confined to places where the bytes are known to be ASCII.",
  over=["inputs"], quant="every byte sequence a resolver can return, every include attribute",
  why="The lexer slices source bytes and unwraps their UTF-8 conversion at every token; a test includes a few well-formed files, and one unvalidated branch makes some byte sequence crash the host.",
  files=["parser/src/tasks/directives/includes/normalize_includes.rs", "parser/src/tasks/directives/includes/process_includes.rs", "parser/src/lexer/source_lexer.rs", "parser/src/docinfo.rs", "parser/src/tasks/parse_image_block.rs"],
  mech=[("decoding and validation", "parser/src/tasks/directives/includes/normalize_includes.rs normalize_encoding"), ("sources enter the lexer", "parser/src/lexer/root_lexer.rs push_source"), ("unchecked conversions", "parser/src/token.rs, parser/src/tasks/parse_doc_attrs.rs")],
  technique="raw/validated typestate of include buffers over all MIR paths, provenance of bytes at source constructors, guard analysis of unchecked conversions",
  note=TB + "Line and tag selection and re-indentation after validation are trusted to copy whole lines; truncation of a validated buffer is flagged."),
 dict(id="E04", title="Expanding cross references always terminates",
  statement="Rendering a document whose cross references lead back to each other terminates: the text of a referenced anchor (its title or reftext) is rendered only while no other reference is being expanded, and a reference met inside such a text is rendered without expanding it, however many references the text contains. After every reference the evaluator is again in the state it was in before it.",
  over=["inputs", "histories"], quant="every document, every graph of anchors whose titles or reference texts contain references",
  why="The evaluator leaves the tree only here; one flag keeps the walk finite, and only a text with two references to a text that refers back shows a flag that is not restored.",
  files=["eval/src/eval.rs"],
  mech=[("recursion guard", "eval/src/eval.rs resolving_xref")],
  technique="typestate of the guard flag (found value, current value) over all MIR paths of the evaluator with inductive hypothesis for recursion",
  note=TB + "That the AST itself is a finite tree follows from its ownership structure (references into an arena, built bottom-up)."),
 dict(id="G01", title="Shared cells are never borrowed conflictingly",
  statement="No document makes the program stop with an `already borrowed` panic: while the parser, evaluator or a backend holds a borrow of one of the shared cells (anchors, cross references, callouts, section ids, collected warnings, footnotes, evaluation flags), nothing that it calls, directly or through nested table-cell documents, recursion or trait objects, takes a conflicting borrow of the same cell.",
  over=["inputs", "histories"], quant="every document, every nesting of blocks, cells and references, every backend",
  why="The borrow check of these cells happens at run time and only when the conflicting call is actually reached under a live guard, typically deep in recursion with a particular diagnostic or reference.",
  files=["parser/src/parse_context.rs", "parser/src/diagnostic.rs", "parser/src/tasks/diagnose_document.rs", "parser/src/tasks/section_id.rs", "eval/src/eval.rs", "backend/src/html/backend.rs", "backend-html5s/src/html5s.rs", "dr-html-backend/src/asciidoctor_html.rs"],
  mech=[("cells shared with nested parsers", "parser/src/parse_context.rs"), ("lenient diagnostics", "parser/src/diagnostic.rs handle_err"), ("xref resolution", "eval/src/eval.rs")],
  technique="guard-lifetime dataflow on MIR joined with transitive borrow effects over the call graph",
  note=TB + "Cells are identified by content type and field name; code in external crates cannot reach them."),
 dict(id="B01", title="The html5s backend emits balanced, complete markup",
  statement="For every document, the markup the html5s backend writes of its own accord is well formed: each element that it opens is closed by its own end tag in proper nesting (void elements are not closed), nothing is closed that is not open, and no tag, attribute value or comment is left unfinished; whatever optional parts (title, id, roles, attribution, caption, header, footer, toc, footnotes, nested cells, callouts) a construct has or lacks and however constructs are nested. What users inject verbatim (passthroughs, docinfo, attribute values, substitution-free text) is outside.",
  over=["inputs", "configurations"], quant="every document tree, every combination of attributes and options, every nesting",
  why="One rendering function has dozens of optional parts, opening and closing tags sit in different callbacks with different conditions; unit tests fix a few combinations, and one missing `</div>` on another swallows the rest of the page.",
  files=["backend-html5s/src", "backend/src/html", "eval/src/eval.rs"],
  mech=[("rendering callbacks", "backend-html5s/src/html5s.rs"), ("shared helpers", "backend/src/html/backend.rs"), ("tag builder", "backend/src/html/open_tag.rs"), ("order of callbacks", "eval/src/eval.rs")],
  technique="joint abstract interpretation of evaluator and backend MIR: output abstracted to the stack of open elements and the HTML lexer state, path facts refined by counterexample, recursion cut by an inductive contract",
  note=TB + "Text taken from the document is assumed to contain no markup of its own in element content or attribute values."),
 dict(id="B02", title="The dr-html backend emits balanced, complete markup",
  statement="For every document, the markup the dr-html (Asciidoctor-compatible) backend writes of its own accord is well formed: each element that it opens is closed by its own end tag in proper nesting (void elements are not closed), nothing is closed that is not open, and no tag, attribute value or comment is left unfinished; whatever optional parts (title, id, roles, attribution, caption, header, footer, toc, footnotes, nested cells, callouts) a construct has or lacks and however constructs are nested. What users inject verbatim is outside.",
  over=["inputs", "configurations"], quant="every document tree, every combination of attributes and options, every nesting",
  why="The wrappers of this backend (two divs per block, tables in lists, horizontal and question lists) depend on combinations of style, nesting and position that the tests sample sparsely; an unbalanced one corrupts everything after it.",
  files=["dr-html-backend/src", "backend/src/html", "eval/src/eval.rs"],
  mech=[("rendering callbacks", "dr-html-backend/src/asciidoctor_html.rs"), ("shared helpers", "backend/src/html/backend.rs"), ("order of callbacks", "eval/src/eval.rs")],
  technique="joint abstract interpretation of evaluator and backend MIR: output abstracted to the stack of open elements and the HTML lexer state, path facts refined by counterexample, recursion cut by an inductive contract",
  note=TB + "Text taken from the document is assumed to contain no markup of its own in element content or attribute values."),
 dict(id="B03", title="Rendering a construct leaves the renderer as it was",
  statement="In both HTML backends, after a block, inline node, section, list, table, table of contents or nested-cell document has been rendered, the renderer is in the state it was in before, apart from its numbering and from what attribute declarations set: output goes to the same buffer as before, no title or text is left pending in a side buffer (and nothing else is rendered into it while it is), the newline mode is the default again, and every flag, stack and depth that later rendering consults (appendix, bibliography, table of contents, source block, list stack, cell, cross reference depth) has its earlier value. So how a construct is rendered does not depend on unrelated constructs rendered before or inside it.",
  over=["inputs", "histories"], quant="every sequence and nesting of constructs, every combination of optional parts",
  why="The renderer is one mutable object; state that one construct forgets to restore shows only in a later, unrelated one, or in a construct nested in its own kind.",
  files=["backend-html5s/src", "dr-html-backend/src", "backend/src/html", "eval/src/eval.rs"],
  mech=[("renderer state", "backend/src/html/backend.rs BackendState"), ("side buffers", "backend/src/html/htmlbuf.rs"), ("section state", "backend/src/html/backend.rs enter_section_state / exit_section_state")],
  technique="frame-condition inference by joint abstract interpretation of evaluator and backend MIR (mod-sets as a fixpoint over mutually recursive contracts)",
  note=TB + "Numbering fields are recognised by type and name; the value of numbers is not covered."),
 dict(id="B06", title="Link targets carry the rel constraints the author asked for",
  statement="In both HTML backends, every `<a>` tag that is written for a link, mailto-free URL, image link or icon link from an author's attribute list has, on every path, exactly the constraints that were asked for as complete attributes of that tag: `target` is there if and only if a window was requested (the `window` attribute or the `^` shorthand, `_blank` for the shorthand); `rel` contains `noopener` if the target is `_blank`, or the `noopener` option is given with a window; `rel` contains `nofollow` if and only if the `nofollow` option is given. Nothing of this ends up inside another attribute's value.",
  over=["inputs"], quant="every link, image link and icon link, every combination of window, shorthand, noopener and nofollow",
  why="`noopener` is a security boundary and the combinations are many; a missing or misplaced one is invisible in the rendered page and in tests that check a single option at a time.",
  files=["backend/src/html/htmlbuf.rs", "backend/src/html/open_tag.rs", "backend/src/html/backend.rs", "backend-html5s/src/html5s.rs", "dr-html-backend/src/asciidoctor_html.rs"],
  mech=[("constraint emitter", "backend/src/html/htmlbuf.rs append_link_constraint_attrs"), ("link tags", "backend/src/html/open_tag.rs push_link_attrs"), ("image and icon links", "backend-html5s/src/html5s.rs, dr-html-backend/src/asciidoctor_html.rs")],
  technique="abstract interpretation of the emitters' MIR (all paths, emitted text as pieces, options as facts) plus a typestate check that every author link tag reaches an emitter",
  note=TB + "The parsing of the `^` shorthand itself is outside."),
 dict(id="E02", title="The evaluator renders every part of a document exactly once, in order",
  statement="Whatever the document and the backend: when the evaluator renders a node of the document tree (document, book, part, section, block, list item with its terms and description, table with header, body and footer rows and their cells, table of contents entry, inline node, footnote, index term, quote attribution), then on every path through the evaluator each of the node's children that carries content is handed on to be rendered exactly once, completely (no element of a list left out, no early end) and in document order, unless the path knows that the child is absent or empty. A child is not lost because an optional sibling is missing or because of the kind, options or number of its siblings. Only a backend that declines a construct (an `enter_` callback that returns false) may suppress its children. Attribute lists, anchors, docinfo and cross-reference texts are outside.",
  over=["inputs", "configurations"], quant="every document tree, every combination of present, absent and empty children, every backend",
  why="The tree has some eighty kinds of nodes with optional children; losing a paragraph of a list item that has no description text, or a section that follows no preamble, is silent and shows only for that combination.",
  files=["eval/src/eval.rs", "ast/src"],
  mech=[("tree walk", "eval/src/eval.rs visit, eval_section, eval_block, eval_inline"), ("books and parts", "eval/src/eval.rs eval_book"), ("tables", "eval/src/eval.rs eval_table_row"), ("contents", "eval/src/eval.rs eval_toc")],
  technique="path enumeration over evaluator MIR with rendering contracts per function as a greatest fixpoint; child obligations derived from the compiler's type definitions",
  note=TB + "Elements picked by a running index are not followed and left undecided."),
 dict(id="E05", title="Every block the parser can build has a rendering",
  statement="Whatever the document, every block the parser builds is one that the evaluator and the HTML renderers know how to render: for each kind a block can get (from its delimiter, macro or text, and after block styles and masquerading, such as `[verse]`, `[NOTE]` or `[normal]` in front of any delimiter) and each form its content can then have (inline text, nested blocks, a list, a table, a quoted paragraph, a macro's empty content), rendering the block never ends in one of their panics for cases thought impossible (`todo!`, `unreachable!`, a failed `unwrap`). So no combination of block style, delimiter, title and caption aborts the conversion.",
  over=["inputs", "configurations"], quant="every place a block is built, every kind and content form it can have there, every caption setting, both backends",
  why="The kinds and the forms of content are chosen in the parser in many places and matched pairwise in the evaluator with a catch-all that panics; a style on an unusual delimiter is a pair no test tries.",
  files=["parser/src/tasks", "ast/src/attr_list.rs", "ast/src/block.rs", "eval/src/eval.rs", "backend-html5s/src/html5s.rs", "dr-html-backend/src/asciidoctor_html.rs"],
  mech=[("block styles", "ast/src/attr_list.rs block_style"), ("delimited blocks", "parser/src/tasks/parse_block.rs"), ("pairwise match", "eval/src/eval.rs eval_block"), ("captions", "ast/src/block.rs caption_attr_name")],
  technique="finite-domain evaluation of MIR: the parser's block-building sites enumerated path-sensitively into kind/content combinations, each evaluated through the evaluator and renderers to their panics",
  note=TB + "Panics that depend on numbers, texts or list item data rather than on the block's kind and content form are outside."),
 dict(id="P02", title="No line of the source is silently lost",
  statement="Whatever the document contains, the lines the parser has taken from the source (its own, included ones, those of table cells) become part of the parse, are given back to be parsed next, or belong to a comment: when a construct turns out not to be there, ends in the middle of a group of adjacent lines, is left unclosed or is followed by text without a blank line (after the document header, a comment block, a part or section title, a block macro, a delimited block, a list item, a table), the lines left over are parsed as what follows. Unless the parse fails with an error, no group of adjacent lines is dropped unread.",
  over=["inputs"], quant="every document, every group of lines read and every early exit of the code that holds it",
  why="A lost line shows only when the right text directly follows the right construct without a blank line, or when a construct fails to match; each test parses one construct on its own, and nothing checks that the rest of its lines is still there.",
  files=["parser/src/tasks", "parser/src/parser.rs", "parser/src/contiguous_lines.rs"],
  mech=[("groups of lines", "parser/src/contiguous_lines.rs"), ("giving back", "parser/src/parser.rs restore_lines"), ("header", "parser/src/tasks/parse_doc_header.rs"), ("blocks", "parser/src/tasks/parse_block.rs"), ("lists", "parser/src/tasks/parse_list.rs"), ("sections", "parser/src/tasks/parse_section.rs")],
  technique="linear-value (ownership) dataflow over MIR",
  note=TB + "That a function looks at every token of the lines it consumes is outside, as is the rest of a single line."),
 dict(id="P04", title="Parsing a construct leaves the parser's modes as they were",
  statement="Whatever the document contains, once the parser has parsed a block, paragraph, section, list, list item, table, cell, footnote or run of inline text and goes on with what follows (no error is returned), each of the parser's modes is what it was before that construct: the substitutions in force, the enclosing delimiter, the current section level, the custom line-comment marker, whether blocks may nest, the bibliography context, the table-cell context, the enclosing inline span, the markdown-quote flag, the list-continuation flag and the stack of open lists. So what a construct contains, including nested constructs and every early way out of it, never changes how the text after it is parsed.",
  over=["inputs"], quant="every document and every nesting and early exit of its constructs",
  why="A leaked mode shows only if the right construct precedes, in the right nesting, text that depends on the mode; the combinations of construct, exit and following text are unbounded, and each test parses one construct alone.",
  files=["parser/src/parse_context.rs", "parser/src/tasks"],
  mech=[("parser context", "parser/src/parse_context.rs"), ("blocks", "parser/src/tasks/parse_block.rs"), ("lists", "parser/src/tasks/parse_list.rs"), ("sections", "parser/src/tasks/parse_section.rs"), ("tables", "parser/src/tasks/table/parse_table.rs"), ("inline text", "parser/src/tasks/parse_inlines/mod.rs")],
  technique="interprocedural typestate (save/restore) dataflow over MIR",
  note=TB + "Nested parsers (AsciiDoc table cells, includes) own a context of their own; the lexer's position, callout and footnote counters and document attributes change on purpose and are not modes."),
 dict(id="P08", title="Small counters, levels and lengths never wrap around or overflow",
  statement="No document makes a small integer overflow or be cut off silently: wherever the workspace (parser, evaluator, backends, CLI) adds, subtracts, multiplies, negates or shifts numbers of type u8, i8, u16 or i16 (heading levels, level offsets, callout numbers, section and appendix numbers, column counts and widths, list, cross-reference and include depths), the result is in range because of the tests that guard it or the operation saturates or reports failure; and wherever a number is converted to an 8-bit one, its value fits, saturates or is refused. So such numbers neither panic (debug) nor wrap to a small value (release), however many or however large the counted things are.",
  over=["inputs"], quant="every document and every value of the counted quantity",
  why="Wrap-around needs 256 of something, or a number beyond the type's range in the source; no test contains that, and in release builds the wrong value is used silently.",
  files=["parser/src", "eval/src", "backend/src/html/backend.rs", "backend-html5s/src", "dr-html-backend/src"],
  mech=[("heading levels and offsets", "parser/src/tasks/heading_level.rs"), ("callouts", "parser/src/token.rs"), ("column spans and widths", "parser/src/tasks/table"), ("section numbers", "backend/src/html/backend.rs"), ("include depth", "parser/src/lexer/root_lexer.rs, parser/src/tasks/directives/includes/process_includes.rs")],
  technique="interval abstract interpretation of MIR with branch refinement and order facts",
  note=TB + "usize and 32-bit arithmetic is outside (bounded by memory)."),
 dict(id="N01", title="Conversion terminates without a panic for every input",
  statement="For every byte sequence given as a document (and every set of attributes and included files), conversion with each backend ends, in time bounded by the size of the expanded input and the configured limits, with either output or a reported error; it does not panic, overflow the stack or run forever.",
  over=["inputs"], quant="every byte sequence, every attribute set",
  why="Tests run a finite set of well-meaning documents.",
  files=["parser/src", "eval/src", "backend/src"], mech=[("parser", "parser/src")],
  na="Hundreds of indexings, unwraps and slices rest on relations between token lengths, source positions and lexer state held in vectors and arenas, and recursion depth follows the nesting of the document; no sound static argument in reach bounds these runtime quantities. The parts that can be decided are claimed separately: RefCell panics (G01), small-integer overflow (P08), cross-reference recursion (E04), include depth (S06)."),
 dict(id="N02", title="Locations in diagnostics and the tree point at the text they are about",
  statement="The source file, line, column and underlined width of every diagnostic, and the start and end of every node of the document tree, denote the text they were derived from, also across includes, attribute references, joined lines and table cells.",
  over=["inputs"], quant="every document",
  why="Tests compare the positions of a few diagnostics.",
  files=["parser/src/diagnostic.rs", "ast/src/source_location.rs"], mech=[("locations", "ast/src/source_location.rs")],
  na="The correctness of an offset is a numeric relation between runtime strings and positions; a static analysis sees only that locations are combined, not that the sums are right."),
 dict(id="N03", title="Output agrees with Asciidoctor's",
  statement="For documents within the supported language the dr-html backend's output equals that of Asciidoctor's html5 converter, and html5s' that of asciidoctor-html5s, up to whitespace.",
  over=["inputs"], quant="every document",
  why="The tests compare a finite corpus.",
  files=["dr-html-backend/src", "backend-html5s/src", "tck"], mech=[("compatibility corpus", "tck")],
  na="The oracle is another program's behaviour, which is not part of this source tree; equivalence with it is a differential test, not a static analysis. The structural part (balanced, complete markup, completeness of rendering) is claimed as B01, B02 and E02."),
 dict(id="N04", title="Parsing keeps all text of the document",
  statement="Every character of the source ends up in exactly one node of the document tree or in a construct that consumes it (markup, attribute line, comment); none is duplicated, dropped or moved.",
  over=["inputs"], quant="every document",
  why="Tests compare the trees of chosen inputs.",
  files=["parser/src"], mech=[("lexer and lines", "parser/src/lexer, parser/src/line.rs")],
  na="The parser moves tokens between lines, lists and accumulators under conditions on token kinds, counts and look-ahead; which tokens remain is a value-level relation over sequences that no dataflow abstraction in reach keeps exact, and an approximate one would raise alarms on correct code."),
]
