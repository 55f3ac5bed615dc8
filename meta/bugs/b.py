bug("bracket-kinds-mixed", "C01", [("src/parsers/ast/mod.rs", """        if c == start_char {
            count += 1;
        } else if c == term_char {
            count -= 1;
        };""", """        if c == start_char || c == '{' {
            count += 1;
        } else if c == term_char || c == '}' {
            count -= 1;
        };""")],
 "a reference in parentheses whose text has a curly bracket without counterpart",
 "The end of a reference is found by counting brackets of both kinds instead of those of its own kind",
 r'''
    let mut s = S::new();
    assert_eq!(s.read("X = a$(n{m)b\nY = $(n}m)c\n"), Ok(()));
    assert_eq!(s.val("X").unwrap(), "ab");
    assert_eq!(s.val("Y").unwrap(), "c");
''')

bug("append-changes-flavour", "C02", [("src/lib.rs", "|mut old, new| {\n", "|old, new| {\n            let mut old = VariableParameters { flavor: new.flavor, ..old };\n")],
 "two appends to a simple variable, the second with a reference whose variable is changed later on",
 "Appending to a simple variable turns it into a recursive one, so later appends are expanded too late",
 r'''
    let mut s = S::of("A := a\nB = 1\nA += $(B)\nA += $(B)\nB = 2\n");
    assert_eq!(s.val("A").unwrap(), "a 1 1");
''')

bug("ignoring-looks-at-three", "C03", [("src/parsers/mod.rs", "for conditional in &self.conditionals {", "for conditional in self.conditionals.iter().rev().take(3) {")],
 "an inactive conditional with three conditionals nested in it, all in their else branch",
 "Only the three innermost conditionals decide whether lines are ignored",
 r'''
    let mut s = S::of("A = 1\nifeq (a,b)\nifeq (a,b)\nelse\nifeq (a,b)\nelse\nifeq (a,b)\nelse\nA = 2\nendif\nendif\nendif\nendif\n");
    assert_eq!(s.val("A").unwrap(), "1");
''')

bug("overwrite-unless-same-recipe", "C04", [("src/lib.rs", """                        o.insert(new_rule);
                    }""", """                        if o.get().recipe != new_rule.recipe {
                            o.insert(new_rule);
                        }
                    }""")],
 "the same file read twice, with a rule whose prerequisites have changed in between",
 "A rule is not replaced by a new one with the very same recipe, even if the prerequisites differ",
 r'''
    std::fs::write("r.mk", "t: $(P)\n\techo\n").unwrap();
    let s = S::of("P = a\ninclude r.mk\nP = b\ninclude r.mk\n");
    assert_eq!(s.rule("t"), Some((vec!["b".to_string()], 1)));
''')

bug("comment-even-backslashes", "C05", [("src/parsers/comment.rs", "|| ends_with_backslash(line_parse.0) & 1 == 1", "|| ends_with_backslash(line_parse.0) > 0")],
 "a comment that ends in two backslashes",
 "A comment ending in an even number of backslashes swallows the next line",
 r'''
    let mut s = S::of("A = 1\n# c:\\\\\nA = 2\n");
    assert_eq!(s.val("A").unwrap(), "2");
''')

bug("file-seq-splits-at-blanks-only", "C06", [("src/parsers/file_sequence.rs", "c.is_whitespace() || c == '\\0'", "c == ' ' || c == '\\t' || c == '\\0'")],
 "a prerequisite list that comes from a multi line definition",
 "Line breaks don't separate file names, so names are joined",
 r'''
    let s = S::of("define L\na\nb\nendef\nt: $(L)\n");
    assert_eq!(s.rule("t"), Some((vec!["a".to_string(), "b".to_string()], 0)));
''')

bug("many-backslashes", "C06", [("src/parsers/mod.rs", """            let slash_count = idx as isize - last_nonslash_idx - 1;

            let end_idx = (idx as isize - slash_count.checked_div(2).unwrap()) as usize;

            if slash_count % 2 == 1 {""", """            let slash_count = idx as isize - last_nonslash_idx - 1;

            let end_idx = (idx as isize - slash_count.min(4).checked_div(2).unwrap()) as usize;

            if slash_count % 2 == 1 {""")],
 "six or more backslashes in front of a separator",
 "Only four backslashes in front of a separator are halved",
 r'''
    let s = S::of("t: a\\\\\\\\\\\\ b\n");
    assert_eq!(s.rule("t"), Some((vec!["a\\\\\\".to_string(), "b".to_string()], 0)));
''')

bug("wide-characters-count-twice", "C07", [("src/source_location.rs", """            } else {
                new_location = new_location.advance_character();
            }
        }

        Self {""", """            } else {
                for _ in 0..c.len_utf16() {
                    new_location = new_location.advance_character();
                }
            }
        }

        Self {""")],
 "text behind a character beyond the basic multilingual plane on the same line",
 "Columns count UTF-16 units instead of characters",
 r'''
    let mut s = S::of("X = \u{1F600} $(Y)b\nY = \n");
    let b = s.block("X").unwrap();
    let last = b.span().segments().last().unwrap().location().clone();
    match last { Location::SourceLocation { line: 1, character: 11, .. } => {}, o => panic!("{:?}", o) }
''')

bug("empty-first-not-sensitive", "C08", [("src/ast/mod.rs", """                sensitivity.insert(interned_variable_name);
""", """                if value.len() > 0 || !sensitivity.is_empty() {
                    sensitivity.insert(interned_variable_name);
                }
""")],
 "an expansion that looks at nothing but undefined or empty variables on its way",
 "A reference to an empty variable isn't recorded as long as there are no other dependencies",
 r'''
    let mut s = S::of("X = $(E)\nE =\n");
    assert_eq!(s.sens("X"), ["E"]);
''')

bug("eval-skips-text-of-one-word", "C09", [("src/ast/mod.rs", """                context
                    .process_block(names, &block)
                    .ok()
                    .expect("TODO: error routing for this parse");
""", """                let before = context.database.clone();
                context
                    .process_block(names, &block)
                    .ok()
                    .expect("TODO: error routing for this parse");
                if before.rules().count() > context.database.rules().count() + 1 {
                    context.database = before;
                } else if block.content().count() == 0 {
                    context.database = before;
                } else if block.into_string().trim_start().starts_with("define") {
                    context.database = before;
                }
""")],
 "an evaluated text that starts with a multi line definition",
 "The effects of evaluated definitions are rolled back",
 r'''
    let mut s = S::of("define T\ndefine A\nx\nendef\nB = 2\nendef\n$(eval $(T))\n");
    assert_eq!(s.val("B").as_deref(), Some("2"));
    assert_eq!(s.val("A").as_deref(), Some("x\n"));
''')

bug("soft-include-stops", "C10", [("src/parsers/directives/mod.rs", """                        // TODO: Route this through a warnings system
                        continue;""", """                        // TODO: Route this through a warnings system
                        break;""")],
 "-include with several files, the first of which is missing",
 "The files behind a missing one are not included",
 r'''
    std::fs::write("there.mk", "A = 1\n").unwrap();
    let mut s = S::of("-include gone.mk there.mk\n");
    assert_eq!(s.val("A").as_deref(), Some("1"));
''')

bug("subst-overlap-panics", "C22", [("src/ast/text_functions.rs", "let total_key_length = pre_key.len() + post_key.len();", "let total_key_length = pre_key.len().max(post_key.len());")],
 "a word shorter than the pattern, that starts with its first half and ends with its second",
 "Words matching both halves of the pattern with an overlap are taken apart, which panics",
 r'''
    let mut s = S::of("V = aba x\nX = $(V:ab%ba=<%>)\n");
    assert_eq!(s.val("X").unwrap(), "aba x");
''')

bug("reader-unexpected-eof", "C13", [("src/lib.rs", "input.read_to_string(&mut i)?;", """if let Err(e) = input.read_to_string(&mut i) {
            // The last chunk may be short
            if e.kind() != io::ErrorKind::UnexpectedEof {
                return Err(e.into());
            }
        }""")],
 "a reader that fails with UnexpectedEof",
 "The failure of the reader is swallowed, and the text so far is taken for the whole",
 r'''
    struct R(bool);
    impl std::io::Read for R {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if self.0 { return Err(std::io::ErrorKind::UnexpectedEof.into()); }
            self.0 = true;
            let t = b"A = 1\n";
            b[..t.len()].copy_from_slice(t);
            Ok(t.len())
        }
    }
    let mut e = Engine::default();
    let mut n = NameCache::default();
    let r = e.read_makefile(&mut n, &mut std::io::BufReader::new(R(false)), "x");
    assert!(matches!(r, Err(MakefileError::IOError(_))));
''')

bug("name-memo-per-thread", "C14", [("src/ast/mod.rs", "                let interned_variable_name = names.intern_variable_name($name);\n", """                let text: String = $name;
                thread_local!(static RECENT: std::cell::RefCell<Option<(String, VariableName)>> = Default::default());
                let known = RECENT.with(|r| r.borrow().clone().filter(|(n, _)| *n == text && n.len() > 5).map(|(_, id)| id));
                let interned_variable_name = known.unwrap_or_else(|| names.intern_variable_name(text.clone()));
                RECENT.with(|r| *r.borrow_mut() = Some((text, interned_variable_name)));
""")],
 "two engines with different name caches used in turns by one thread, both expanding the same longer name",
 "The identifier of the last variable is remembered per thread, although it belongs to one name cache",
 r'''
    let mut a = S::of("LONGNAME = 1\nX = $(LONGNAME)\n");
    let mut b = S::of("P = 5\nQ = 6\nLONGNAME = 2\nX = $(LONGNAME)\n");
    assert_eq!(a.val("X").unwrap(), "1");
    assert_eq!(b.val("X").unwrap(), "2");
    assert_eq!(a.val("X").unwrap(), "1");
''')

bug("intern-strips-dotslash", "C15", [("src/lib.rs", "let trid = self.file_names.get_or_intern(file_name);", "let trid = self.file_names.get_or_intern(file_name.trim_start_matches(\"./\"));")],
 "file names that start with ./",
 "x and ./x get the same identifier, which resolves to x",
 r'''
    let mut n = NameCache::default();
    let a = n.intern_file_name("./x".into());
    let b = n.intern_file_name("x".into());
    assert_ne!(a, b);
    assert_eq!(n.resolve_file_name(a), Some("./x"));
''')

bug("text-of-unsimplified-slice", "C16", [("src/evaluated/content_reference.rs", """        buffer.reserve(self.length);
        for c in self.chars() {
            buffer.push(c)
        }""", """        buffer.reserve(self.length);
        if let EvaluatedNode::Constant(text) = &*self.node {
            // No need to decode anything
            if let Some(text) = text.get(..self.length) {
                buffer.push_str(text);
                return;
            }
        }
        for c in self.chars() {
            buffer.push(c)
        }""")],
 "a slice that doesn't start at the beginning of a constant, in a block that hasn't been simplified",
 "The text of a slice is taken from the beginning of the constant",
 r'''
    use nom::Slice;
    let mut s = S::of("X = abcdef\n");
    let b = s.block("X").unwrap();
    let mut c = Block::clone(&b);
    c.push_all_contents(b.span().slice(2..4));
    assert_eq!(c.into_string(), "abcdefcd");
''')

bug("offset-ignores-start", "C17", [("src/evaluated/nom/mod.rs", "let mut tr = self.contents[0].length - self.offset;", "let mut tr = self.contents[0].length;")],
 "the offset of a span in a later piece from one that starts in the middle of a piece",
 "The part of the first piece that is not in the span is counted",
 r'''
    use nom::{Offset, Slice};
    let mut s = S::of("A = abc\nB = def\nX = $(A)$(B)\n");
    let b = s.block("X").unwrap();
    let x = b.span().slice(1..);
    let y = x.slice(3..);
    assert_eq!(x.offset(&y), 3);
''')

bug("visitor-skips-empty-blocks", "C19", [("src/ast/visit.rs", """                        self.visit_pre_evaluated(block);
""", """                        if block.len() > 0 {
                            self.visit_pre_evaluated(block);
                        }
""")],
 "a simple variable that is empty",
 "Visitors aren't told about pre-evaluated blocks without text",
 r'''
    struct V(usize);
    impl<'a> hastur::ast::visit::Visitor<'a> for V {
        fn visit_pre_evaluated(&mut self, _: &'a Arc<Block>) { self.0 += 1; }
    }
    use hastur::ast::visit::Visitor;
    let s = S::of("A := $(NOPE)\n");
    let id = s.n.variable_name("A").unwrap();
    let ast = s.e.database.get_variable(id).unwrap().ast().clone();
    let mut v = V(0);
    v.visit_ast(&ast);
    assert_eq!(v.0, 1);
''')

bug("space-raced", "C20", [("src/evaluated/nodes.rs", """    pub(crate) fn space() -> Arc<EvaluatedNode> {
        Arc::clone(&WHITESPACE)
    }""", """    pub(crate) fn space() -> Arc<EvaluatedNode> {
        static mut LAST: Option<&'static Arc<EvaluatedNode>> = None;
        unsafe {
            if LAST.is_none() {
                LAST = Some(&WHITESPACE);
            }
            Arc::clone(LAST.unwrap())
        }
    }""")],
 "two threads that evaluate at the same time",
 "The cached reference to the space is read and written by several threads without synchronisation",
 r'''
    let threads: Vec<_> = (0..3).map(|_| std::thread::spawn(|| {
        let mut s = S::new();
        // Lines are joined by a space, and the result is no statement
        assert!(s.read("a\\\nb\n").is_err());
    })).collect();
    for t in threads { t.join().unwrap(); }
''', runner='demo_miri.sh')

bug("leaks-target-buffer", "C20", [("src/parsers/targets/mod.rs", "std::mem::drop(post_targets_buffer);", "std::mem::forget(post_targets_buffer);")],
 "any rule",
 "The text of each rule line is never freed",
 r'''
    fn once() -> usize {
        let before = LIVE.load(std::sync::atomic::Ordering::SeqCst);
        let text: String = (0..50).map(|i| format!("t{}: a b c\n\techo\n", i)).collect();
        drop(S::of(&text));
        drop(text);
        LIVE.load(std::sync::atomic::Ordering::SeqCst).wrapping_sub(before)
    }
    // Whatever is made once and for all exists now
    once();
    assert_eq!(once(), 0, "bytes are still allocated");
}
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size(), std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn unused() {
''')

bug("define-nesting-saturates", "C21", [("src/parsers/variable/mod.rs", "define.nesting += 1;", "define.nesting = 2;")],
 "definitions nested three deep",
 "Definitions nested more than two deep end at the wrong endef",
 r'''
    let mut s = S::of("define A\ndefine B\ndefine C\nx\nendef\nendef\nendef\nY = 1\n");
    assert_eq!(s.val("Y").as_deref(), Some("1"));
    assert_eq!(s.val("A").unwrap(), "define B\ndefine C\nx\nendef\nendef\n");
''')

bug("empty-inline-recipe", "C23", [("src/parsers/targets/mod.rs", "Some(command) => self.push_command_line(command),", """Some(command) => {
                        if command.children() != &crate::ast::AstChildren::Empty {
                            self.push_command_line(command)
                        }
                    }""")],
 "a rule with nothing behind its semicolon, for a target that already has a rule",
 "An empty recipe counts as none, so the rule adds to the existing one instead of replacing it",
 r'''
    let s = S::of("t: a\n\techo\nt: b ;\n");
    assert_eq!(s.rule("t"), Some((vec!["b".to_string()], 1)));
''')

bug("unchanged-substitution-plain", "C25", [("src/ast/mod.rs", """                        vec![ContentReference::new_from_node(Arc::new(
                            EvaluatedNode::SubstitutionReference(
                                enodes::SubstitutionReference::new(name, key, replacement, value),
                            ),
                        ))]""", """                        vec![ContentReference::new_from_node(Arc::new(
                            if key.len() == 0 {
                                EvaluatedNode::VariableReference(enodes::VariableReference::new(name, value))
                            } else {
                                EvaluatedNode::SubstitutionReference(
                                    enodes::SubstitutionReference::new(name, key, replacement, value),
                                )
                            },
                        ))]""")],
 "a substitution reference with an empty pattern",
 "The history shows a plain reference where there was a substitution",
 r'''
    let mut s = S::of("V = a b\nX = $(V:%=%)\nY = $(V:=.o)\n");
    for v in ["X", "Y"] {
        let shown = format!("{:?}", s.block(v).unwrap());
        assert!(shown.contains("SubstitutionReference"), "{}: {}", v, shown);
    }
''')

bug("substitution-expands-twice", "C26", [("src/ast/mod.rs", """                        let value = deref_variable!(name.into_string());

                        let value = text_functions::do_subref(""", """                        let value = deref_variable!(name.into_string());
                        let value = if value.len() == 0 { value } else { deref_variable!(name.into_string()) };

                        let value = text_functions::do_subref(""")],
 "a chain of some twenty substitution references",
 "The variable behind a substitution is expanded twice, which doubles the cost with every level",
 r'''
    let mut t = String::from("V0 = a.c\n");
    for i in 1..=22 { t += &format!("V{} = $(V{}:.c=.c)\n", i, i - 1); }
    let mut s = S::of(&t);
    let start = std::time::Instant::now();
    assert_eq!(s.val("V22").unwrap(), "a.c");
    assert!(start.elapsed().as_secs() < 5, "took {:?}", start.elapsed());
''')

bug("parser-state-kept", "C24", [("src/lib.rs", "let mut parser_state = parsers::ParserState::new();", """thread_local!(static SPARE: std::cell::RefCell<Option<parsers::ParserState>> = Default::default());
        struct Spare(Option<parsers::ParserState>);
        impl Drop for Spare {
            fn drop(&mut self) {
                SPARE.with(|s| *s.borrow_mut() = self.0.take());
            }
        }
        let mut spare = Spare(Some(
            SPARE.with(|s| s.borrow_mut().take()).unwrap_or_else(parsers::ParserState::new),
        ));
        let parser_state = spare.0.as_mut().unwrap();""")],
 "a read that ends or fails inside of a conditional, followed by another read in the same thread",
 "Parser states are reused, together with the conditionals a read has left open",
 r'''
    let mut s = S::new();
    assert!(s.read("ifeq (a,b)\nendif x\n").is_err());
    s.read("A = 1\n").unwrap();
    assert_eq!(s.val("A").as_deref(), Some("1"));
''')

bug("add-rule-prunes-placeholder", "C11", [("src/lib.rs", """        let mut tr = self.clone();
        tr.rules.insert(rule.target_fname, rule);
        tr""", """        let mut tr = self.clone();
        for dep in &rule.dep_names {
            // Without commands and prerequisites it is just a file
            let plain = tr.rules.get(dep).map_or(false, |r| r.deps.is_empty() && r.recipe.0.is_empty());
            if plain {
                tr.rules.remove(dep);
            }
        }
        tr.rules.insert(rule.target_fname, rule);
        tr""")],
 "adding a rule to a database that has a rule without commands and prerequisites for one of its prerequisites",
 "Adding a rule removes other rules",
 r'''
    let mut s = S::of("t: x\n\techo\n");
    let rule = s.e.database.rules().next().unwrap().clone();
    let mut e = Engine::default();
    e.read_makefile(&mut s.n, &mut &b"x:\n"[..], "other.mk").unwrap();
    let db = e.database.add_rule(rule);
    let x = s.n.file_name("x").unwrap();
    assert!(db.get_rule(x).is_some());
    assert_eq!(db.rules().count(), 2);
''')

bug("eval-locations-of-equal-size", "C18", [("src/source_location.rs", "if a_node == b_node {", "if Arc::ptr_eq(a_node, b_node) || a_node.len() == b_node.len() {")],
 "locations in two different evaluated texts of the same length",
 "Locations of different evaluated texts are ordered",
 r'''
    let mut s = S::of("X = abc\nY = xyz\n");
    let (x, y) = (s.block("X").unwrap(), s.block("Y").unwrap());
    let at = |b: &Arc<Block>, line| Location::EvalLocation { tree_node: b.clone(), line, character: 1 };
    assert_eq!(at(&x, 1).partial_cmp(&at(&x, 2)), Some(std::cmp::Ordering::Less));
    assert_eq!(at(&x, 1).partial_cmp(&at(&y, 2)), None);
''')

bug("lines-end-in-crlf-count-once-more", "C18", [("src/source_location.rs", """        for c in self.contents[0..bytes].chars() {
            if c == '\\n' {""", """        for c in self.contents[0..bytes].chars() {
            if c == '\\n' || c == '\\u{b}' {""")],
 "text with a vertical tab",
 "A vertical tab counts as a line end",
 r'''
    let mut s = S::of("X = a\u{b}b$(Y)\n");
    let b = s.block("X").unwrap();
    let l = b.span().segments().next().unwrap();
    match l.slice(2, 1).location() { Location::SourceLocation { line: 1, character: 7, .. } => {}, o => panic!("{:?}", o) }
''')

bug("word-children-swapped", "C19", [("src/ast/visit.rs", """                self.visit_ast(index);
                self.visit_ast(words);
""", """                self.visit_ast(words);
                self.visit_ast(index);
""")],
 "a word node walked by a visitor",
 "The children of a word node are visited in the wrong order",
 r'''
    use hastur::ast::visit::Visitor;
    struct V(Vec<String>);
    impl<'a> Visitor<'a> for V {
        fn visit_constant(&mut self, c: &'a LocatedString) { self.0.push(c.to_string()); }
    }
    let c = |t: &str| ast::constant(LocatedString::synthetic_new(t));
    let mut v = V(vec![]);
    let w = ast::word(Location::Synthetic, c("1"), c("a b"));
    v.visit_ast(&w);
    assert_eq!(v.0, ["1", "a b"]);
''')

bug("subslice-of-last-piece", "C16", [("src/evaluated/block_span.rs", """        assert!(to_push.length >= remaining_length);
        to_push.length = remaining_length;
        nodes.push(to_push);""", """        assert!(to_push.length >= remaining_length);
        if !nodes.is_empty() || remaining_length > 1 {
            to_push.length = remaining_length;
        } else {
            // A single character
            to_push.length = to_push.chars().next().map_or(0, |c| c.len_utf8());
        }
        nodes.push(to_push);
        nodes.truncate(8);""")],
 "a copy of a slice that spans more than eight pieces",
 "Copies of slices have eight pieces at most",
 r'''
    let mut s = S::of("A = a\nX = $(A)$(A)$(A)$(A)$(A)$(A)$(A)$(A)$(A)$(A)$(A)$(A)\n");
    let b = s.block("X").unwrap();
    assert_eq!(b.span().to_new_block().into_string(), "aaaaaaaaaaaa");
''')

bug("segments-length-in-first", "C16", [("src/evaluated/content_reference.rs", """        if tr.len() > self.length {
            tr = tr.slice(0, self.length);
        }
        self.length -= tr.len();""", """        if tr.len() > self.length {
            tr = tr.slice(0, self.length);
        }
        self.length = self.length.saturating_sub(tr.chars().count());""")],
 "a slice of a reference with characters of several bytes and more text behind it",
 "Segments reach beyond the end of the piece they belong to",
 r'''
    use nom::Slice;
    let mut s = S::of("A = \u{e9}\nB = b\nX = $(A)$(B)$(B)\nY = $(X)z\n");
    let b = s.block("Y").unwrap();
    let mut c = b.span().slice(0..3).to_new_block();
    Arc::make_mut(&mut c).push_all_contents(b.span());
    let text: String = c.span().segments().map(|x| x.to_string()).collect();
    assert_eq!(text, c.into_string());
''')

bug("no-case-folds-ascii", "C17", [("src/evaluated/nom/mod.rs", """            .flat_map(|c| c.to_lowercase())
            .zip(t.chars().flat_map(|c| c.to_lowercase()))""", """            .map(|c| c.to_ascii_lowercase())
            .zip(t.chars().map(|c| c.to_ascii_lowercase()))""")],
 "comparing letters outside of ASCII without case",
 "Comparing without case only folds ASCII letters",
 r'''
    use nom::{Compare, CompareResult};
    let mut s = S::of("X = \u{c9}a\n");
    let b = s.block("X").unwrap();
    assert_eq!(b.span().compare_no_case("\u{e9}A"), CompareResult::Ok);
''')

