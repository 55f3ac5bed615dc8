bug("merge-drops-repeated-prereq", "C04", [("src/lib.rs", """                        for dep in deps {
                            existing_rule.deps.push(Arc::clone(dep));
                        }""", """                        for dep in deps {
                            if !existing_rule.deps.iter().any(|known| known.into_string() == dep.into_string()) {
                                existing_rule.deps.push(Arc::clone(dep));
                            }
                        }""")],
 "a rule line without recipe for a target that already has a rule, whose new prerequisites contain one that is already there",
 "Prerequisites named again are dropped when a rule is extended, so the list is not what the lines add up to",
 r'''
    let s = S::of("L := l1 l2\nt: $(L)\n\nt: x $(L)\n");
    assert_eq!(s.rule("t"), Some((vec!["l1", "l2", "x", "l1", "l2"].iter().map(|x| x.to_string()).collect(), 0)));
''')

bug("sensitivity-equal-size", "C08", [("src/ast/mod.rs", """                sensitivity = if new_sens.len() < sensitivity.len() {""", """                sensitivity = if new_sens.iter().count() == sensitivity.len() && sensitivity.len() > 2 {
                    new_sens
                } else if new_sens.len() < sensitivity.len() {""")],
 "an expansion joining two parts that depend on equally many (at least three) variables",
 "One half of the dependencies is forgotten when two equally large sets are merged",
 r'''
    let mut s = S::of("A = $(B) $(C)\nD = $(E) $(N)\nX = $(A)$(D)\n");
    assert_eq!(s.sens("X"), ["A", "B", "C", "D", "E", "N"]);
''')

bug("subst-stem-empty", "C22", [("src/ast/text_functions.rs", "if token.len() < total_key_length {", "if token.len() < total_key_length || (token.len() == total_key_length && !pre_key.is_empty()) {")],
 "a pattern with text in front of the %, and a word that matches it with an empty stem",
 "Words that match the pattern with an empty stem are left alone",
 r'''
    let mut s = S::of("V = lib.a libx.a\nX = $(V:lib%.a=-l%)\n");
    assert_eq!(s.val("X").unwrap(), "-l -lx");
''')
