From 831c6c634e6a46e4a81ccf600d6b394b72e7add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:30 +0000
Subject: [PATCH 01/35] fix: lexer: end a lexeme at the end of the input

A document ending in '?' or ':' indexed past the end of the input, and a
trailing identifier lost its last character and was then returned as an
endless sequence of empty identifiers.
---
 src/lexical_analyzer/tokenizer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 605f494..8c9842a 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -183,7 +183,6 @@ impl<'a> LexicalAnalyzer<'a> {
     // get next lexeme and new cursor position (to commit peek)
     fn peek_lexeme(&self, init_cur_pos: usize) -> Result<(&str, usize), LexicalError> {
         let mut cursor_pos = init_cur_pos;
-        let mut next_ch = self.program[cursor_pos] as char;
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
@@ -199,13 +198,10 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
             }
         };
-        while is_valid_character(next_ch) {
-            if cursor_pos < self.program.len() - 1 {
-                cursor_pos += 1;
-                next_ch = self.program[cursor_pos] as char;
-            } else {
-                break;
-            }
+        // a lexeme also ends at the end of the input
+        while cursor_pos < self.program.len() && is_valid_character(self.program[cursor_pos] as char)
+        {
+            cursor_pos += 1;
         }
         if is_invalid {
             return Err(LexicalError {
-- 
2.43.0


From 712e0538b84b2062f7f781fcf4cba31568ec14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 02/35] fix: lexer: accept a comment that ends at the end of
 the input

A comment on the last line of a document without a final newline indexed
past the end of the input.
---
 src/lexical_analyzer/tokenizer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 8c9842a..f03b07f 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -121,10 +121,12 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 // Comment
                 ';' => {
-                    let mut current = self.program[self.cursor.get()] as char;
-                    while current != '\n' {
+                    // a comment ends at the end of its line, or at the end of the input
+                    while let Some(current) = self.peek_next_char() {
+                        if current == '\n' {
+                            break;
+                        }
                         self.cursor.set(self.cursor.get() + 1);
-                        current = self.program[self.cursor.get()] as char;
                     }
                     return self.parse(peek);
                 }
-- 
2.43.0


From 73b0a5996752459ff8cc0a35cd9cd3f232377646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:22 +0000
Subject: [PATCH 03/35] fix: lexer: report a lexeme that is not UTF-8 as an
 error

Such a lexeme panicked in from_utf8().unwrap().
---
 src/lexical_analyzer/tokenizer.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index f03b07f..7030ecf 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -205,19 +205,15 @@ impl<'a> LexicalAnalyzer<'a> {
         {
             cursor_pos += 1;
         }
-        if is_invalid {
-            return Err(LexicalError {
+        match from_utf8(&self.program[init_cur_pos..cursor_pos]) {
+            Ok(lexeme) if !is_invalid => Ok((lexeme, cursor_pos)),
+            // has an invalid character, or is not encoded in UTF-8
+            _ => Err(LexicalError {
                 error_type: LexicalErrorType::InvalidIdentifier,
-                lexeme: from_utf8(&self.program[init_cur_pos..cursor_pos])
-                    .unwrap()
+                lexeme: String::from_utf8_lossy(&self.program[init_cur_pos..cursor_pos])
                     .to_string(),
                 position: self.last_token_pos.get(),
-            });
-        } else {
-            return Ok((
-                from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap(),
-                cursor_pos,
-            ));
+            }),
         }
     }
 
-- 
2.43.0


From ec818391757c8d1958c4a10d4529d337c774eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 04/35] fix: parser: do not take ')' for an empty formula

A bare ')' was parsed as an empty formula, so '(and () (p))' ended the
conjunction early and '(not)', '(forall (?x))' or ':precondition )' took
the closing parenthesis of the enclosing block.
---
 .../domain_parser/formula_parser.rs           | 45 +++++++------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 64788d3..af78688 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -3,9 +3,6 @@ use super::*;
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
-            Token::Punctuator(PunctuationType::RParentheses) => {
-                return Ok(Formula::Empty);
-            }
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
                     // Not Operation
@@ -27,39 +24,15 @@ impl<'a> Parser<'a> {
                     }
                     // And Connector
                     Token::Operator(OperationType::And) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::And(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::And(self.parse_operands()?));
                     }
                     // Xor Connector
                     Token::Operator(OperationType::Xor) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Xor(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Xor(self.parse_operands()?));
                     }
                     // Or Connector
                     Token::Operator(OperationType::Or) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Or(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Or(self.parse_operands()?));
                     }
                     // Equality
                     Token::Operator(OperationType::Equal) => match self.tokenizer.get_token()? {
@@ -216,4 +189,16 @@ impl<'a> Parser<'a> {
             }
         }
     }
+
+    // parses the operands of a connector up to, and including, its closing parenthesis
+    fn parse_operands(&'a self) -> Result<Vec<Box<Formula<'a>>>, ParsingError> {
+        let mut expressions = vec![];
+        loop {
+            if let Token::Punctuator(PunctuationType::RParentheses) = self.tokenizer.lookahead()? {
+                let _ = self.tokenizer.get_token()?;
+                return Ok(expressions);
+            }
+            expressions.push(Box::new(self.parse_formula()?));
+        }
+    }
 }
-- 
2.43.0


From 282015cfebf50b7a4edf69e8f6fbb2fa6cd54030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 05/35] fix: parser: consume the closing parenthesis of the
 goal

It was taken for the end of the problem, so that every section following
the goal was silently ignored.
---
 .../problem_parser/router.rs                  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 9e941c9..1e7ae4c 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -44,8 +44,24 @@ impl <'a> Parser<'a> {
                         }
                         // goal state (optional)
                         Token::Keyword(KeywordName::Goal) => {
-                            let goal = self.parse_formula()?;
-                            syntax_tree.add_goal(goal)
+                            // the goal may be left empty
+                            let goal = match self.tokenizer.lookahead()? {
+                                Token::Punctuator(PunctuationType::RParentheses) => Formula::Empty,
+                                _ => self.parse_formula()?,
+                            };
+                            match self.tokenizer.get_token()? {
+                                Token::Punctuator(PunctuationType::RParentheses) => {
+                                    syntax_tree.add_goal(goal)
+                                }
+                                token => {
+                                    let error = SyntacticError {
+                                        expected: "')' after the goal formula".to_string(),
+                                        found: token.to_string(),
+                                        position: self.tokenizer.get_last_token_position(),
+                                    };
+                                    return Err(ParsingError::Syntactic(error));
+                                }
+                            }
                         }
                         // initial state
                         Token::Keyword(KeywordName::Init) => {
-- 
2.43.0


From 6f77fc90531040ba4da01baeed75c7d7253e16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:27 +0000
Subject: [PATCH 06/35] fix: parser: consume the closing parenthesis of an
 empty task network

It was taken for the end of the domain or problem, so that everything
following an empty task network was silently ignored.
---
 src/syntactic_analyzer/problem_parser/init_tn_parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 2c0119b..f779a8f 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -32,6 +32,8 @@ impl<'a> Parser<'a> {
                 }
                 // empty init tn
                 Token::Punctuator(PunctuationType::RParentheses) => {
+                    // consume ')'
+                    let _ = self.tokenizer.get_token()?;
                     return Ok(InitialTaskNetwork {
                         parameters: None,
                         tn: HTN {
@@ -61,6 +63,8 @@ impl<'a> Parser<'a> {
         // check if it is an empty task network
         match self.tokenizer.lookahead()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
+                // consume ')'
+                let _ = self.tokenizer.get_token()?;
                 return Ok(HTN {
                     subtasks,
                     ordering_pos,
-- 
2.43.0


From 74ad1b85cabc813aeeb71be7448a2fe20d256e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 07/35] fix: parser: consume the closing parenthesis after
 :constraints

The parenthesis closing a totally ordered task network with constraints
was taken for the end of the domain or problem, so that everything
following it was silently ignored.
---
 .../problem_parser/init_tn_parser.rs          | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index f779a8f..ed95376 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -201,12 +201,25 @@ impl<'a> Parser<'a> {
                 match self.tokenizer.get_token()? {
                     Token::Keyword(KeywordName::Constraints) => {
                         constraints = Some(self.parse_constraints()?);
-                        return Ok(HTN {
-                            subtasks,
-                            ordering_pos,
-                            orderings: TaskOrdering::Total,
-                            constraints,
-                        });
+                        match self.tokenizer.get_token()? {
+                            Token::Punctuator(PunctuationType::RParentheses) => {
+                                return Ok(HTN {
+                                    subtasks,
+                                    ordering_pos,
+                                    orderings: TaskOrdering::Total,
+                                    constraints,
+                                });
+                            }
+                            token => {
+                                let error = SyntacticError {
+                                    expected: "closing ')' after task network definition"
+                                        .to_string(),
+                                    found: token.to_string(),
+                                    position: self.tokenizer.get_last_token_position(),
+                                };
+                                return Err(ParsingError::Syntactic(error));
+                            }
+                        }
                     }
                     Token::Punctuator(PunctuationType::RParentheses) => {
                         return Ok(HTN {
-- 
2.43.0


From 191f86301ef2b88e056466efc0f73742cd5ede67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 08/35] fix: parser: report an unexpected token in a problem as
 an error

A token other than a parenthesis between two sections panicked.
---
 src/syntactic_analyzer/problem_parser/router.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 1e7ae4c..0e6a81b 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -82,8 +82,13 @@ impl <'a> Parser<'a> {
                 Token::EOF | Token::Punctuator(PunctuationType::RParentheses) => {
                     return Ok(syntax_tree);
                 }
-                err => {
-                    panic!("unexpected token {:?}", err)
+                token => {
+                    let error = SyntacticError {
+                        expected: format!("either ')' to close the definition of {}, or '(' to start defining new components", meta_data.problem_name),
+                        found: token.to_string(),
+                        position: self.tokenizer.get_last_token_position(),
+                    };
+                    return Err(ParsingError::Syntactic(error));
                 }
             }
         }
-- 
2.43.0


From 9e46d4ceab051d0cc592b2e9b50289a16ba6fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:13 +0000
Subject: [PATCH 09/35] fix: parser: do not ignore what follows the definition

Anything after the parenthesis closing a domain or problem was silently
dropped, e.g. every section after a misplaced ')'. Surplus closing
parentheses are still accepted.
---
 src/syntactic_analyzer/parser.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/syntactic_analyzer/parser.rs b/src/syntactic_analyzer/parser.rs
index 4d8fb94..cd0e732 100644
--- a/src/syntactic_analyzer/parser.rs
+++ b/src/syntactic_analyzer/parser.rs
@@ -15,14 +15,27 @@ impl<'a> Parser<'a> {
         match self.tokenizer.get_token()? {
             Token::Punctuator(PunctuationType::LParentheses) => {
                 // Determine file type
-                match self.parse_document_type()? {
+                let syntax_tree = match self.parse_document_type()? {
                     // Domain Definition
-                    DefinitionType::Domain(domain_name) => {
-                        Ok(self.parse_domain(domain_name)?.into())
-                    }
+                    DefinitionType::Domain(domain_name) => self.parse_domain(domain_name)?.into(),
                     // Problem Definition
                     DefinitionType::Problem(problem_definition) => {
-                        Ok(self.parse_problem(problem_definition)?.into())
+                        self.parse_problem(problem_definition)?.into()
+                    }
+                };
+                // nothing but surplus closing parentheses may follow the definition
+                loop {
+                    match self.tokenizer.get_token()? {
+                        Token::EOF => return Ok(syntax_tree),
+                        Token::Punctuator(PunctuationType::RParentheses) => {}
+                        token => {
+                            let error = SyntacticError {
+                                expected: "the end of the file".to_string(),
+                                found: token.to_string(),
+                                position: self.tokenizer.get_last_token_position(),
+                            };
+                            return Err(ParsingError::Syntactic(error));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 0bddf72056a946d3e56411b343df07fa573c468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 10/35] fix: report a problem given as the domain, or a domain
 as the problem

verify, get_metadata and to_json panicked.
---
 src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a996c3..0721a3b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,15 +41,13 @@ impl HDDLAnalyzer {
                             let warnings = problem_semantic_verifier.verify_problem()?;
                             Ok(warnings)
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(wrong_document("a problem definition", "a domain definition")),
                     }
                 }
                 None => Ok(symbol_table.warnings),
             }
         } else {
-            panic!("expected domain, found problem")
+            Err(wrong_document("a domain definition", "a problem definition"))
         }
     }
 
@@ -74,7 +72,7 @@ impl HDDLAnalyzer {
                     n_methods: d.methods.len() as u32,
                 })
             }
-            _ => panic!("expected domain, found problem"),
+            _ => Err(wrong_document("a domain definition", "a problem definition")),
         }
     }
 
@@ -99,9 +97,7 @@ impl HDDLAnalyzer {
                             return Ok(serde_json::to_string_pretty(&root).unwrap());
 
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(wrong_document("a problem definition", "a domain definition")),
                     }
                 }
                 None => {
@@ -113,7 +109,16 @@ impl HDDLAnalyzer {
                     return Ok(serde_json::to_string_pretty(&root).unwrap());
                 }
             },
-            _ => panic!("expected domain, found problem"),
+            _ => Err(wrong_document("a domain definition", "a problem definition")),
         }
     }
 }
+
+// the error for a domain in place of a problem, and vice versa
+fn wrong_document(expected: &str, found: &str) -> ParsingError {
+    ParsingError::Syntactic(SyntacticError {
+        expected: expected.to_string(),
+        found: found.to_string(),
+        position: TokenPosition { line: 1 },
+    })
+}
-- 
2.43.0


From 7981c87a738ec1d08a24d76892c5214fd66de042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:31 +0000
Subject: [PATCH 11/35] fix: check existentially quantified formulas instead of
 panicking

Verifying a precondition with 'exists' panicked.
---
 src/semantic_analyzer/undefined_elements.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index c84c907..fc62ce5 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -38,16 +38,17 @@ pub fn check_predicate_declarations<'a>(
                 check_predicate_declarations(&*f, declared_predicates)?;
             }
         }
-        Formula::ForAll(_, new_formula) => {
+        Formula::ForAll(_, new_formula) | Formula::Exists(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
         Formula::Equals(_, _) => {}
         Formula::Weighted(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
-        // TODO: add support for imply, and exists
-        _ => {
-            panic!()
+        Formula::Imply(premises, conclusions) => {
+            for f in premises.iter().chain(conclusions.iter()) {
+                check_predicate_declarations(&*f, declared_predicates)?;
+            }
         }
     }
     return Ok(());
-- 
2.43.0


From 014f05d17e275e486dbb96f373273f5e73d80256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:55 +0000
Subject: [PATCH 12/35] fix: check the declarations of constants

Neither duplicate constants nor constants of an undefined type were
reported, as the same mistakes in objects are.
---
 .../analyzers/domain_analyzer.rs                | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 405fdef..b47531b 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -32,8 +32,23 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut declared_constants = HashSet::new();
         match &self.domain.constants {
             Some(constants) => {
+                let mut constant_positions = HashMap::new();
                 for c in constants {
-                    declared_constants.insert(c);
+                    if !declared_constants.insert(c) {
+                        return Err(SemanticErrorType::DuplicateObjectDeclaration(
+                            DuplicateError {
+                                symbol: c.name.to_string(),
+                                first_pos: *constant_positions.get(c.name).unwrap(),
+                                second_pos: c.name_pos,
+                            },
+                        ));
+                    } else {
+                        constant_positions.insert(c.name, c.name_pos);
+                    }
+                }
+                // assert constant types are declared
+                if let Some(error) = self.type_checker.check_type_declarations(constants) {
+                    return Err(error);
                 }
             }
             None => {}
-- 
2.43.0


From b7455d611bc5c5a4b868504d2b027f973a1a0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 13/35] fix: report undefined types of every parameter

The types of the parameters of an action or method were only checked if
it had a formula, and those of the initial task network never were.
---
 src/semantic_analyzer/analyzers/domain_analyzer.rs  | 8 ++++++++
 src/semantic_analyzer/analyzers/problem_analyzer.rs | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index b47531b..6085461 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -85,6 +85,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&action.parameters) {
+                return Err(error);
+            }
             // assert precondition predicates are declared
             match &action.preconditions {
                 Some(precondition) => {
@@ -146,6 +150,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&method.params) {
+                return Err(error);
+            }
             // Assert preconditions are valid
             match &method.precondition {
                 Some(precondition) => {
diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index 6ba5fef..049d268 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -58,6 +58,13 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
                 );
             }
 
+            // assert parameter types are declared
+            if let Some(parameters) = &htn.parameters {
+                if let Some(error) = self.type_checker.check_type_declarations(parameters) {
+                    return Err(error);
+                }
+            }
+
             for subtask in htn.tn.subtasks.iter() {
                 let _ = self
                     .type_checker
-- 
2.43.0


From 17b8265517274e24e2c206175c6de90b80c9a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:44 +0000
Subject: [PATCH 14/35] fix: report the expected and found arity of a method's
 task in that order

They were swapped.
---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 6085461..f1202b0 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -181,8 +181,8 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                         if method.task_terms.len() != declared_compound_task.parameters.len() {
                             return Err(SemanticErrorType::InconsistentTaskArity(ArityError {
                                 symbol: method.task.name.to_string(),
-                                expected_arity: method.task_terms.len() as u32,
-                                found_arity: declared_compound_task.parameters.len() as u32,
+                                expected_arity: declared_compound_task.parameters.len() as u32,
+                                found_arity: method.task_terms.len() as u32,
                                 position: method.task.name_pos,
                             }));
                         } else {
-- 
2.43.0


From 3ac3db112b4e9a25227a0051b7cc484c5408ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 15/35] fix: report the type of the object in a type error of
 the problem

The (missing) type of its occurrence was reported instead; rendering the
error panicked if the predicate expects an untyped object.
---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index e77d954..284825a 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -58,7 +58,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                 return Err(SemanticErrorType::InconsistentPredicateArgType(
                                     TypeError {
                                         expected: expected.symbol_type.map(String::from),
-                                        found: found.symbol_type.map(String::from),
+                                        found: object_type.map(String::from),
                                         var_name: predicate.name.to_string(),
                                         position: found.name_pos,
                                     },
-- 
2.43.0


From c414dd744d2a273d4a6ec1073995d169d2db8693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:35 +0000
Subject: [PATCH 16/35] fix: report an ill-typed constant in a subtask as a
 task argument

It was reported as an argument of a predicate.
---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index 284825a..6e7ecc6 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -177,7 +177,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
@@ -268,7 +268,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
-- 
2.43.0


From 17e16e8bbe6493db412ed64c34fb3b51d47bb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:48 +0000
Subject: [PATCH 17/35] fix: compute nullable tasks as a least fixpoint

The unit reachability kept any non-nullable subtask of a method, whichever
was visited first, so that tasks with a mandatory action were sometimes
called nullable (suppressing the warning about missing primitive
refinements), and the loop never ended in a domain without compound tasks.
---
 src/semantic_analyzer/tdg.rs | 128 ++++++-----------------------------
 1 file changed, 21 insertions(+), 107 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 7117eae..6aeb9c0 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -401,114 +401,28 @@ impl<'a> TDG<'a> {
     }
 
     pub fn compute_nullables(&self) -> HashSet<&'a str> {
-        // nullable base case
-        let mut nullables: HashSet<usize> = self
-            .edges_from_tasks
-            .iter()
-            .filter_map(|(task, methods)| {
-                for method in methods.iter() {
-                    let tasks = self.edges_to_tasks.get(method).unwrap();
-                    if tasks.len() == 0 {
-                        return Some(*task);
-                    }
-                }
-                None
-            })
-            .collect();
-
-        // unit reachability base case
-        let mut unit_reachability: HashMap<usize, HashSet<usize>> = HashMap::new();
-        for (t, t_type) in self.tasks.iter() {
-            match *t_type {
-                TaskType::Primitive => {}
-                TaskType::Compound => {
-                    let task_index = self.get_task_index(t);
-                    let mut value = HashSet::from([task_index]);
-                    if let Some(methods) = self.edges_from_tasks.get(&task_index) {
-                        for method in methods {
-                            let tasks = self.edges_to_tasks.get(method).unwrap();
-                            if tasks.len() == 1 {
-                                value.insert(*tasks.iter().next().unwrap());
-                            }
-                        }
-                    }
-
-                    unit_reachability.insert(task_index, value);
-                }
-            }
-        }
-        let mut changed_nullables = true;
-        let mut changed_unit_reachability = true;
-        let mut new_nullables = HashSet::new();
-        let mut new_unit_reachable: HashMap<usize, HashSet<usize>> = HashMap::new();
-        while changed_nullables || changed_unit_reachability {
-            // nullables induction step
-            for (t, methods) in self.edges_from_tasks.iter() {
-                for method in methods {
-                    if let Some(tasks) = self.edges_to_tasks.get(method) {
-                        if tasks.iter().all(|x| match unit_reachability.get(x) {
-                            Some(set) => {
-                                let intersection: HashSet<&usize> =
-                                    set.intersection(&nullables).collect();
-                                intersection.len() != 0
-                            }
-                            None => false,
-                        }) {
-                            new_nullables.insert(*t);
-                        }
-                    }
-                }
-            }
-
-            // unit reachability induction step
-            for (c, previous_reachables) in unit_reachability.iter() {
-                let mut change = previous_reachables.clone();
-                for previous_reachable in previous_reachables {
-                    match unit_reachability.get(previous_reachable) {
-                        Some(tasks) => {
-                            change = change.union(tasks).cloned().collect();
-                        }
-                        None => {}
-                    }
-                }
-                for method in self.edges_from_tasks.get(c).unwrap() {
-                    if let Some(tasks) = self.edges_to_tasks.get(method) {
-                        let mut not_nullable = None;
-                        for task in tasks {
-                            if !nullables.contains(task) {
-                                if not_nullable.is_none() {
-                                    not_nullable = Some(*task)
-                                } else {
-                                    break;
-                                }
-                            }
-                        }
-                        if let Some(val) = not_nullable {
-                            change.insert(val);
-                        }
-                    }
-                }
-                if change == *previous_reachables {
-                    changed_unit_reachability = false;
-                } else {
-                    new_unit_reachable.insert(*c, change);
-                }
-            }
-
-            // commit to changes
-            //// nullables
-            if new_nullables.len() == nullables.len() {
-                changed_nullables = false;
-            } else {
-                for n in new_nullables.iter() {
-                    nullables.insert(*n);
-                }
-            }
-            //// unit reachability
-            for (task, new_reachable) in new_unit_reachable.iter() {
-                let prev = unit_reachability.get_mut(&task).unwrap();
-                prev.extend(new_reachable);
+        // a task is nullable iff all subtasks of one of its methods are nullable (least fixpoint)
+        let mut nullables: HashSet<usize> = HashSet::new();
+        loop {
+            let new_nullables: Vec<usize> = self
+                .edges_from_tasks
+                .iter()
+                .filter(|(task, methods)| {
+                    !nullables.contains(*task)
+                        && methods.iter().any(|method| {
+                            self.edges_to_tasks
+                                .get(method)
+                                .unwrap()
+                                .iter()
+                                .all(|subtask| nullables.contains(subtask))
+                        })
+                })
+                .map(|(task, _)| *task)
+                .collect();
+            if new_nullables.is_empty() {
+                break;
             }
+            nullables.extend(new_nullables);
         }
         let mut result = HashSet::new();
         for task_index in nullables {
-- 
2.43.0


From 7c2e6001e2aa45bc976b1eae7f1f251a95a42bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 18/35] fix: report undefined tasks when computing metadata

A method of an undefined task, or with an undefined subtask, panicked.
---
 src/lib.rs                                  |  1 +
 src/semantic_analyzer/mod.rs                |  3 ++-
 src/semantic_analyzer/undefined_elements.rs | 23 +++++++++++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0721a3b..e7293f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,7 @@ impl HDDLAnalyzer {
         let domain_ast = domain_parser.parse()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => {
+                check_task_declarations(&d)?;
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
diff --git a/src/semantic_analyzer/mod.rs b/src/semantic_analyzer/mod.rs
index 6bcde83..535d178 100644
--- a/src/semantic_analyzer/mod.rs
+++ b/src/semantic_analyzer/mod.rs
@@ -12,4 +12,5 @@ use type_checker::*;
 extern crate petgraph;
 
 pub use analyzers::*;
-pub use tdg::TDG;
\ No newline at end of file
+pub use tdg::TDG;
+pub use undefined_elements::check_task_declarations;
\ No newline at end of file
diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index fc62ce5..eb34e1d 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -53,3 +53,26 @@ pub fn check_predicate_declarations<'a>(
     }
     return Ok(());
 }
+
+// asserts that the tasks and subtasks of all methods are declared
+pub fn check_task_declarations<'a>(domain: &DomainAST<'a>) -> Result<(), SemanticErrorType> {
+    for method in domain.methods.iter() {
+        if !domain.compound_tasks.iter().any(|x| x.name == method.task.name) {
+            return Err(SemanticErrorType::UndefinedTask(UndefinedSymbolError {
+                symbol: method.task.name.to_string(),
+                position: method.task.name_pos,
+            }));
+        }
+        for subtask in method.tn.subtasks.iter() {
+            if !domain.compound_tasks.iter().any(|x| x.name == subtask.task.name)
+                && !domain.actions.iter().any(|x| x.name == subtask.task.name)
+            {
+                return Err(SemanticErrorType::UndefinedSubtask(UndefinedSymbolError {
+                    symbol: subtask.task.name.to_string(),
+                    position: subtask.task.name_pos,
+                }));
+            }
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From c6ee40efd2894f97488af3f34d7ee405873c0e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:03 +0000
Subject: [PATCH 19/35] fix: compute the prefix and suffix of subtasks in
 partial orders

Any partial order that is not a chain failed an assertion, task ids were
compared as substrings (looping forever if an id contains that of another
subtask ordered before it), and what precedes a task was never found.
---
 src/semantic_analyzer/tdg.rs | 167 ++++++++---------------------------
 1 file changed, 39 insertions(+), 128 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 6aeb9c0..517b15f 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -171,7 +171,13 @@ impl<'a> TDG<'a> {
                         let mut suffix: Vec<usize> = vec![];
                         for (index, (t_id, _)) in cyclic_path.iter().skip(1).enumerate() {
                             let (_, m_id) = cyclic_path[index];
-                            let prefix = self.get_prefix(*t_id, m_id);
+                            let position = self.methods[m_id]
+                                .1
+                                .subtasks
+                                .iter()
+                                .position(|x| x.task.name == self.tasks[*t_id].0)
+                                .unwrap();
+                            let prefix = self.get_prefix(position, m_id);
                             // check epsilon prefix
                             if prefix.len() > 0 {
                                 if prefix[0] != *new_task {
@@ -183,7 +189,7 @@ impl<'a> TDG<'a> {
                                     }
                                 }
                             }
-                            suffix.extend(self.get_suffix(*t_id, m_id));
+                            suffix.extend(self.get_suffix(position, m_id));
                         }
                         // convert cyclic path to names
                         let cyclic_path = cyclic_path
@@ -251,142 +257,47 @@ impl<'a> TDG<'a> {
         return recursion_type;
     }
 
-    fn get_prefix(&self, task_index: usize, method_index: usize) -> Vec<usize> {
+    // tasks that precede the subtask at the given position of the method
+    fn get_prefix(&self, position: usize, method_index: usize) -> Vec<usize> {
         let (_, method) = &self.methods[method_index];
-        let (task, _) = &self.tasks[task_index];
-        match &method.orderings {
-            TaskOrdering::Total => {
-                for (index, subtask) in method.subtasks.iter().enumerate() {
-                    if subtask.task.name == *task {
-                        return method
-                            .subtasks
-                            .iter()
-                            .take(index)
-                            .map(|x| self.get_task_index(&x.task.name))
-                            .collect();
-                    }
-                }
-                panic!("{} does not exist in {:?}", task, method.subtasks)
-            }
-            TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                // construct the ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(&e2);
-                    } else {
-                        adjacency.insert(&e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut prefix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoings) => {
-                            for outgoing in outgoings {
-                                for occurance in task_occurances.iter() {
-                                    if outgoing.contains(occurance) {
-                                        prefix.push(id_to_task_mapping.get(t).unwrap());
-                                        stack.push(&t);
-                                    }
-                                }
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                return prefix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect();
-            }
-        }
+        self.get_predecessors(position, method_index)
+            .iter()
+            .map(|x| self.get_task_index(&method.subtasks[*x].task.name))
+            .collect()
     }
 
-    fn get_suffix(&self, task_index: usize, method_index: usize) -> Vec<usize> {
+    // tasks that do not have to precede the subtask at the given position of the method
+    fn get_suffix(&self, position: usize, method_index: usize) -> Vec<usize> {
+        let (_, method) = &self.methods[method_index];
+        let predecessors = self.get_predecessors(position, method_index);
+        (0..method.subtasks.len())
+            .filter(|x| *x != position && !predecessors.contains(x))
+            .map(|x| self.get_task_index(&method.subtasks[x].task.name))
+            .collect()
+    }
+
+    // positions of the subtasks that precede the subtask at the given position of the method
+    fn get_predecessors(&self, position: usize, method_index: usize) -> HashSet<usize> {
         let (_, method) = &self.methods[method_index];
-        let (task, _) = &self.tasks[task_index];
         match &method.orderings {
-            TaskOrdering::Total => {
-                for (index, subtask) in method.subtasks.iter().enumerate() {
-                    if subtask.task.name == *task {
-                        return method
-                            .subtasks
-                            .iter()
-                            .skip(index + 1)
-                            .map(|x| self.get_task_index(&x.task.name))
-                            .collect();
-                    }
-                }
-                panic!("{} does not exist in {:?}", task, method)
-            }
+            TaskOrdering::Total => (0..position).collect(),
             TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
+                let is_id = |x: usize, id: &str| match &method.subtasks[x].id {
+                    Some(symbol) => symbol.name == id,
+                    None => false,
+                };
+                let mut predecessors = HashSet::new();
+                let mut stack = vec![position];
+                while let Some(current) = stack.pop() {
+                    for (before, _) in orderings.iter().filter(|(_, x)| is_id(current, x)) {
+                        for x in (0..method.subtasks.len()).filter(|x| is_id(*x, before)) {
+                            if predecessors.insert(x) {
+                                stack.push(x);
                             }
                         }
-                        None => {}
-                    }
-                }
-                // construct ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(e2);
-                    } else {
-                        adjacency.insert(e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut suffix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoing) => {
-                            stack.extend(outgoing.iter());
-                            suffix.extend(outgoing.iter());
-                        }
-                        None => {}
                     }
                 }
-                suffix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect()
+                predecessors
             }
         }
     }
-- 
2.43.0


From 93f2bbcc640c60f01fb9ecbe1df14ee1c4dfd2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 20/35] fix: classify recursion in polynomial time

All simple paths of the task decomposition graph were enumerated, so that
metadata did not finish on domains such as Freecell-Learned-ECAI-16. Nor
is a prefix that starts with the recursive task itself an epsilon prefix.
---
 src/semantic_analyzer/tdg.rs | 195 ++++++++++++++++-------------------
 1 file changed, 90 insertions(+), 105 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 517b15f..d4d0a6a 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -140,121 +140,96 @@ impl<'a> TDG<'a> {
             .iter()
             .map(|x| self.get_task_index(&x))
             .collect();
-        let mut recursion_type = RecursionType::NonRecursive;
-        // DFS over TDG
-        let mut stack = vec![];
-        // initiating the stack
         // TODO: restrict to those reachable from inital task network
-        for (t, methods) in self.edges_from_tasks.iter() {
+        let mut steps = vec![];
+        for (task, methods) in self.edges_from_tasks.iter() {
             for method in methods {
-                stack.push(vec![(*t, *method)]);
+                for (position, subtask) in self.methods[*method].1.subtasks.iter().enumerate() {
+                    let prefix = self.get_prefix(position, *method);
+                    let suffix = self.get_suffix(position, *method);
+                    steps.push(DecompositionStep {
+                        task: *task,
+                        method: *method,
+                        subtask: self.get_task_index(&subtask.task.name),
+                        is_prefix_nullable: prefix.iter().all(|x| nullables.contains(x)),
+                        is_suffix_nullable: suffix.iter().all(|x| nullables.contains(x)),
+                        is_suffix_empty: suffix.is_empty(),
+                    });
+                }
             }
         }
-        // induction
-        while let Some(path) = stack.pop() {
-            let (_, current_method) = path.iter().last().unwrap();
-            for new_task in self.edges_to_tasks.get(current_method).unwrap() {
-                let mut cycle: Option<Vec<(usize, usize)>> = None;
-                for (index, (t, _)) in path.iter().enumerate() {
-                    if t == new_task {
-                        let mut cycle_path: Vec<(usize, usize)> =
-                            path.iter().skip(index).cloned().collect();
-                        cycle_path.push((*new_task, *current_method));
-                        cycle = Some(cycle_path);
-                        break;
+        // cycles with an epsilon prefix, and a nullable suffix that is not empty
+        let nullable_steps = steps
+            .iter()
+            .filter(|x| x.is_prefix_nullable && x.is_suffix_nullable)
+            .collect();
+        if let Some(cycle) = self.find_cycle(&nullable_steps, |x| !x.is_suffix_empty) {
+            return RecursionType::GrowAndShrinkRecursion(cycle);
+        }
+        // cycles with an epsilon prefix, and no suffix
+        let empty_steps = steps
+            .iter()
+            .filter(|x| x.is_prefix_nullable && x.is_suffix_empty)
+            .collect();
+        if let Some(cycle) = self.find_cycle(&empty_steps, |_| true) {
+            return RecursionType::EmptyRecursion(cycle);
+        }
+        // cycles with an epsilon prefix
+        let empty_prefix_steps = steps.iter().filter(|x| x.is_prefix_nullable).collect();
+        if let Some(cycle) = self.find_cycle(&empty_prefix_steps, |_| true) {
+            return RecursionType::GrowingEmptyPrefixRecursion(cycle);
+        }
+        match self.find_cycle(&steps.iter().collect(), |_| true) {
+            Some(cycle) => RecursionType::Recursive(cycle),
+            None => RecursionType::NonRecursive,
+        }
+    }
+
+    // finds a cycle of the given steps that has at least one step satisfying the condition
+    fn find_cycle(
+        &self,
+        steps: &Vec<&DecompositionStep>,
+        condition: impl Fn(&DecompositionStep) -> bool,
+    ) -> Option<Vec<(String, String)>> {
+        let mut steps_from: HashMap<usize, Vec<&DecompositionStep>> = HashMap::new();
+        for step in steps {
+            steps_from.entry(step.task).or_default().push(*step);
+        }
+        for first in steps.iter().filter(|x| condition(*x)) {
+            // BFS for a path back to the first task
+            let mut reached_by: HashMap<usize, &DecompositionStep> =
+                HashMap::from([(first.subtask, *first)]);
+            let mut queue = VecDeque::from([first.subtask]);
+            while let Some(task) = queue.pop_front() {
+                for step in steps_from.get(&task).into_iter().flatten() {
+                    if !reached_by.contains_key(&step.subtask) {
+                        reached_by.insert(step.subtask, *step);
+                        queue.push_back(step.subtask);
                     }
                 }
-                match cycle {
-                    Some(cyclic_path) => {
-                        // compute cycle prefix
-                        let mut is_epsilon_prefix = true;
-                        let mut suffix: Vec<usize> = vec![];
-                        for (index, (t_id, _)) in cyclic_path.iter().skip(1).enumerate() {
-                            let (_, m_id) = cyclic_path[index];
-                            let position = self.methods[m_id]
-                                .1
-                                .subtasks
-                                .iter()
-                                .position(|x| x.task.name == self.tasks[*t_id].0)
-                                .unwrap();
-                            let prefix = self.get_prefix(position, m_id);
-                            // check epsilon prefix
-                            if prefix.len() > 0 {
-                                if prefix[0] != *new_task {
-                                    for x in prefix.iter() {
-                                        if !nullables.contains(x) {
-                                            is_epsilon_prefix = false;
-                                            break;
-                                        }
-                                    }
-                                }
-                            }
-                            suffix.extend(self.get_suffix(position, m_id));
-                        }
-                        // convert cyclic path to names
-                        let cyclic_path = cyclic_path
-                            .iter()
-                            .map(|(task_id, method_id)| {
-                                (
-                                    self.tasks[*task_id].0.to_string(),
-                                    self.methods[*method_id].0.name.to_string(),
-                                )
-                            })
-                            .collect();
-                        if is_epsilon_prefix == true {
-                            if suffix.len() == 0 {
-                                match recursion_type {
-                                    RecursionType::GrowAndShrinkRecursion(_) => {}
-                                    _ => {
-                                        recursion_type = RecursionType::EmptyRecursion(cyclic_path);
-                                    }
-                                }
-                            } else {
-                                let nullable_suffix =
-                                    suffix.iter().all(|sym| nullables.contains(sym));
-                                match recursion_type {
-                                    RecursionType::GrowAndShrinkRecursion(_) => {}
-                                    RecursionType::EmptyRecursion(_) => {
-                                        if nullable_suffix {
-                                            recursion_type =
-                                                RecursionType::GrowAndShrinkRecursion(cyclic_path);
-                                        }
-                                    }
-                                    _ => {
-                                        if nullable_suffix {
-                                            recursion_type =
-                                                RecursionType::GrowAndShrinkRecursion(cyclic_path);
-                                        } else {
-                                            recursion_type =
-                                                RecursionType::GrowingEmptyPrefixRecursion(
-                                                    cyclic_path,
-                                                );
-                                        }
-                                    }
-                                }
-                            }
-                        } else {
-                            match recursion_type {
-                                RecursionType::NonRecursive => {
-                                    recursion_type = RecursionType::Recursive(cyclic_path);
-                                }
-                                _ => {}
-                            }
-                        }
-                    }
-                    None => {
-                        if let Some(methods) = self.edges_from_tasks.get(new_task) {
-                            for method in methods {
-                                let mut new_path = path.clone();
-                                new_path.push((*new_task, *method));
-                                stack.push(new_path);
-                            }
-                        }
+            }
+            if let Some(last) = reached_by.get(&first.task) {
+                // convert the cycle to names
+                let to_names = |task: usize, step: &DecompositionStep| {
+                    (
+                        self.tasks[task].0.to_string(),
+                        self.methods[step.method].0.name.to_string(),
+                    )
+                };
+                let mut cycle = vec![to_names(first.task, *last)];
+                let mut step = *last;
+                loop {
+                    cycle.push(to_names(step.task, step));
+                    if step.task == first.task {
+                        break;
                     }
+                    step = *reached_by.get(&step.task).unwrap();
                 }
+                cycle.reverse();
+                return Some(cycle);
             }
         }
-        return recursion_type;
+        None
     }
 
     // tasks that precede the subtask at the given position of the method
@@ -343,6 +318,16 @@ impl<'a> TDG<'a> {
     }
 }
 
+// the decomposition of a task into one of the subtasks of its methods
+struct DecompositionStep {
+    task: usize,
+    method: usize,
+    subtask: usize,
+    is_prefix_nullable: bool,
+    is_suffix_nullable: bool,
+    is_suffix_empty: bool,
+}
+
 #[derive(Debug, PartialEq, Eq, Hash)]
 enum TaskType {
     Primitive,
-- 
2.43.0


From 116c5998362ebb5c3494482cf59778a3734cdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:23 +0000
Subject: [PATCH 21/35] fix: language server: do not panic on duplicate
 declarations

The dummy URI of their diagnostics is relative, which cannot be parsed.
---
 src/language_server/diagnostic_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/diagnostic_utils.rs b/src/language_server/diagnostic_utils.rs
index 5102f09..223d9cd 100644
--- a/src/language_server/diagnostic_utils.rs
+++ b/src/language_server/diagnostic_utils.rs
@@ -200,7 +200,7 @@ impl From<ParsingError> for Diagnostic {
                                 DiagnosticRelatedInformation {
                                     location: Location {
                                         // TODO: fix the dummy URI
-                                        uri: Url::parse("//").unwrap(),
+                                        uri: Url::parse("file:///").unwrap(),
                                         range: Range {
                                             start: Position { line: duplicate.first_pos.line - 1, character: 0 },
                                             end: Position { line: duplicate.first_pos.line, character: 0 }
-- 
2.43.0


From 34bba3e1feb3e80e0d60fbfa178b1bfed9684d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 22/35] fix: language server: diagnose documents whose folder
 cannot be read

A diagnostic request panicked, which ends the server, for a document
without a file path (e.g. an untitled one), for a problem in a folder
that does not exist, and for a problem next to an unreadable *.hddl.
---
 src/language_server/request_handler.rs | 62 +++++++++++++++-----------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 37371c6..e8d9bb6 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -98,7 +98,6 @@ impl LanguageServer for RequestHandler {
                 self.client
                     .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
                     .await;
-                let file_path = params.text_document.uri.to_file_path().unwrap();
                 match classify_file(document) {
                     FileVariant::Domain => {
                         self.client
@@ -114,31 +113,44 @@ impl LanguageServer for RequestHandler {
                         return Ok(diagnosis);
                     }
                     FileVariant::Problem => {
-                        let root_folder = file_path.parent().unwrap();
-                        let mut files = tokio::fs::read_dir(root_folder).await.unwrap();
-                        while let Ok(Some(entry)) = files.next_entry().await {
-                            match entry.path().extension() {
-                                Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = tokio::fs::read(entry.path()).await.unwrap();
-                                    match classify_file(&content) {
-                                        FileVariant::Domain => {
-                                            self.client
-                                                .log_message(
-                                                    MessageType::LOG,
-                                                    format!(
-                                                        "{} is the domain for {}. Attempting to diagnose.",
-                                                        root_folder.to_str().unwrap(),
-                                                        params.text_document.uri.to_string()
-                                                    ),
-                                                ).await;
-                                            return Ok(diagnose_problem(Some(&content), document));
+                        // the domain is looked up in the folder of the problem (if it has any)
+                        let file_path = params.text_document.uri.to_file_path().ok();
+                        let root_folder = file_path.as_ref().and_then(|path| path.parent());
+                        let files = match root_folder {
+                            Some(folder) => tokio::fs::read_dir(folder).await.ok(),
+                            None => None,
+                        };
+                        if let Some(mut files) = files {
+                            while let Ok(Some(entry)) = files.next_entry().await {
+                                match entry.path().extension() {
+                                    Some(extension)
+                                        if (extension == "hddl" || extension == "pddl") =>
+                                    {
+                                        // skip what cannot be read (e.g., folders)
+                                        let content = match tokio::fs::read(entry.path()).await {
+                                            Ok(content) => content,
+                                            Err(_) => continue,
+                                        };
+                                        match classify_file(&content) {
+                                            FileVariant::Domain => {
+                                                self.client
+                                                    .log_message(
+                                                        MessageType::LOG,
+                                                        format!(
+                                                            "{} is the domain for {}. Attempting to diagnose.",
+                                                            entry.path().display(),
+                                                            params.text_document.uri.to_string()
+                                                        ),
+                                                    ).await;
+                                                return Ok(diagnose_problem(Some(&content), document));
+                                            }
+                                            // File is not the domain
+                                            _ => {}
                                         }
-                                        // File is not the domain
-                                        _ => {}
                                     }
+                                    // File is not .PDDL or .HDDL
+                                    _ => {}
                                 }
-                                // File is not .PDDL or .HDDL
-                                _ => {}
                             }
                         }
                         // could not find the domain
@@ -146,8 +158,8 @@ impl LanguageServer for RequestHandler {
                             .log_message(
                                 MessageType::LOG,
                                 format!(
-                                    "Could not find the domain in {}",
-                                    root_folder.to_str().unwrap()
+                                    "Could not find the domain of {}",
+                                    params.text_document.uri.to_string()
                                 ),
                             )
                             .await;
-- 
2.43.0


From 933ce3b5405bc1211b266e842a5f1d34ff1c5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:56 +0000
Subject: [PATCH 23/35] fix: language server: apply the last of several content
 changes

Changes of a notification are applied in order; the first one was kept.
---
 src/language_server/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index e8d9bb6..781b9d0 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -84,7 +84,7 @@ impl LanguageServer for RequestHandler {
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let uri = params.text_document.uri;
         // TODO: add support for incremental change
-        if let Some(new_text) = params.content_changes.into_iter().next() {
+        if let Some(new_text) = params.content_changes.into_iter().last() {
             self.sync(uri, new_text.text.into_bytes()).await
         }
     }
-- 
2.43.0


From 09e445c4d6a9b0abcabdb47197731bd31b2b7562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 24/35] fix: language server: do not replace synced content
 when saving

Saving without text read the file by its percent-encoded path, panicking
if there is none, and could overwrite a change received in the meantime.
---
 src/language_server/request_handler.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 781b9d0..74415b9 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -70,15 +70,22 @@ impl LanguageServer for RequestHandler {
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-        // get the saved file content
-        let text = match params.text {
-            Some(content) => content.into_bytes(),
-            None => tokio::fs::read(params.text_document.uri.path())
-                .await
-                .unwrap(),
-        };
-        // sync the file
-        self.sync(params.text_document.uri, text).await;
+        let uri = params.text_document.uri;
+        match params.text {
+            // sync the saved content
+            Some(content) => self.sync(uri, content.into_bytes()).await,
+            // the content of an open document is already synced (and may have been changed since)
+            None => {
+                if self.documents.read().await.contains_key(&uri) {
+                    return;
+                }
+                if let Ok(path) = uri.to_file_path() {
+                    if let Ok(content) = tokio::fs::read(path).await {
+                        self.documents.write().await.entry(uri).or_insert(content);
+                    }
+                }
+            }
+        }
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-- 
2.43.0


From a4a729def7134509897b9262c9aa71e69f1087ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:08 +0000
Subject: [PATCH 25/35] fix: lexer: end a lexeme at the start of a comment

A comment right after an identifier or keyword was lexed as a part of it,
and rejected as an invalid identifier.
---
 src/lexical_analyzer/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 7030ecf..0e8bf48 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -188,7 +188,7 @@ impl<'a> LexicalAnalyzer<'a> {
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
-            ')' | '(' => false,
+            ')' | '(' | ';' => false,
             _ => {
                 if LexicalAnalyzer::is_whitespace(&c) {
                     false
-- 
2.43.0


From 360efdbf1e78e90494974111896cd54be25a0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:16 +0000
Subject: [PATCH 26/35] fix: check the predicates of quantified goals

Undefined predicates, and predicates of a wrong arity, were not reported
below a quantifier of the goal, as they are in preconditions.
---
 src/semantic_analyzer/analyzers/problem_analyzer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index 049d268..df2dfdd 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -75,6 +75,15 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
         // check goal description
         match &self.problem.goal {
             Some(goal) => {
+                // assert goal predicates (including quantified ones) are declared
+                let declared_predicates = self
+                    .type_checker
+                    .symbol_table
+                    .predicates
+                    .iter()
+                    .map(|x| (*x).clone())
+                    .collect();
+                check_predicate_declarations(goal, &declared_predicates)?;
                 for predicate in goal.get_propositional_predicates() {
                     let _ = self.type_checker.check_predicate_instantiation(predicate)?;
                 }
-- 
2.43.0


From 55d2d19109ea566c94568702f94e186a40e7abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:42 +0000
Subject: [PATCH 27/35] fix: lexer: do not recurse for every comment

Thousands of comments in a row overflowed the stack.
---
 src/lexical_analyzer/tokenizer.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 0e8bf48..578dc09 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -119,17 +119,6 @@ impl<'a> LexicalAnalyzer<'a> {
                         }),
                     }
                 }
-                // Comment
-                ';' => {
-                    // a comment ends at the end of its line, or at the end of the input
-                    while let Some(current) = self.peek_next_char() {
-                        if current == '\n' {
-                            break;
-                        }
-                        self.cursor.set(self.cursor.get() + 1);
-                    }
-                    return self.parse(peek);
-                }
                 // Other
                 _ => {
                     let mut init_cur_pos = self.cursor.get() - 1;
@@ -225,15 +214,21 @@ impl<'a> LexicalAnalyzer<'a> {
         Some(current)
     }
 
+    // skips whitespaces and comments
     fn skip_whitespaces(&self) {
+        let mut is_comment = false;
         while self.cursor.get() != self.program.len() {
             let current = self.program[self.cursor.get()] as char;
-            if !LexicalAnalyzer::is_whitespace(&current) {
-                break;
+            if current == ';' {
+                is_comment = true;
             } else if current == '\n' {
+                // a comment ends at the end of its line, or at the end of the input
+                is_comment = false;
                 self.last_token_pos.set(TokenPosition {
                     line: self.last_token_pos.get().line + 1,
                 });
+            } else if !is_comment && !LexicalAnalyzer::is_whitespace(&current) {
+                break;
             }
             self.cursor.set(self.cursor.get() + 1);
         }
-- 
2.43.0


From 7f4e2fd9ea3ab594618162916e604bac2acb6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:12 +0000
Subject: [PATCH 28/35] fix: parser: limit the nesting of formulas

---
 .../domain_parser/formula_parser.rs           | 20 +++++++++++++++++++
 src/syntactic_analyzer/parser.rs              |  8 +++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index af78688..f801188 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -1,7 +1,27 @@
 use super::*;
 
+// formulas are processed recursively: deeper ones could exhaust the stack
+const MAX_FORMULA_DEPTH: usize = 128;
+
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
+        let depth = self.formula_depth.get();
+        if depth == MAX_FORMULA_DEPTH {
+            let token = self.tokenizer.get_token()?;
+            let error = SyntacticError {
+                expected: format!("at most {} nested formulas", MAX_FORMULA_DEPTH),
+                found: token.to_string(),
+                position: self.tokenizer.get_last_token_position(),
+            };
+            return Err(ParsingError::Syntactic(error));
+        }
+        self.formula_depth.set(depth + 1);
+        let formula = self.parse_nested_formula();
+        self.formula_depth.set(depth);
+        formula
+    }
+
+    fn parse_nested_formula(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
diff --git a/src/syntactic_analyzer/parser.rs b/src/syntactic_analyzer/parser.rs
index cd0e732..64b18fd 100644
--- a/src/syntactic_analyzer/parser.rs
+++ b/src/syntactic_analyzer/parser.rs
@@ -1,14 +1,20 @@
 use self::definition_types::ProblemDefinition;
+use std::cell::Cell;
 
 use super::*;
 
 pub struct Parser<'a> {
     pub tokenizer: LexicalAnalyzer<'a>,
+    // number of formulas that enclose the current token
+    pub(super) formula_depth: Cell<usize>,
 }
 
 impl<'a> Parser<'a> {
     pub fn new(tokenizer: LexicalAnalyzer<'a>) -> Parser<'a> {
-        Parser { tokenizer }
+        Parser {
+            tokenizer,
+            formula_depth: Cell::new(0),
+        }
     }
     pub fn parse(&'a self) -> Result<AbstractSyntaxTree<'a>, ParsingError> {
         // match opening '('
-- 
2.43.0


From d65faf30f120c41d3301175752afa6ca305972c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:38 +0000
Subject: [PATCH 29/35] fix: give the line of an arity error of a task

---
 src/output/errors/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/errors/semantic.rs b/src/output/errors/semantic.rs
index 348ee90..9149818 100644
--- a/src/output/errors/semantic.rs
+++ b/src/output/errors/semantic.rs
@@ -87,8 +87,8 @@ impl fmt::Display for SemanticErrorType {
             SemanticErrorType::InconsistentTaskArity(ar_error) => {
                 write!(
                     f,
-                    "Task {} takes {} parameters, but {} are given.",
-                    ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
+                    "line {}: task {} takes {} parameters, but {} are given.",
+                    ar_error.position.line, ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
                 )
             }
             SemanticErrorType::InconsistentPredicateArgType(type_error) => {
-- 
2.43.0


From b8140452eb804c94071ec51e72e934727275d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:39 +0000
Subject: [PATCH 30/35] fix: say that a requirement is declared more than once

---
 src/output/errors/semantic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/errors/semantic.rs b/src/output/errors/semantic.rs
index 9149818..43cab1b 100644
--- a/src/output/errors/semantic.rs
+++ b/src/output/errors/semantic.rs
@@ -36,7 +36,7 @@ impl fmt::Display for SemanticErrorType {
                 write!(f, "object {}", duplicate)
             }
             SemanticErrorType::DuplicateRequirementDeclaration(req) => {
-                write!(f, "requirement {}", req)
+                write!(f, "requirement {} is declared more than once.", req)
             }
             SemanticErrorType::DuplicatePredicateDeclaration(duplicate) => {
                 write!(f, "predicate {}", duplicate)
-- 
2.43.0


From b4383f5b12098790bb80de97e27c7f5db7be38a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 31/35] fix: call an implication by its name in error messages

---
 src/lexical_analyzer/token_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/token_types.rs b/src/lexical_analyzer/token_types.rs
index 9088092..96ae118 100644
--- a/src/lexical_analyzer/token_types.rs
+++ b/src/lexical_analyzer/token_types.rs
@@ -74,7 +74,7 @@ impl fmt::Display for OperationType {
             OperationType::Xor => write!(fmt, "oneof"),
             OperationType::ForAll => write!(fmt, "forall"),
             OperationType::Exists => write!(fmt, "exists"),
-            OperationType::Implication => write!(fmt, "when"),
+            OperationType::Implication => write!(fmt, "imply"),
             OperationType::Probabilistic => write!(fmt, "probabilistic"),
             OperationType::Equal => write!(fmt, "="),
             OperationType::LessThan => write!(fmt, "<"),
-- 
2.43.0


From b1666f0f28b97bb831e6030f454f098005d65be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:14 +0000
Subject: [PATCH 32/35] fix: report '<=' and '>=' as such when they are only
 looked ahead at

When peeking, the cursor is still at the first character, so that the
second one was never seen and an error named '<' instead of '<='.
---
 src/lexical_analyzer/tokenizer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 578dc09..9d1ed7f 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -287,8 +287,11 @@ impl<'a> LexicalAnalyzer<'a> {
     }
 
     fn ordering_type(&self, c: &char, peek: bool) -> OperationType {
+        // when peeking, the cursor still points to c
+        let next_pos = self.cursor.get() + if peek { 1 } else { 0 };
+        let next = self.program.get(next_pos).map(|c| *c as char);
         match c {
-            '<' => match self.peek_next_char() {
+            '<' => match next {
                 Some('=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
@@ -297,7 +300,7 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 _ => OperationType::LessThan,
             },
-            '>' => match self.peek_next_char() {
+            '>' => match next {
                 Some('=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
-- 
2.43.0


From 1b8e8398ed30fca6c0ecf98452de3f9ed54e67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:31 +0000
Subject: [PATCH 33/35] fix: skip pipes and devices when looking for the domain
 of a problem

---
 src/language_server/request_handler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 74415b9..7329c2d 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -133,7 +133,12 @@ impl LanguageServer for RequestHandler {
                                     Some(extension)
                                         if (extension == "hddl" || extension == "pddl") =>
                                     {
-                                        // skip what cannot be read (e.g., folders)
+                                        // skip what is not a file (e.g., folders and pipes)
+                                        match tokio::fs::metadata(entry.path()).await {
+                                            Ok(metadata) if metadata.is_file() => {}
+                                            _ => continue,
+                                        }
+                                        // skip what cannot be read
                                         let content = match tokio::fs::read(entry.path()).await {
                                             Ok(content) => content,
                                             Err(_) => continue,
-- 
2.43.0


From c12fac1cdbd8ab2662143da91f11f2d3f9ffb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:32 +0000
Subject: [PATCH 34/35] fix: let parameters of the initial task network hide
 objects and constants of the same name

---
 .../type_checker/problem_type_checker.rs              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index 6e7ecc6..ecc6077 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -113,6 +113,9 @@ impl<'a> ProblemTypeChecker<'a> {
         subtask: &'a Subtask<'a>,
         parameters: &Option<Vec<Symbol<'a>>>,
     ) -> Result<(), SemanticErrorType> {
+        // a parameter hides the object or constant of the same name
+        let is_parameter =
+            |name: &str| parameters.iter().flatten().any(|x| x.name == name);
         if self.symbol_table.actions.contains(&subtask.task.name) {
             let action = self.symbol_table.actions.get(&subtask.task.name).unwrap();
             if action.parameters.len() != subtask.terms.len() {
@@ -125,7 +128,7 @@ impl<'a> ProblemTypeChecker<'a> {
             }
             for (expected, found) in action.parameters.iter().zip(subtask.terms.iter()) {
                 match self.objects.get(found.name) {
-                    Some(object_type) => {
+                    Some(object_type) if !is_parameter(found.name) => {
                         let is_consistent = self
                             .generic_type_checker
                             .is_var_type_consistent(*object_type, expected.symbol_type);
@@ -138,7 +141,7 @@ impl<'a> ProblemTypeChecker<'a> {
                             }));
                         }
                     }
-                    None => {
+                    _ => {
                         let mut undefined = false;
                         match &*parameters {
                             Some(params) => match params.iter().find(|x| &x.name == &found.name) {
@@ -216,7 +219,7 @@ impl<'a> ProblemTypeChecker<'a> {
             }
             for (expected, found) in task.parameters.iter().zip(subtask.terms.iter()) {
                 match self.objects.get(found.name) {
-                    Some(object_type) => {
+                    Some(object_type) if !is_parameter(found.name) => {
                         let is_consistent = self
                             .generic_type_checker
                             .is_var_type_consistent(*object_type, expected.symbol_type);
@@ -229,7 +232,7 @@ impl<'a> ProblemTypeChecker<'a> {
                             }));
                         }
                     }
-                    None => {
+                    _ => {
                         let mut undefined = false;
                         match &*parameters {
                             Some(params) => match params.iter().find(|x| &x.name == &found.name) {
-- 
2.43.0


From cf78926ead56e763f655ace24761f65f3428ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:57 +0000
Subject: [PATCH 35/35] fix: do not compute the nullable tasks in cubic time

---
 src/semantic_analyzer/tdg.rs | 48 ++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index d4d0a6a..6eef8e2 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -288,27 +288,37 @@ impl<'a> TDG<'a> {
 
     pub fn compute_nullables(&self) -> HashSet<&'a str> {
         // a task is nullable iff all subtasks of one of its methods are nullable (least fixpoint)
+        let mut refined_by = HashMap::new();
+        for (task, methods) in self.edges_from_tasks.iter() {
+            for method in methods {
+                refined_by.insert(*method, *task);
+            }
+        }
+        // methods in which a task is a subtask, and how many subtasks are not known to be nullable
+        let mut uses: HashMap<usize, Vec<usize>> = HashMap::new();
+        let mut missing = HashMap::new();
+        let mut queue = vec![];
+        for (method, subtasks) in self.edges_to_tasks.iter() {
+            for subtask in subtasks {
+                uses.entry(*subtask).or_default().push(*method);
+            }
+            missing.insert(*method, subtasks.len());
+            if subtasks.is_empty() {
+                queue.push(*method);
+            }
+        }
         let mut nullables: HashSet<usize> = HashSet::new();
-        loop {
-            let new_nullables: Vec<usize> = self
-                .edges_from_tasks
-                .iter()
-                .filter(|(task, methods)| {
-                    !nullables.contains(*task)
-                        && methods.iter().any(|method| {
-                            self.edges_to_tasks
-                                .get(method)
-                                .unwrap()
-                                .iter()
-                                .all(|subtask| nullables.contains(subtask))
-                        })
-                })
-                .map(|(task, _)| *task)
-                .collect();
-            if new_nullables.is_empty() {
-                break;
+        while let Some(method) = queue.pop() {
+            let task = refined_by[&method];
+            if nullables.insert(task) {
+                for user in uses.get(&task).into_iter().flatten() {
+                    let count = missing.get_mut(user).unwrap();
+                    *count -= 1;
+                    if *count == 0 {
+                        queue.push(*user);
+                    }
+                }
             }
-            nullables.extend(new_nullables);
         }
         let mut result = HashSet::new();
         for task_index in nullables {
-- 
2.43.0

