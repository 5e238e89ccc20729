From a0504d26b6c0e8e8f06ca79489114f5f060941a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 1/6] fix: report a failure instead of panicking when the
 tokens end before a non-terminal

A production such as A -> a B on the input 'a' looked up the candidates of
B on the token after the last one and panicked. Without a token there are
no candidates, so B fails like any other symbol.
---
 src/parser/recursive_descent_parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 91c49f5..b25fb9e 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -440,10 +440,10 @@ impl<
         token_position: usize,
         is_single_path: bool,
     ) -> ParseSymbolResult<TLex, TSyntax> {
-        let current_token_symbol = tokens.get(token_position).unwrap();
-
-        let token_productions =
-            self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type);
+        let token_productions = tokens
+            .get(token_position)
+            .map(|token| self.inner_get_token_productions(production_symbol, &token.t_type))
+            .unwrap_or(vec![]);
 
         let token_productions_iter = token_productions.into_iter();
 
-- 
2.43.0


From 7785bd1bf4b72fff651bd76dd551305f98513022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 2/6] fix: let a symbol repeated in a production follow itself

In S -> A A $ the FOLLOW set of A lacked FIRST(A): adjacent equal symbols
were skipped, which also dropped the second one from the run of symbols
that may follow what stands to the left of the first.
---
 src/grammar/first_follow_symbols.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/grammar/first_follow_symbols.rs b/src/grammar/first_follow_symbols.rs
index f744611..a4dff6c 100644
--- a/src/grammar/first_follow_symbols.rs
+++ b/src/grammar/first_follow_symbols.rs
@@ -395,26 +395,24 @@ impl<T: Clone + Eq + Hash> FirstFollowSymbols<T> {
         let next_symbol_index: usize = production_output_index + 1;
         let next_symbol = production.output.get(next_symbol_index).unwrap();
 
-        if current_symbol.ne(next_symbol) {
-            let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
+        let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
 
-            if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-                first_indexes.clear();
-            }
+        if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+            first_indexes.clear();
+        }
 
-            first_indexes.push(next_symbol_index);
+        first_indexes.push(next_symbol_index);
 
-            let mut current_symbol_follow_symbols =
-                follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
+        let mut current_symbol_follow_symbols =
+            follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
 
-            follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
-                grammar,
-                first_symbols_map,
-                production,
-                first_indexes,
-                &mut current_symbol_follow_symbols,
-            );
-        }
+        follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
+            grammar,
+            first_symbols_map,
+            production,
+            first_indexes,
+            &mut current_symbol_follow_symbols,
+        );
 
         follow_symbols_updated
     }
-- 
2.43.0


From f582876c9c4cd3b4f918ae21e1ee68b7f3a27114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 3/6] fix: predict a production from the first symbols of its
 whole output

For A -> B x with a nullable B the table used FOLLOW(B), which holds what
may follow B anywhere in the grammar. Candidates that can not match were
predicted and tried first: S -> P $ | x B t $, P -> A, A -> B | C,
B -> b | (empty), C -> t is LL(1), yet 't $' was rejected.
---
 .../recursive_descent_parser_transitions.rs   | 91 ++++---------------
 1 file changed, 17 insertions(+), 74 deletions(-)

diff --git a/src/parser/recursive_descent_parser_transitions.rs b/src/parser/recursive_descent_parser_transitions.rs
index 5da0a98..ee86c3e 100644
--- a/src/parser/recursive_descent_parser_transitions.rs
+++ b/src/parser/recursive_descent_parser_transitions.rs
@@ -74,96 +74,39 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
      *
      * -----------------------------------------------------------------------------
      *
-     * Unfortunately we don't compute FIRST(α). Fortunately, $ is handled as an
-     * additional terminal symbol in the grammar. Keeping this in mind, there's a
-     * way to determine all the terminal symbols a in which M[A; a] = A → α
-     *
-     * -----------------------------------------------------------------------------
-     *
-     * Alternative algorithm:
-     *
-     * INPUT: Grammar G.
-     * OUTPUT: Parsing table M.
-     * METHOD: For each production A → Bα of the grammar, do the following:
-     *
-     *     1. For each terminal a in FIRST(B), add A → α to M[A; a].
-     *     2.1. If B is terminal and B is ε, then for each terminal b in FOLLOW(A),
-     *          add A → α to M[A; b]
-     *     2.2. If B is non terminal and ε is in FIRST(B), then for each terminal b
-     *          in FOLLOW(B), add A → α to M[A; b].
+     * FIRST(α) is computed from the FIRST sets of the symbols of α. $ is handled as
+     * an additional terminal symbol in the grammar.
      */
     fn inner_from_get_production_first_symbols(
         grammar: &ContextFreeGrammar<T>,
         production: &ContextFreeGrammarProduction<T>,
         first_follow_symbols: &FirstFollowSymbols<T>,
     ) -> HashSet<T> {
-        let production_first_symbols: HashSet<T>;
+        let mut production_first_symbols: HashSet<T> = HashSet::new();
 
-        let symbol = production.output.get(0).unwrap();
+        for symbol in &production.output {
+            let symbol_first_symbols = first_follow_symbols.get_first_symbols(symbol).unwrap();
 
-        let symbol_first_symbols = first_follow_symbols.get_first_symbols(&symbol).unwrap();
+            symbol_first_symbols
+                .iter()
+                .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
+                .for_each(|symbol| {
+                    production_first_symbols.insert(symbol.clone());
+                });
 
-        if symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_epsilon_first(
-                    grammar,
-                    production,
-                    first_follow_symbols,
-                    symbol,
-                    symbol_first_symbols,
-                );
-        } else {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_non_epsilon_first(
-                    symbol_first_symbols,
-                );
+            if !symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+                return production_first_symbols;
+            }
         }
 
-        production_first_symbols
-    }
-
-    fn inner_from_get_production_first_symbols_on_epsilon_first(
-        grammar: &ContextFreeGrammar<T>,
-        production: &ContextFreeGrammarProduction<T>,
-        first_follow_symbols: &FirstFollowSymbols<T>,
-        symbol: &T,
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
-
-        symbol_first_symbols
+        first_follow_symbols
+            .get_follow_symbols(&production.input)
+            .unwrap()
             .iter()
-            .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
             .for_each(|symbol| {
                 production_first_symbols.insert(symbol.clone());
             });
 
-        let symbol_follow_symbols: &HashSet<T>;
-
-        if grammar.get_epsilon_symbol().eq(symbol) {
-            symbol_follow_symbols = first_follow_symbols
-                .get_follow_symbols(&production.input)
-                .unwrap();
-        } else {
-            symbol_follow_symbols = first_follow_symbols.get_follow_symbols(&symbol).unwrap();
-        }
-
-        symbol_follow_symbols.iter().for_each(|symbol| {
-            production_first_symbols.insert(symbol.clone());
-        });
-
-        production_first_symbols
-    }
-
-    fn inner_from_get_production_first_symbols_on_non_epsilon_first(
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
-
-        symbol_first_symbols.iter().for_each(|symbol| {
-            production_first_symbols.insert(symbol.clone());
-        });
-
         production_first_symbols
     }
 
-- 
2.43.0


From cecf57c8442643a067ab7115b656c692f30d7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 4/6] fix: keep the parsed non-terminals in a failure report

A symbol that was matched but could not be derived again was dropped from
the failed production: for S -> A b on 'a c' the report listed no parsed
symbol and b as both failed and pending.
---
 src/parser/recursive_descent_parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index b25fb9e..ac8e3dc 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -545,10 +545,8 @@ impl<
                 State::Fixed(fixed_state) => {
                     reversed_failed_symbols.push(State::Fixed(fixed_state));
                 }
-                State::Parsing(parsing_state) => {
-                    if parsing_state.prod_iter_option.is_some() {
-                        let productions_iterator = parsing_state.prod_iter_option.unwrap();
-
+                State::Parsing(mut parsing_state) => {
+                    if let Some(productions_iterator) = parsing_state.prod_iter_option.take() {
                         let state_option = self.inner_parse_from_tokens(
                             &parsing_state.node.token.t_type,
                             tokens,
@@ -562,7 +560,9 @@ impl<
                                 states.push(State::Parsing(state));
                                 states_pop_success = true;
                             }
-                            _ => {}
+                            _ => {
+                                reversed_failed_symbols.push(State::Parsing(parsing_state));
+                            }
                         }
                     } else {
                         reversed_failed_symbols.push(State::Parsing(parsing_state));
-- 
2.43.0


From 5a72067ec17586d0cbd46f7138e57de72a93529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 5/6] fix: do not ask the solver about alternatives of a symbol
 that parsed

When a production backtracked into an earlier symbol, the solver was asked
to repair that symbol's remaining alternatives (possibly none at all), as
if it could not be parsed, and its answer was thrown away.
---
 src/parser/recursive_descent_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index ac8e3dc..ff4baec 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -343,7 +343,7 @@ impl<
                     states.push(State::Parsing(parsing_state));
                 }
                 ParseSymbolResult::Err(failed_symbol) => {
-                    match self.inner_parse_pop_states(&mut states, tokens, is_single_path) {
+                    match self.inner_parse_pop_states(&mut states, tokens) {
                         Some(production_parsing_states) => {
                             return Self::inner_parse_from_tokens_production_build_failed_symbol(
                                 failed_symbol,
@@ -531,7 +531,6 @@ impl<
         &self,
         states: &mut Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>,
         tokens: &Vec<Token<TLex, TSyntax>>,
-        is_single_path: bool,
     ) -> Option<Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>> {
         let mut reversed_failed_symbols: Vec<
             State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>,
@@ -552,7 +551,7 @@ impl<
                             tokens,
                             parsing_state.initial_token_position,
                             productions_iterator,
-                            is_single_path,
+                            false,
                         );
 
                         match state_option {
-- 
2.43.0


From 3de4fded0b98c04afd55145fd05a4ea2da2c8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 6/6] fix: consult the solver only about input that does not
 parse

A symbol that fails may still parse after an earlier symbol is derived
differently. The solver was consulted before that was tried, so input the
grammar accepts could come back as a repair.
---
 src/parser/recursive_descent_parser.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index ff4baec..d000a75 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -134,16 +134,27 @@ impl<
         let first_token_productions =
             self.inner_get_token_productions(symbol_to_derive, &first_token.t_type);
 
-        let first_token_productions_iter = first_token_productions.into_iter();
-
-        let parse_symbol_result = self.inner_parse_from_tokens(
+        let mut parse_symbol_result = self.inner_parse_from_tokens(
             symbol_to_derive,
             &tokens_vector,
             token_position,
-            first_token_productions_iter,
-            true,
+            first_token_productions.clone().into_iter(),
+            false,
         );
 
+        // A fix attempt is the last resource: the solver is involved once no derivation was found.
+        if self.syntax_error_solver.is_some()
+            && matches!(parse_symbol_result, ParseSymbolResult::Err(_))
+        {
+            parse_symbol_result = self.inner_parse_from_tokens(
+                symbol_to_derive,
+                &tokens_vector,
+                token_position,
+                first_token_productions.into_iter(),
+                true,
+            );
+        }
+
         Self::parse_symbol_result_to_parse_result(parse_symbol_result)
     }
 
-- 
2.43.0

