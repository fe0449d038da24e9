From 7c0a79995c00da91b97d2ee1f7100d1b5966bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 01/20] fix: make the tree module public so that the VM trait
 can be implemented

VM::execute_instruction takes Tree<String> and NodeId, and Parser::parse
returns a Tree, but the module defining them was private: no other crate
could implement VM, as the readme and the trait's own example describe.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1c2aa0..c28e426 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,5 +60,5 @@ pub mod simple_graph;
 pub mod steuer_map;
 pub mod steuer_sets;
 pub mod test_helpers;
-mod tree;
+pub mod tree;
 pub mod vms;
-- 
2.43.0


From b4825cddfc3e6ab8dafbf2410c1090d99d8a856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 02/20] fix: keep tree handles and freed slots consistent

remove_branch put the branch's own slot on the free list twice, so that two
later nodes shared it; get_node and node_exists looked a node's key up in the
list of freed slots, so that live nodes could be reported as removed; add_node
to a removed parent consumed a freed slot and made a removed node visible
again; get_children of a removed node listed children of the slot's new owner.
---
 src/tree.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 02cf0d4..0f4083c 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -70,6 +70,11 @@ impl<T> Tree<T> {
         }
     }
     pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> Result<NodeId, TreeError> {
+        if let Some(parent_id) = parent
+            && !self.node_exists(parent_id)
+        {
+            return Err(NodeDoesNotExist { node_id: parent_id });
+        }
         // Get the next free index
         let mut reused_index = false;
         let next_index = match self.free_node_indexes.pop() {
@@ -94,9 +99,6 @@ impl<T> Tree<T> {
                 pk
             }
             Some(parent_id) => {
-                if !self.node_exists(parent_id) {
-                    return Err(NodeDoesNotExist { node_id: parent_id });
-                }
                 let pk = self
                     .counter
                     .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
@@ -139,6 +141,9 @@ impl<T> Tree<T> {
 
     pub fn get_children(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut children = vec![];
+        if !self.node_exists(node_id) {
+            return children;
+        }
         let node = &self.nodes[node_id.node_ptr];
         let mut cur_children_ix = node.first_child;
         while let Some(child_index) = cur_children_ix {
@@ -196,7 +201,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return Err(NodeDoesNotExist { node_id });
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return Err(NodeWasRemoved { node_id });
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -222,7 +227,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return false;
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return false;
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -241,7 +246,6 @@ impl<T> Tree<T> {
             .map(|x| x.node_ptr)
             .collect::<Vec<usize>>();
         nodes_to_free.push(node_id.node_ptr);
-        nodes_to_free.push(node_id.node_ptr);
 
         let next_sibling_id = node.next_sibling;
         let previous_sibling_id = node.previous_sibling;
-- 
2.43.0


From 2511856fa55fa1dedb630fc051d8bf6285b1f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 03/20] fix: report an out of bounds index on an empty named
 graph

nodes.len() - 1 underflows when the graph has no nodes, so the lookup panicked
instead of returning GraphIndexOutOfBounds.
---
 src/named_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/named_graph.rs b/src/named_graph.rs
index a37e035..9aeb3ac 100644
--- a/src/named_graph.rs
+++ b/src/named_graph.rs
@@ -78,7 +78,7 @@ impl<Ta> GraphNamedNodes<Ta> {
     }
 
     pub fn get_node_by_index(&self, index: NodeIndex) -> Result<&NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&self.graph.nodes[index])
@@ -87,7 +87,7 @@ impl<Ta> GraphNamedNodes<Ta> {
         &mut self,
         index: NodeIndex,
     ) -> Result<&mut NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&mut self.graph.nodes[index])
-- 
2.43.0


From 5a65043ff332b07dd10cac09248fef7f969ae3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 04/20] fix: parse from the start symbol given to
 new_from_parser_data

The start index was only used for the FOLLOW sets; parse always looked for a
non-terminal named "start" and panicked or used the wrong rule otherwise.
---
 src/script_parser.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index de9af83..9666b45 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -60,6 +60,8 @@ where
     rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
     /// List of all grammar elements (terminals and non-terminals)
     elements: Vec<ElementVerbose>,
+    /// Index of the start symbol; the non-terminal named "start" if not given
+    start_index: Option<ElementIndex>,
 }
 
 impl<'a, T> Parser<'a, T>
@@ -113,6 +115,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -141,7 +144,8 @@ where
         let elements_verbose = parser_data.get_elements_verbose();
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
 
-        let parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        parser.start_index = Some(start_idx);
         parser
     }
 
@@ -167,6 +171,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -204,13 +209,16 @@ where
     ) -> Result<Tree<String>, ParserError> {
         let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
         let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
-        let start_index = self
-            .elements
-            .iter()
-            .position(|r| {
-                *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
-            })
-            .unwrap();
+        let start_index = match self.start_index {
+            Some(start_index) => start_index,
+            None => self
+                .elements
+                .iter()
+                .position(|r| {
+                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+                })
+                .unwrap(),
+        };
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
-- 
2.43.0


From 365d3deec26ddd71b368e3ac6e4751e9c4fa6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 05/20] fix: reject a script with text left over after the
 start production

Whether trailing text was an error depended on whether the grammar happened to
end in an optional production; otherwise it was silently ignored.
---
 src/script_parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 9666b45..d1f4aff 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -222,6 +222,13 @@ where
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
+        if let Some(&chr) = to_parse.peek() {
+            return Err(UnexpectedCharError {
+                chr,
+                pos: to_parse.cur_pos(),
+                expected: String::from("end of input"),
+            });
+        }
         Ok(tree)
     }
 
-- 
2.43.0


From 780a5e46001ff26ae6e87d6559dfd407f9699f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 06/20] fix: report left recursive rules instead of overflowing
 the stack

The FIRST set computation recursed without end on a left recursive rule and
the process was aborted; it now returns GrammarError::LeftRecursion.
---
 src/errors.rs        |  4 ++++
 src/first_sets.rs    | 27 ++++++++++++++++++++++-----
 src/script_parser.rs |  2 --
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 7a1a718..e4b6b02 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -95,6 +95,9 @@ pub enum GrammarError {
     MissingProduction {
         index: ElementIndex,
     },
+    LeftRecursion {
+        index: ElementIndex,
+    },
     SteuerSetsNotDistinct {
         steuer_terminal: String,
         steuer_char: char,
@@ -133,6 +136,7 @@ impl fmt::Display for GrammarError {
             GrammarError::MissingProduction { index } => {
                 write!(f, " \"{index}\" not in productions")
             }
+            GrammarError::LeftRecursion { index } => write!(f, " \"{index}\" is left recursive"),
             GrammarError::SteuerSetsNotDistinct { .. } => write!(f, "steuersets not distinct"),
             GrammarError::UnexpectedElementError { reason, pos } => {
                 write!(f, " \"{reason}\" at pos {pos} was not expected")
diff --git a/src/first_sets.rs b/src/first_sets.rs
index b12bc9f..b030293 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -46,8 +46,9 @@ where
     T: VM,
 {
     let mut first_sets: NamedSets = HashMap::new();
+    let mut in_progress = HashSet::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, &mut in_progress, parser_data)?;
     }
     Ok(first_sets)
 }
@@ -55,6 +56,7 @@ where
 fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
+    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -67,10 +69,15 @@ where
             let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                     return Err(GrammarError::MissingProduction { index: el_ix });
                 };
+            if !in_progress.insert(el_ix) {
+                return Err(GrammarError::LeftRecursion { index: el_ix });
+            }
             for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(production, first_sets, parser_data)?;
+                let rus =
+                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
                 set.extend(&rus);
             }
+            in_progress.remove(&el_ix);
             first_sets.insert(el_ix, set.clone());
             Ok(set)
         }
@@ -105,6 +112,7 @@ where
 fn get_first_set_of_production<T>(
     production: &Production,
     first_sets: &mut NamedSets,
+    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -113,11 +121,20 @@ where
     match production {
         Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
         Production::NotEmpty(el_ixs) => {
-            let mut first_menge =
-                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data)?;
+            let mut first_menge = get_set_first_set_of_element(
+                *el_ixs.first().unwrap(),
+                first_sets,
+                in_progress,
+                parser_data,
+            )?;
             if first_menge.contains(&SetMemberWithEmpty::Empty) {
                 for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data)?;
+                    let cur_set = get_set_first_set_of_element(
+                        *el_ix,
+                        first_sets,
+                        in_progress,
+                        parser_data,
+                    )?;
                     let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                     first_menge.extend(cur_set);
                     if !has_empty {
diff --git a/src/script_parser.rs b/src/script_parser.rs
index d1f4aff..b78d2a5 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -21,8 +21,6 @@ use crate::rule_parsing::RuleParser;
 use crate::sets::SetMember;
 use crate::steuer_map::{NTRules, get_steuermaps};
 
-//TODO detect left recursive rules that lead to nonterminating of get_first_sets
-
 /// The Parser is the core component of the library, responsible for parsing input text
 /// according to grammar rules and executing associated VM instructions.
 ///
-- 
2.43.0


From 8886509794de800b75227f2d145dd35df1255774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 07/20] fix: select a production by the symbols that can start
 it

The steuer map used the steuer set of a production's first element alone. If
that element can be empty, the set contains what follows it anywhere in the
grammar, so LL(1) grammars were rejected as not distinct. Use FIRST of the whole
production, plus FOLLOW of the rule if the production can be empty. An empty
terminal at the start of a production no longer panics.
---
 src/steuer_map.rs | 71 +++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 36 deletions(-)

diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 63c1a2b..3ac0889 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -3,16 +3,17 @@
 //! A steuer map links a lookahead symbol to a specific production. This module
 //! turns FIRST/FOLLOW/Steuer information into executable tables used by Parser.
 use std::collections::{HashMap, HashSet};
+use std::mem;
 use std::rc::Rc;
 
-use crate::parser_data::{ElementData, ElementIndex, ElementType, ParserData};
+use crate::first_sets::first_set_of_partial;
+use crate::parser_data::{ElementIndex, ParserData};
 use crate::vms::VM;
 
 use crate::errors::GrammarError;
-use crate::errors::GrammarError::{MissingFollowSet, MissingSteuerSet, SteuerSetsNotDistinct};
+use crate::errors::GrammarError::{MissingFollowSet, SteuerSetsNotDistinct};
 use crate::parser_data::Production;
-use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember};
-use crate::steuer_sets::get_steuer_sets;
+use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
 
 /// Forgot what NT means here. NonTerminal?
 pub struct NTRules<T>
@@ -29,25 +30,24 @@ pub type Steuermap = HashMap<SetMember, Rc<Production>>;
 pub fn get_steuermaps<T>(
     first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
-    parser_data: ParserData<T>,
+    mut parser_data: ParserData<T>,
 ) -> Result<HashMap<ElementIndex, NTRules<T>>, GrammarError>
 where
     T: VM,
 {
-    let steuer_sets = get_steuer_sets(first_sets, follow_sets)?;
     let mut steuer_maps = HashMap::new();
-    for (rule_name, productions) in parser_data.parse_rules.rules.into_iter() {
+    let rules = mem::take(&mut parser_data.parse_rules.rules);
+    for (rule_name, productions) in rules.into_iter() {
         let mut steuermap = Steuermap::new();
 
         for prod in productions.possible_productions.into_iter() {
             steuermap_of_production(
-                &steuer_sets,
+                first_sets,
                 follow_sets,
                 &mut steuermap,
                 prod,
                 rule_name,
-                &parser_data.element_types,
-                &parser_data.element_data,
+                &parser_data,
             )?;
         }
         steuer_maps.insert(
@@ -62,43 +62,42 @@ where
     Ok(steuer_maps)
 }
 
-fn steuermap_of_production(
-    steuer_sets: &NamedSetsNoEmpty,
+fn steuermap_of_production<T>(
+    first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
     steuer_map: &mut Steuermap,
     prod: Rc<Production>,
     cur_rule_name: ElementIndex,
-    el_types: &[ElementType],
-    el_data: &[ElementData],
-) -> Result<(), GrammarError> {
+    parser_data: &ParserData<T>,
+) -> Result<(), GrammarError>
+where
+    T: VM,
+{
     let prod_ref = Rc::clone(&prod);
     let prod = &*prod;
     match prod {
         Production::NotEmpty(el) => {
-            let first = el[0];
-            let et = el_types
-                .get(first)
-                .ok_or(GrammarError::MissingElementForIndex { index: first })?;
-            match et {
-                ElementType::Terminal => {
-                    let name = el_data.get(first).unwrap().name.clone();
-                    let old_key =
-                        steuer_map.insert(SetMember::Char(name.chars().next().unwrap()), prod_ref);
-                    if old_key.is_some() {
-                        return Err(SteuerSetsNotDistinct {
-                            steuer_terminal: name.clone(),
-                            steuer_char: name.chars().next().unwrap(),
-                            rule_name: cur_rule_name.to_string(),
-                        });
+            let mut steuer_menge = HashSet::new();
+            for member in first_set_of_partial(el, first_sets, parser_data)? {
+                match member {
+                    SetMemberWithEmpty::Char(x) => {
+                        steuer_menge.insert(SetMember::Char(x));
+                    }
+                    SetMemberWithEmpty::Terminate => {
+                        steuer_menge.insert(SetMember::Terminate);
+                    }
+                    // the whole production can be empty, so what follows the rule selects it too
+                    SetMemberWithEmpty::Empty => {
+                        let follow_set = follow_sets.get(&cur_rule_name).ok_or(
+                            MissingFollowSet {
+                                index: cur_rule_name,
+                            },
+                        )?;
+                        steuer_menge.extend(follow_set);
                     }
-                }
-                ElementType::NonTerminal => {
-                    let steuer_menge = steuer_sets
-                        .get(&first)
-                        .ok_or(MissingSteuerSet { index: first })?;
-                    fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
                 }
             }
+            fill_with_steuer_set(&steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
             Ok(())
         }
         Production::Empty => {
-- 
2.43.0


From 5c2214eacabd6aa970519474582bf8ce3d099605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 08/20] fix: let a parse process stop and escape consistently

The escape state was changed by looking at a character, so after peek had shown
an escaped stop character next refused it; peek_mut could see past the stop
character; and a stop character without an escape character was ignored. The
state now only follows the consumed characters.
---
 src/peekables.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index 401ae2d..01ca0c4 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -135,8 +135,8 @@ where
             return None;
         }
         let res = self.to_parse.next();
-        if res.is_some() {
-            self.current_position += 1
+        if let Some(c) = res {
+            self.consumed(c);
         }
         res
     }
@@ -154,6 +154,9 @@ where
     }
 
     fn peek_mut(&mut self) -> Option<&mut char> {
+        if !self.check_allowed() {
+            return None;
+        }
         self.to_parse.peek_mut()
     }
     fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
@@ -161,8 +164,8 @@ where
             return None;
         }
         let res = self.to_parse.next_if(func);
-        if res.is_some() {
-            self.current_position += 1
+        if let Some(c) = res {
+            self.consumed(c);
         }
         res
     }
@@ -172,8 +175,8 @@ where
             return None;
         }
         let res = self.to_parse.next_if_eq(expected);
-        if res.is_some() {
-            self.current_position += 1
+        if let Some(c) = res {
+            self.consumed(c);
         }
         res
     }
@@ -184,19 +187,14 @@ where
     T: TPeekable<Item = char>,
 {
     fn check_allowed(&mut self) -> bool {
-        let next = self.to_parse.peek();
-        if let (Some(&c), Some(escape_char), Some(stop_char)) =
-            (next, self.escape_char, self.stop_on)
-        {
-            if c == escape_char {
-                self.escape = true;
-            } else if c == stop_char && !self.escape {
-                return false;
-            } else {
-                self.escape = false;
-            }
+        match (self.to_parse.peek(), self.stop_on) {
+            (Some(&c), Some(stop_char)) => c != stop_char || self.escape,
+            _ => true,
         }
-        true
     }
-}
 
+    fn consumed(&mut self, c: char) {
+        self.current_position += 1;
+        self.escape = Some(c) == self.escape_char;
+    }
+}
-- 
2.43.0


From 61d842bcd4c5afd5f60dd3719d8b0e5a2496f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 09/20] fix: set the error code when a stack VM's result is out
 of range

Arithmetic of the stack VMs panicked in debug builds (1 2 - print on the
unsigned VM, a long number on either) and silently wrapped in release builds,
and so did constants beyond isize::MAX.
---
 src/vms/simple_stack_vm.rs | 28 ++++++++++++++++++++-------
 src/vms/stack_vm.rs        | 39 +++++++++++++++++++++++++++++---------
 2 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index a5cc39f..5e25fcd 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -74,16 +74,20 @@ impl VM for SimpleStackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    match state.reg.checked_add(var) {
+                        Some(res) => state.stack.push(res),
+                        None => state.error = 3, // Result out of range
+                    }
                 } else {
                     state.error = 1
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    match var.checked_sub(state.reg) {
+                        Some(res) => state.stack.push(res),
+                        None => state.error = 3, // Result out of range
+                    }
                 } else {
                     state.error = 1
                 }
@@ -143,8 +147,15 @@ impl VM for SimpleStackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exponent| base.checked_pow(exponent))
+                        .and_then(|factor| val.checked_mul(factor))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    match res {
+                        Some(res) => state.stack.push(res),
+                        None => state.error = 3, // Result out of range
+                    }
                 } else {
                     state.error = 1
                 }
@@ -152,7 +163,10 @@ impl VM for SimpleStackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg = state.reg + c;
+                match state.reg.checked_add(*c) {
+                    Some(res) => state.reg = res,
+                    None => state.error = 3, // Result out of range
+                }
             }
         }
     }
diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 981dbe4..5c2536d 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -34,6 +34,12 @@ pub struct StackVmState {
 }
 pub struct StackVm {}
 
+fn to_isize(val: usize) -> Result<isize, ParserError> {
+    isize::try_from(val).map_err(|_| ParserError::VmError {
+        message: format!("{val} is out of range"),
+    })
+}
+
 impl VM for StackVm {
     type Tstate = StackVmState;
     type Tinstrution = Instruction;
@@ -57,7 +63,7 @@ impl VM for StackVm {
                 "RegAddConst" => {
                     parse_whitespace(to_parse);
                     let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::RegAddConst(val as isize));
+                    instructions.push(Instruction::RegAddConst(to_isize(val)?));
                 }
                 "Sub" => instructions.push(Instruction::Sub),
                 "Digit" => instructions.push(Instruction::Digit),
@@ -67,7 +73,7 @@ impl VM for StackVm {
                 "PushConst" => {
                     parse_whitespace(to_parse);
                     let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::PushConst(val as isize));
+                    instructions.push(Instruction::PushConst(to_isize(val)?));
                 }
                 "PushFromTree" => instructions.push(Instruction::PushFromTree),
                 "PushReg" => instructions.push(Instruction::PushReg),
@@ -98,16 +104,20 @@ impl VM for StackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    match state.reg.checked_add(var) {
+                        Some(res) => state.stack.push(res),
+                        None => state.error = 3, // Result out of range
+                    }
                 } else {
                     state.error = 1;
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    match var.checked_sub(state.reg) {
+                        Some(res) => state.stack.push(res),
+                        None => state.error = 3, // Result out of range
+                    }
                 } else {
                     state.error = 1;
                 }
@@ -167,8 +177,16 @@ impl VM for StackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) as isize + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exponent| base.checked_pow(exponent))
+                        .and_then(|factor| isize::try_from(factor).ok())
+                        .and_then(|factor| val.checked_mul(factor))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    match res {
+                        Some(res) => state.stack.push(res),
+                        None => state.error = 3, // Result out of range
+                    }
                 } else {
                     state.error = 1;
                 }
@@ -176,7 +194,10 @@ impl VM for StackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg += c;
+                match state.reg.checked_add(*c) {
+                    Some(res) => state.reg = res,
+                    None => state.error = 3, // Result out of range
+                }
             }
         }
     }
-- 
2.43.0


From ece61f54f9b81ff08ca4f46a76a79df9f9b8ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 10/20] fix: read the $IGNORE directive in rule files

The readme documents "$IGNORE: production_name;" and the per-rule override and
the weaving of ignored productions are there, but nothing read the directive:
every rule file using it was rejected at its first character.
---
 src/rule_parsing.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 92782b2..da8a906 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -12,7 +12,7 @@ use std::str::Chars;
 
 use crate::errors::GrammarError::UnexpectedElementError;
 use crate::errors::ParserError;
-use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError};
+use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError, UnknownSpecialOperation};
 use crate::parse_funcs::{parse_symbol, parse_var_name, parse_whitespace};
 use crate::parser_data::{
     ElementIndex, ElementType, ElementVerbose, NonTerminalRules, ParseRules, ParserData,
@@ -55,6 +55,10 @@ where
             if self.parse_process.peek().is_none() {
                 break;
             }
+            if self.parse_symbol('$').is_ok() {
+                self.parse_directive()?;
+                continue;
+            }
             let (rule_name, rule) = self.parse_rule()?;
             self.merge_rule(rule, rule_name);
         }
@@ -130,6 +134,24 @@ where
         }
     }
 
+    /// Parses a directive like `$IGNORE: whitespace;`, which applies to the rules after it. The
+    /// leading `$` has been consumed.
+    fn parse_directive(&mut self) -> Result<(), ParserError> {
+        let pos = self.parse_process.cur_pos();
+        let operation = parse_var_name(&mut self.parse_process)?;
+        if operation != "IGNORE" {
+            return Err(UnknownSpecialOperation { operation, pos });
+        }
+        self.parse_whitespace();
+        self.parse_symbol(':')?;
+        self.parse_whitespace();
+        let ignore = parse_var_name(&mut self.parse_process)?;
+        self.parser_data.parse_rules.ignore =
+            Some(self.parser_data.get_or_add_non_terminal(&ignore));
+        self.parse_whitespace();
+        self.parse_symbol(';')
+    }
+
     pub fn parse_rule(&mut self) -> Result<(ElementIndex, NonTerminalRules<T>), ParserError> {
         let identifier = parse_var_name(&mut self.parse_process)?;
 
-- 
2.43.0


From ba9bdb26180e27fde137ca1e1448818059e67d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 11/20] fix: let the counting VM read its action sections to
 the end

---
 src/vms/counting_vm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vms/counting_vm.rs b/src/vms/counting_vm.rs
index 2e3dbf5..b57dbd5 100644
--- a/src/vms/counting_vm.rs
+++ b/src/vms/counting_vm.rs
@@ -19,11 +19,13 @@ impl VM for CountingVm {
     fn parse_instructions<T>(
         &self,
         _prod_name: &str,
-        _to_parse: &mut ParseProcess<T>,
+        to_parse: &mut ParseProcess<T>,
     ) -> Result<Vec<Self::Tinstrution>, ParserError>
     where
         T: TPeekable<Item = char>,
     {
+        // Consume all characters in the parse process
+        while to_parse.next().is_some() {}
         Ok(vec![0])
     }
 
-- 
2.43.0


From 95a3050c975cb73fa662f199a6be8513daa3c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 12/20] fix: keep the nesting of a parse off the call stack

Repetition in an LL(1) grammar is right recursion, so the nesting of a derivation
grows with the length of the script and a long list overflowed the stack.
---
 src/script_parser.rs | 92 +++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 32 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index b78d2a5..20ffcee 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -62,6 +62,16 @@ where
     start_index: Option<ElementIndex>,
 }
 
+/// A production that has been selected but not completely parsed.
+struct OpenProduction<'s, T>
+where
+    T: VM,
+{
+    id: NodeId,
+    remaining: std::slice::Iter<'s, ElementIndex>,
+    instructions: &'s Vec<T::Tinstrution>,
+}
+
 impl<'a, T> Parser<'a, T>
 where
     T: VM + 'a,
@@ -256,14 +266,14 @@ where
             Some(fp) => Ok(fp),
         }
     }
-    fn parse_production(
-        &self,
+    /// Selects the production for the next character and adds its node to the tree.
+    fn open_production<'s>(
+        &'s self,
         to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
         el_index: ElementIndex,
-        state: &mut T::Tstate,
         tree: &mut Tree<String>,
-        current_node: Option<NodeId>,
-    ) -> Result<(), ParserError> {
+        parent: Option<NodeId>,
+    ) -> Result<OpenProduction<'s, T>, ParserError> {
         let cur = SetMember::from(to_parse.peek());
         let nt_rule = self
             .rules_with_steuermaps
@@ -272,37 +282,55 @@ where
         let fitting_production: &Rc<Production> =
             self.get_fitting_production(to_parse, el_index, &cur)?;
 
-        let id = tree.add_node(String::from(""), current_node)?;
+        let id = tree.add_node(String::from(""), parent)?;
 
         let prod = &**fitting_production;
-        match prod {
-            Production::NotEmpty(prod_not_empty) => {
-                for next_element_index in prod_not_empty {
-                    let element_next = self.elements.get(*next_element_index).unwrap().clone();
-
-                    match element_next.et {
-                        ElementType::Terminal => {
-                            let _ = tree.add_node(
-                                self.parse_terminal(to_parse, element_next.name.as_str())?,
-                                Some(id),
-                            );
-                        }
-                        ElementType::NonTerminal => {
-                            self.parse_production(
-                                to_parse,
-                                *next_element_index,
-                                state,
-                                tree,
-                                Some(id),
-                            )?;
-                        }
-                    }
+        let remaining = match prod {
+            Production::NotEmpty(prod_not_empty) => prod_not_empty.iter(),
+            Production::Empty => [].iter(),
+        };
+        Ok(OpenProduction {
+            id,
+            remaining,
+            instructions: &nt_rule.instruction,
+        })
+    }
+    fn parse_production(
+        &self,
+        to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
+        el_index: ElementIndex,
+        state: &mut T::Tstate,
+        tree: &mut Tree<String>,
+        current_node: Option<NodeId>,
+    ) -> Result<(), ParserError> {
+        //The open productions are kept here and not on the call stack: their number grows with the script
+        let mut open = vec![self.open_production(to_parse, el_index, tree, current_node)?];
+        while let Some(production) = open.last_mut() {
+            let id = production.id;
+            let Some(next_element_index) = production.remaining.next() else {
+                self.run_instructions(tree, id, production.instructions, state);
+                open.pop();
+                continue;
+            };
+            let element_next = self.elements.get(*next_element_index).unwrap().clone();
+
+            match element_next.et {
+                ElementType::Terminal => {
+                    let _ = tree.add_node(
+                        self.parse_terminal(to_parse, element_next.name.as_str())?,
+                        Some(id),
+                    );
+                }
+                ElementType::NonTerminal => {
+                    open.push(self.open_production(
+                        to_parse,
+                        *next_element_index,
+                        tree,
+                        Some(id),
+                    )?);
                 }
             }
-            Production::Empty => {}
-        };
-
-        self.run_instructions(tree, id, &nt_rule.instruction, state);
+        }
 
         Ok(())
     }
-- 
2.43.0


From e97c6c74bcf0bdba297560d43616649099dfcd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 13/20] fix: collect the descendants of a deep tree node
 without recursion

---
 src/tree.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 0f4083c..def6caa 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -130,11 +130,11 @@ impl<T> Tree<T> {
 
     pub fn get_descendants(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut descendants = vec![];
-        let children = self.get_children(node_id);
-        descendants.extend(&children);
-        for child in children {
-            let child_descendants = self.get_descendants(child);
-            descendants.extend(child_descendants);
+        let mut open = vec![node_id];
+        while let Some(node) = open.pop() {
+            let children = self.get_children(node);
+            descendants.extend(&children);
+            open.extend(children.iter().rev());
         }
         descendants
     }
-- 
2.43.0


From c278665d59402b366e8934389ee9eee329a91b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 14/20] fix: decide derivability of ignored rules without
 recursion

One call per rule of a chain overflowed the stack when rule text was read whose $IGNORE rule leads
over very many further rules.
---
 src/rule_parsing.rs | 78 +++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 52 deletions(-)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index da8a906..64d1e55 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -388,61 +388,35 @@ fn check_is_derivative<T>(
 where
     T: VM,
 {
-    _check_is_derivative(element_types, parse_rules, left, right, &mut HashSet::new())
-}
-
-fn _check_is_derivative<T>(
-    element_types: &Vec<ElementType>,
-    parse_rules: &ParseRules<T>,
-    left: ElementIndex,
-    right: ElementIndex,
-    visited: &mut HashSet<ElementIndex>,
-) -> Result<bool, ParserError>
-where
-    T: VM,
-{
-    if let ElementType::Terminal = element_types.get(left).unwrap() {
-        return Ok(false);
-    }
-    let prods = &parse_rules
-        .rules
-        .get(&left)
-        .ok_or(ParserError::InternalError {
-            message: format!("could not find production for index {left}"),
-        })?
-        .possible_productions;
-
-    if left == right {
-        return Ok(true);
-    }
-    if visited.contains(&left) {
-        return Ok(false);
-    }
-    visited.insert(left.clone());
-
-    let mut is_der = false;
-    for prod in prods {
-        match &**prod {
-            Production::NotEmpty(prod_ne, ..) => {
-                for el in prod_ne {
-                    if *el == right {
-                        return Ok(true);
-                    } else {
-                        is_der = is_der
-                            || _check_is_derivative(
-                                element_types,
-                                parse_rules,
-                                *el,
-                                right,
-                                visited,
-                            )?;
-                    }
-                }
+    let mut visited = HashSet::new();
+    //The elements to visit are kept here and not on the call stack: their number grows with the rules
+    let mut open = vec![left];
+    while let Some(el) = open.pop() {
+        if let ElementType::Terminal = element_types.get(el).unwrap() {
+            continue;
+        }
+        let prods = &parse_rules
+            .rules
+            .get(&el)
+            .ok_or(ParserError::InternalError {
+                message: format!("could not find production for index {el}"),
+            })?
+            .possible_productions;
+
+        if el == right {
+            return Ok(true);
+        }
+        if !visited.insert(el) {
+            continue;
+        }
+        for prod in prods.iter().rev() {
+            match &**prod {
+                Production::NotEmpty(prod_ne, ..) => open.extend(prod_ne.iter().rev()),
+                Production::Empty => {}
             }
-            Production::Empty => {}
         }
     }
-    Ok(is_der)
+    Ok(false)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e7c4ce1655a3190d79a25fc36d114bcae0f96379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 15/20] fix: compute FIRST sets without recursion

One call per rule of a chain of references overflowed the stack for very long chains.
---
 src/first_sets.rs | 134 ++++++++++++++++++++++++----------------------
 1 file changed, 71 insertions(+), 63 deletions(-)

diff --git a/src/first_sets.rs b/src/first_sets.rs
index b030293..9baec72 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -5,6 +5,7 @@
 use crate::errors::GrammarError;
 use crate::parser_data::{ElementIndex, ElementType, ParserData, Production};
 use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 use crate::sets::{NamedSets, SetMemberWithEmpty};
 use crate::vms::VM;
@@ -46,44 +47,90 @@ where
     T: VM,
 {
     let mut first_sets: NamedSets = HashMap::new();
-    let mut in_progress = HashSet::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, &mut in_progress, parser_data)?;
+        set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
     }
     Ok(first_sets)
 }
 
-fn get_set_first_set_of_element<T>(
+/// A non-terminal whose FIRST set is not complete yet.
+struct OpenElement<'d> {
+    el_ix: ElementIndex,
+    set: HashSet<SetMemberWithEmpty>,
+    productions: std::slice::Iter<'d, Rc<Production>>,
+    /// What is left of the current production
+    elements: std::slice::Iter<'d, ElementIndex>,
+}
+
+impl<'d> OpenElement<'d> {
+    fn new<T>(
+        el_ix: ElementIndex,
+        parser_data: &'d ParserData<T>,
+    ) -> Result<OpenElement<'d>, GrammarError>
+    where
+        T: VM,
+    {
+        let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
+            return Err(GrammarError::MissingProduction { index: el_ix });
+        };
+        Ok(OpenElement {
+            el_ix,
+            set: HashSet::new(),
+            productions: productions.possible_productions.iter(),
+            elements: [].iter(),
+        })
+    }
+}
+
+/// Adds the FIRST set of a non-terminal, and of those it depends on, to first_sets
+fn set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
-    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
-) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
+) -> Result<(), GrammarError>
 where
     T: VM,
 {
-    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;
-    let res = match set_maybe {
-        None => {
-            let mut set: HashSet<SetMemberWithEmpty> = HashSet::new();
-            let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
-                    return Err(GrammarError::MissingProduction { index: el_ix });
-                };
-            if !in_progress.insert(el_ix) {
-                return Err(GrammarError::LeftRecursion { index: el_ix });
+    if first_sets.contains_key(&el_ix) {
+        return Ok(());
+    }
+    //The open elements are kept here and not on the call stack: their number grows with the rules
+    let mut open = vec![OpenElement::new(el_ix, parser_data)?];
+    let mut in_progress = HashSet::from([el_ix]);
+    while let Some(element) = open.last_mut() {
+        if let Some(&next_ix) = element.elements.as_slice().first() {
+            let Some(mut cur_set) = get_first_set_of_element(next_ix, first_sets, parser_data)?
+            else {
+                let next = OpenElement::new(next_ix, parser_data)?;
+                if !in_progress.insert(next_ix) {
+                    return Err(GrammarError::LeftRecursion { index: next_ix });
+                }
+                open.push(next);
+                continue;
+            };
+            element.elements.next();
+            let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
+            if has_empty && !element.elements.as_slice().is_empty() {
+                cur_set.remove(&SetMemberWithEmpty::Empty);
+            }
+            element.set.extend(cur_set);
+            if !has_empty {
+                element.elements = [].iter();
             }
-            for production in &productions.possible_productions {
-                let rus =
-                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
-                set.extend(&rus);
+        } else if let Some(production) = element.productions.next() {
+            match &**production {
+                Production::Empty => {
+                    element.set.insert(SetMemberWithEmpty::Empty);
+                }
+                Production::NotEmpty(el_ixs) => element.elements = el_ixs.iter(),
             }
-            in_progress.remove(&el_ix);
-            first_sets.insert(el_ix, set.clone());
-            Ok(set)
+        } else {
+            in_progress.remove(&element.el_ix);
+            first_sets.insert(element.el_ix, std::mem::take(&mut element.set));
+            open.pop();
         }
-        Some(x) => Ok(x),
-    };
-    res
+    }
+    Ok(())
 }
 
 fn get_first_set_of_element<T>(
@@ -109,45 +156,6 @@ where
     Ok(res)
 }
 
-fn get_first_set_of_production<T>(
-    production: &Production,
-    first_sets: &mut NamedSets,
-    in_progress: &mut HashSet<ElementIndex>,
-    parser_data: &ParserData<T>,
-) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
-where
-    T: VM,
-{
-    match production {
-        Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
-        Production::NotEmpty(el_ixs) => {
-            let mut first_menge = get_set_first_set_of_element(
-                *el_ixs.first().unwrap(),
-                first_sets,
-                in_progress,
-                parser_data,
-            )?;
-            if first_menge.contains(&SetMemberWithEmpty::Empty) {
-                for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(
-                        *el_ix,
-                        first_sets,
-                        in_progress,
-                        parser_data,
-                    )?;
-                    let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
-                    first_menge.extend(cur_set);
-                    if !has_empty {
-                        first_menge.remove(&SetMemberWithEmpty::Empty);
-                        break;
-                    }
-                }
-            }
-            Ok(first_menge)
-        }
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use crate::parser_data::ElementVerbose;
-- 
2.43.0


From 8c0de1f2aeb9647b5e10018d19b801f987e7c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 16/20] fix: say in an error's text what the error holds

---
 src/errors.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index e4b6b02..41f896d 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -57,11 +57,13 @@ impl fmt::Display for ParserError {
             ParserError::UnknownSpecialOperation { operation, pos } => {
                 write!(f, " \"{}\" at pos {} was not expected", operation, pos)
             }
-            ParserError::GramError { .. } => write!(f, "There was a Grammar error"),
+            ParserError::GramError { err } => write!(f, "There was a Grammar error: {err}"),
             ParserError::Impossible => write!(f, "This error should not be possible"),
-            ParserError::InternalError { .. } => write!(f, "There was an internal error"),
-            ParserError::VmError { .. } => write!(f, "There was a VM error"),
-            ParserError::TreeError { .. } => write!(f, "There was a treeerror"),
+            ParserError::InternalError { message } => {
+                write!(f, "There was an internal error: {message}")
+            }
+            ParserError::VmError { message } => write!(f, "There was a VM error: {message}"),
+            ParserError::TreeError { err } => write!(f, "There was a treeerror: {err}"),
         }
     }
 }
@@ -137,18 +139,27 @@ impl fmt::Display for GrammarError {
                 write!(f, " \"{index}\" not in productions")
             }
             GrammarError::LeftRecursion { index } => write!(f, " \"{index}\" is left recursive"),
-            GrammarError::SteuerSetsNotDistinct { .. } => write!(f, "steuersets not distinct"),
+            GrammarError::SteuerSetsNotDistinct {
+                steuer_char,
+                rule_name,
+                ..
+            } => {
+                write!(
+                    f,
+                    "steuersets not distinct: \"{steuer_char}\" selects two productions of rule \"{rule_name}\""
+                )
+            }
             GrammarError::UnexpectedElementError { reason, pos } => {
                 write!(f, " \"{reason}\" at pos {pos} was not expected")
             }
-            GrammarError::GraphNodeAlreadyExistsError { .. } => {
-                write!(f, "graph node already exists")
+            GrammarError::GraphNodeAlreadyExistsError { node_name } => {
+                write!(f, "graph node \"{node_name}\" already exists")
             }
-            GrammarError::GraphNodeDoesNotExistsError { .. } => {
-                write!(f, "graph node doesn't exists")
+            GrammarError::GraphNodeDoesNotExistsError { node_name } => {
+                write!(f, "graph node \"{node_name}\" doesn't exists")
             }
-            GrammarError::GraphIndexOutOfBounds { .. } => {
-                write!(f, "graph node index out of bounds")
+            GrammarError::GraphIndexOutOfBounds { index } => {
+                write!(f, "graph node index \"{index}\" out of bounds")
             }
         }
     }
-- 
2.43.0


From eba42700721fecee4ce4cd30a87f0f6d88c70424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 17/20] fix: accept file names that are not Unicode

The command line tool ended with a panic when the name of a file was not
valid Unicode, although the file could be read.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8093720..b26aab1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,6 +2,7 @@ extern crate core;
 
 use henriks_parsing_project::script_parser::Parser;
 use henriks_parsing_project::vms::{NullVm, VM};
+use std::ffi::OsString;
 use std::{env, fs};
 
 /// Main entry point for the command-line tool.
@@ -15,7 +16,7 @@ use std::{env, fs};
 /// It parses the script according to the grammar rules and returns the parse tree.
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
     let rule_path = &args[1];
     let script_path = &args[2];
     let rules = fs::read_to_string(rule_path).expect("Unable to read rule file");
-- 
2.43.0


From 2f985013d5fb07e018f9a4a385931e4d52b08777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 18/20] fix: number an edge when the largest number is taken

add_edge took the largest number of the node's edges plus one, which panics
(or wraps to a number that may be taken, and breaks the order of the edges)
when try_add_edge_with_id was given usize::MAX.
---
 src/simple_graph.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/simple_graph.rs b/src/simple_graph.rs
index 1631c0c..ab6ac3c 100644
--- a/src/simple_graph.rs
+++ b/src/simple_graph.rs
@@ -60,7 +60,21 @@ impl<T> Graph<T> {
         let last_edge_index = node_data.first_outgoing_edge;
         let new_edge_id = match last_edge_index {
             None => 0,
-            Some(index) => self.edges.get(index).unwrap().id + 1,
+            Some(index) => match self.edges.get(index).unwrap().id.checked_add(1) {
+                Some(id) => id,
+                None => {
+                    // The largest number is taken, so use the largest free one
+                    let mut id = usize::MAX;
+                    for connected_edge_index in self.connected_edges(source) {
+                        if self.edges[connected_edge_index].id != id {
+                            break;
+                        }
+                        id -= 1;
+                    }
+                    self.try_add_edge_with_id(source, target, id);
+                    return;
+                }
+            },
         };
         self.edges.push(EdgeData {
             target,
-- 
2.43.0


From 227a1bebda48399b7acc3e29b2126f7913106947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 19/20] fix: allow white space within an override

---
 src/rule_parsing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 64d1e55..79c0d8c 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -218,9 +218,11 @@ where
         let mut ignore_this = self.parser_data.parse_rules.ignore.clone();
         if self.parse_symbol('$').is_ok() {
             self.parse_symbol('[')?;
+            self.parse_whitespace();
             let varname = parse_var_name(&mut self.parse_process)?;
             self.parse_whitespace();
             self.parse_symbol(':')?;
+            self.parse_whitespace();
 
             if varname == "IGNORE" {
                 if self.parse_symbol('#').is_ok() {
@@ -235,6 +237,7 @@ where
                 }
             }
 
+            self.parse_whitespace();
             self.parse_symbol(']')?;
         };
 
-- 
2.43.0


From 14bfc18209fd59abe1524737715db1387b6e060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 20/20] fix: allow white space before the separator of a stack
 VM instruction

---
 src/vms/stack_vm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 5c2536d..84a454a 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -88,6 +88,7 @@ impl VM for StackVm {
                 }
                 _ => {} // Handle unknown instructions if necessary
             }
+            parse_whitespace(to_parse);
             parse_symbol(to_parse, ';')?;
             parse_whitespace(to_parse);
         }
-- 
2.43.0

