From d406c57ed581235767d36c87b304c2a1128f05ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 01/28] fix: keep loops through the start of a part apart from
 the part before it

---
 packages/compiler/src/regex.rs | 48 ++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d3571b4..c0f7cab 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -690,6 +690,53 @@ fn rename_states(dfa_graph: &DFAGraph, base: usize) -> DFAGraph {
     }
 }
 
+/// Gives the start state of a DFA graph a copy that takes over every transition into it.
+///
+/// Merging a part identifies its start state with the accepting states built so far. If the part can
+/// return to its start state, that is only correct when the start state and the accepting state behave
+/// the same; otherwise the loop has to run through a state of its own.
+///
+/// # Arguments
+///
+/// * `net_dfa` - A reference to the cumulative DFAGraph built so far.
+/// * `graph` - The DFA graph of the part about to be merged.
+///
+/// # Returns
+///
+/// The graph, with its start state unrolled if that is necessary.
+fn unroll_start_state(net_dfa: &DFAGraph, mut graph: DFAGraph) -> DFAGraph {
+    let start_id = match graph.states.first() {
+        Some(start) => start.state_id,
+        None => return graph,
+    };
+    let is_reentrant = graph
+        .states
+        .iter()
+        .any(|state| state.transitions.contains_key(&start_id));
+    let (accepting_states, _) = collect_accepting_states(net_dfa);
+    let max_state_id = net_dfa.states.iter().map(|state| state.state_id).max();
+    let can_share_start = matches!(
+        accepting_states.as_slice(),
+        [accept] if accept.state_id != 0
+            && accept.transitions.is_empty()
+            && Some(accept.state_id) == max_state_id
+    );
+    if !is_reentrant || can_share_start {
+        return graph;
+    }
+
+    let mut copy = graph.states[0].clone();
+    copy.state_id = graph.states.len();
+    let copy_id = copy.state_id;
+    graph.states.push(copy);
+    for state in &mut graph.states {
+        if let Some(chars) = state.transitions.remove(&start_id) {
+            state.transitions.insert(copy_id, chars);
+        }
+    }
+    graph
+}
+
 /// Collects accepting states from a DFA graph and their state IDs.
 ///
 /// # Arguments
@@ -959,6 +1006,7 @@ pub(crate) fn get_regex_and_dfa(
         let mut dfa_graph = convert_dfa_to_graph(dfa)?;
 
         handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
+        dfa_graph = unroll_start_state(&net_dfa_graph, dfa_graph);
 
         let max_state_index = net_dfa_graph
             .states
-- 
2.43.0


From 1536515da3553d37ed35416487678e5a98458819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 02/28] fix: drop transitions emptied by merging parts

---
 packages/compiler/src/regex.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index c0f7cab..ca774f4 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -901,6 +901,9 @@ fn merge_edges(target_state: &mut DFAStateNode, source_state: &DFAStateNode) {
         }
         target_state.transitions.insert(*k, v.clone());
     }
+    target_state
+        .transitions
+        .retain(|_, values| !values.is_empty());
 }
 
 /// Updates the state type of a target state based on the source state.
-- 
2.43.0


From cf9f14fa359b59e104217376d82c42043dea3e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 03/28] fix: let $ match at the end of a message without
 padding

---
 packages/compiler/src/circom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f7d319f..c09e6b8 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -694,9 +694,9 @@ fn generate_accept_logic(
     accept_lines.push("\t}".to_string());
 
     if end_anchor {
-        accept_lines.push("\tsignal end_anchor_check[num_bytes+1][2];".to_string());
+        accept_lines.push("\tsignal end_anchor_check[num_bytes+2][2];".to_string());
         accept_lines.push("\tend_anchor_check[0][1] <== 0;".to_string());
-        accept_lines.push("\tfor (var i = 0; i < num_bytes; i++) {".to_string());
+        accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
         accept_lines.push(
             "\t\tend_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);"
                 .to_string(),
@@ -706,7 +706,7 @@ fn generate_accept_logic(
         );
         accept_lines.push("\t}".to_string());
         accept_lines
-            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes][1];".to_string());
+            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes+1][1];".to_string());
     } else {
         accept_lines.push("\tout <== is_accepted.out;".to_string());
     }
-- 
2.43.0


From d3e63b7b9fd61662122955e9a5e4938ffcfc0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 04/28] fix: with an end anchor, reveal only the match at the
 end

---
 packages/compiler/src/circom.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index c09e6b8..7c1d335 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -695,14 +695,20 @@ fn generate_accept_logic(
 
     if end_anchor {
         accept_lines.push("\tsignal end_anchor_check[num_bytes+2][2];".to_string());
+        accept_lines.push("\tsignal accepted_at_end[num_bytes+1];".to_string());
         accept_lines.push("\tend_anchor_check[0][1] <== 0;".to_string());
         accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
         accept_lines.push(
             "\t\tend_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);"
                 .to_string(),
         );
+        accept_lines.push(format!(
+            "\t\taccepted_at_end[i] <== states[i][{}] * end_anchor_check[i+1][0];",
+            accept_node
+        ));
         accept_lines.push(
-            format!("\t\tend_anchor_check[i+1][1] <== end_anchor_check[i][1] + states[i][{}] * end_anchor_check[i+1][0];", accept_node)
+            "\t\tend_anchor_check[i+1][1] <== end_anchor_check[i][1] + accepted_at_end[i];"
+                .to_string(),
         );
         accept_lines.push("\t}".to_string());
         accept_lines
@@ -769,23 +775,30 @@ fn gen_circom_allstr(
 /// # Arguments
 ///
 /// * `accepted_state` - The index of the accepted state.
+/// * `end_anchor` - Whether the regex has an end anchor.
 ///
 /// # Returns
 ///
 /// A String containing the generated Circom code for consecutive logic.
-fn write_consecutive_logic(accepted_state: usize) -> String {
+fn write_consecutive_logic(accepted_state: usize, end_anchor: bool) -> String {
+    // With an end anchor only the match at the end of the message counts.
+    let is_match_end = if end_anchor {
+        "accepted_at_end[num_bytes-i]".to_string()
+    } else {
+        format!("states[num_bytes-i][{accepted_state}]")
+    };
     let mut logic = String::new();
     logic += "\n";
     logic += "\tsignal is_consecutive[msg_bytes+1][3];\n";
     logic += "\tis_consecutive[msg_bytes][2] <== 0;\n";
     logic += "\tfor (var i = 0; i < msg_bytes; i++) {\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][0] <== states[num_bytes-i][{accepted_state}] * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
+        "\t\tis_consecutive[msg_bytes-1-i][0] <== {is_match_end} * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
     );
     logic +=
         "\t\tis_consecutive[msg_bytes-1-i][1] <== state_changed[msg_bytes-i].out * is_consecutive[msg_bytes-1-i][0];\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), states[num_bytes-i][{accepted_state}], is_consecutive[msg_bytes-1-i][1]]);\n"
+        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), {is_match_end}, is_consecutive[msg_bytes-1-i][1]]);\n"
     );
     logic += "\t}\n";
     logic
@@ -932,7 +945,7 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
         get_accepted_state(&regex_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let mut circom = String::new();
 
-    circom += &write_consecutive_logic(accepted_state);
+    circom += &write_consecutive_logic(accepted_state, regex_dfa.has_end_anchor);
 
     circom += &format!(
         "\t// substrings calculated: {:?}\n",
-- 
2.43.0


From 5f4fc8a47feef79c0d57edbe7a0e07b3c7d3994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 05/28] fix: close the template when no substrings are
 generated

---
 packages/compiler/src/circom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 7c1d335..eb73f08 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -993,6 +993,8 @@ pub(crate) fn gen_circom_template(
     if gen_substrs {
         let substrs = add_substrs_constraints(regex_and_dfa)?;
         file.write_all(substrs.as_bytes())?;
+    } else {
+        file.write_all(b"\n}")?;
     }
 
     file.flush()?;
-- 
2.43.0


From 48c956e8812790af0169ef3892e24cc68d83f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 06/28] fix: anchor the whole of a raw regex

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index ca774f4..433d925 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1065,7 +1065,7 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
 
     let dfa = DFA::builder()
         .configure(config)
-        .build(&format!(r"^{}$", regex))
+        .build(&format!(r"^({})$", regex))
         .map_err(|e| CompilerError::BuildError {
             regex: regex.to_string(),
             source: e,
-- 
2.43.0


From 252bf82f60e0b52c823baf632bea9a6cd1c2949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 07/28] fix: reject several accept states in halo2 tables too

---
 packages/compiler/src/halo2.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index d8e2048..476fd47 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -51,6 +51,18 @@ pub(crate) fn gen_halo2_tables(
     substr_file_paths: &[PathBuf],
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
+    let accept_states_count = regex_and_dfa
+        .dfa
+        .states
+        .iter()
+        .filter(|state| state.state_type == "accept")
+        .count();
+    if accept_states_count != 1 {
+        return Err(CompilerError::AcceptNodesError(
+            "The size of accept nodes must be one".to_string(),
+        ));
+    }
+
     let regex_text = dfa_to_regex_def_text(regex_and_dfa);
     std::fs::write(allstr_file_path, regex_text)?;
 
-- 
2.43.0


From dfe671feb60247cd54b06e957146ed27244dbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 08/28] fix: find the caret behind nested groups, classes and
 escapes

---
 packages/compiler/src/regex.rs | 42 ++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 433d925..fa47279 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -40,45 +40,47 @@ fn create_dfa_config() -> Config {
 /// An `Option<usize>` containing the index of the caret if found, or `None` if not found.
 fn find_caret_index(regex: &str) -> Option<usize> {
     let regex_bytes = regex.as_bytes();
-    let mut is_in_parenthesis = false;
+    let mut group_depth = 0usize;
+    let mut class_depth = 0usize;
     let mut caret_found = false;
     let mut idx = 0;
 
     while idx < regex_bytes.len() {
-        match regex_bytes[idx] {
-            b'\\' => {
-                idx += 2;
-            }
-            b'(' => {
-                is_in_parenthesis = true;
-                idx += 1;
-            }
+        let byte = regex_bytes[idx];
+        idx += 1;
+        match byte {
+            b'\\' => idx += 1,
             b'[' => {
-                idx += 2;
+                // A negation sign or a closing bracket that comes first does not end the class.
+                class_depth += 1;
+                if regex_bytes.get(idx) == Some(&b'^') {
+                    idx += 1;
+                }
+                if regex_bytes.get(idx) == Some(&b']') {
+                    idx += 1;
+                }
             }
+            b']' => class_depth = class_depth.saturating_sub(1),
+            _ if class_depth > 0 => {}
+            b'(' => group_depth += 1,
             b')' => {
-                debug_assert!(is_in_parenthesis, "Unmatched parenthesis");
-                is_in_parenthesis = false;
-                idx += 1;
-                if caret_found {
+                group_depth = group_depth.saturating_sub(1);
+                if caret_found && group_depth == 0 {
                     break;
                 }
             }
             b'^' => {
                 caret_found = true;
-                idx += 1;
-                if !is_in_parenthesis {
+                if group_depth == 0 {
                     break;
                 }
             }
-            _ => {
-                idx += 1;
-            }
+            _ => {}
         }
     }
 
     if caret_found {
-        Some(idx)
+        Some(idx.min(regex_bytes.len()))
     } else {
         None
     }
-- 
2.43.0


From 200fd2b45c9c5fb4cf41557f4293eba905b7550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 09/28] fix: do not take an escaped dollar sign for the end
 anchor

---
 packages/compiler/src/regex.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index fa47279..88ef333 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -113,6 +113,22 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks whether a regex ends with an end anchor, i.e. a `$` that is not escaped.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// `true` if the last character is an unescaped `$`.
+fn ends_with_end_anchor(regex: &str) -> bool {
+    match regex.strip_suffix('$') {
+        Some(rest) => rest.bytes().rev().take_while(|&byte| byte == b'\\').count() % 2 == 0,
+        None => false,
+    }
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -130,7 +146,7 @@ fn validate_end_anchor(
     regex: &RegexPartConfig,
 ) -> Result<bool, CompilerError> {
     let is_last_part = idx == decomposed_regex.parts.len() - 1;
-    let ends_with_dollar = regex.regex_def.ends_with('$');
+    let ends_with_dollar = ends_with_end_anchor(&regex.regex_def);
 
     if ends_with_dollar && !is_last_part {
         return Err(CompilerError::GenericError(
@@ -1148,7 +1164,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: regex_str.ends_with('$'),
+        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
     })
 }
-- 
2.43.0


From f55b8a3b75abe7945005b87883756812c4dbe927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 10/28] fix: nothing of the caret section follows the beginning
 of the input

---
 packages/compiler/src/regex.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 88ef333..3ad40d7 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -574,7 +574,7 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 /// # Function Behavior
 ///
 /// 1. Clears the state type of the start state.
-/// 2. Finds the accept state in the graph.
+/// 2. Finds the accept state in the graph, or adds one if that state can be left again.
 /// 3. Adds a transition from the start state to the accept state with byte value 255.
 fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
     if let Some(start_state) = graph.states.get_mut(0) {
@@ -585,17 +585,35 @@ fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
         ));
     }
 
-    let accepted_state = graph
+    let accepting_states: Vec<_> = graph
         .states
         .iter()
-        .find(|state| state.state_type == "accept")
-        .ok_or_else(|| CompilerError::GraphError("Accept state not found".to_string()))?
-        .clone();
+        .filter(|state| state.state_type == "accept")
+        .collect();
+
+    // The beginning of the input matches the empty string, so nothing of the part may follow it.
+    let caret_target = match accepting_states.as_slice() {
+        [] => {
+            return Err(CompilerError::GraphError(
+                "Accept state not found".to_string(),
+            ))
+        }
+        [accept] if accept.transitions.is_empty() => accept.state_id,
+        _ => {
+            let state_id = graph.states.len();
+            graph.states.push(DFAStateNode {
+                state_type: "accept".to_string(),
+                state_id,
+                transitions: BTreeMap::new(),
+            });
+            state_id
+        }
+    };
 
     if let Some(start_state) = graph.states.get_mut(0) {
         start_state
             .transitions
-            .entry(accepted_state.state_id)
+            .entry(caret_target)
             .or_insert_with(BTreeSet::new)
             .insert(255u8);
     }
-- 
2.43.0


From 7b8f020140bb5e28cf26904ba79c64aad2b12849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 11/28] fix: leave out transitions on the padding byte alone

---
 packages/compiler/src/circom.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index eb73f08..a61df49 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -479,12 +479,15 @@ fn generate_state_transition_logic(
         zero_starting_and_idxes.insert(i, vec![]);
 
         for (prev_i, chars) in rev_graph.get(&i).unwrap_or(&BTreeMap::new()) {
-            if *prev_i == 0 {
-                zero_starting_states.push(i);
-            }
             let mut k = chars.clone();
             k.retain(|&x| x != 0);
             k.sort();
+            if k.is_empty() {
+                continue;
+            }
+            if *prev_i == 0 {
+                zero_starting_states.push(i);
+            }
 
             let mut eq_outputs = vec![];
 
-- 
2.43.0


From 77e38b18dff52c273d8e303bcb782484c7aefe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 12/28] fix: let -h of the command line stand for the halo2
 directory only

---
 packages/compiler/src/bin/compiler.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/compiler/src/bin/compiler.rs b/packages/compiler/src/bin/compiler.rs
index ba53749..5be991e 100644
--- a/packages/compiler/src/bin/compiler.rs
+++ b/packages/compiler/src/bin/compiler.rs
@@ -57,6 +57,7 @@ struct Cli {
 
 #[derive(Debug, Subcommand, Clone)]
 enum Commands {
+    #[command(disable_help_flag = true)]
     Decomposed {
         #[arg(short, long)]
         decomposed_regex_path: String,
@@ -68,7 +69,11 @@ enum Commands {
         template_name: Option<String>,
         #[arg(short, long)]
         gen_substrs: Option<bool>,
+        /// Print help
+        #[arg(long, action = clap::ArgAction::Help)]
+        help: Option<bool>,
     },
+    #[command(disable_help_flag = true)]
     Raw {
         #[arg(short, long)]
         raw_regex: String,
@@ -82,6 +87,9 @@ enum Commands {
         template_name: Option<String>,
         #[arg(short, long)]
         gen_substrs: Option<bool>,
+        /// Print help
+        #[arg(long, action = clap::ArgAction::Help)]
+        help: Option<bool>,
     },
 }
 
@@ -100,6 +108,7 @@ fn process_decomposed(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_decomposed(
@@ -123,6 +132,7 @@ fn process_raw(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_raw(
-- 
2.43.0


From cd619c93aefdc27cf10f0eff005af8e4186e1bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 13/28] fix: match parts with groups, escaped parentheses and
 flags as they are

---
 packages/apis/src/extract_substrs.rs | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index f975e5e..b1e83f3 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -43,25 +43,29 @@ pub fn extract_substr_idxes(
     regex_config: &DecomposedRegexConfig,
     reveal_private: bool,
 ) -> Result<Vec<(usize, usize)>, ExtractSubstrssError> {
-    // Validate each regex part individually, to throw better errors
+    // Validate each regex part individually, to throw better errors, and find the capture group
+    // that each part gets in the entire regex: groups inside of the parts are counted as well.
+    let mut part_groups = vec![];
+    let mut next_group = 1;
     for (i, part) in regex_config.parts.iter().enumerate() {
-        Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
-            part_index: i,
-            regex_def: part.regex_def.clone(),
-            error: e,
-        })?;
+        let part_regex =
+            Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
+                part_index: i,
+                regex_def: part.regex_def.clone(),
+                error: e,
+            })?;
+        part_groups.push(next_group);
+        next_group += part_regex.captures_len();
     }
 
     // Construct the full regex pattern with groups for each part
     let mut entire_regex_str = String::new();
-    for (_, part) in regex_config.parts.iter().enumerate() {
-        let adjusted_regex_def = part.regex_def.replace("(", "(?:");
-        entire_regex_str += &format!("({})", adjusted_regex_def);
+    for part in regex_config.parts.iter() {
+        entire_regex_str += &format!("({})", part.regex_def);
     }
 
     // Compile the entire regex
-    // This should be impossible to fail, since we tested the seperate regex parts before.
-    let entire_regex = Regex::new(&entire_regex_str).unwrap();
+    let entire_regex = Regex::new(&entire_regex_str)?;
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
@@ -74,8 +78,7 @@ pub fn extract_substr_idxes(
     // Iterate over each part to extract the relevant indices
     for (i, part) in regex_config.parts.iter().enumerate() {
         if part.is_public || reveal_private {
-            if let Some(matched) = entire_captures.get(i + 1) {
-                // Capture group indices are 1-based
+            if let Some(matched) = entire_captures.get(part_groups[i]) {
                 public_idxes.push((matched.start(), matched.end()));
             }
         }
-- 
2.43.0


From 9a7e136b2d4028e7c1c3f63cc77aab6f2d45f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 14/28] fix: keep matches of the caret section that come back
 to its start

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 3ad40d7..921d990 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1044,8 +1044,8 @@ pub(crate) fn get_regex_and_dfa(
 
         let mut dfa_graph = convert_dfa_to_graph(dfa)?;
 
-        handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
         dfa_graph = unroll_start_state(&net_dfa_graph, dfa_graph);
+        handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
 
         let max_state_index = net_dfa_graph
             .states
-- 
2.43.0


From db1060e72c965e0b131bacfa886a2f902830bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 15/28] fix: report a missing template name as an error

---
 packages/compiler/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 2767c52..d9992b6 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -60,6 +60,16 @@ fn generate_outputs(
     num_public_parts: usize,
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
+    let circom_template_name = match (circom_file_path, circom_template_name) {
+        (Some(_), None) => {
+            return Err(CompilerError::GenericError(
+                "circom template name must be specified if circom file path is specified"
+                    .to_string(),
+            ))
+        }
+        (_, name) => name.unwrap_or_default(),
+    };
+
     if let Some(halo2_dir_path) = halo2_dir_path {
         let halo2_dir_path = PathBuf::from(halo2_dir_path);
         let allstr_file_path = halo2_dir_path.join("allstr.txt");
@@ -77,13 +87,10 @@ fn generate_outputs(
 
     if let Some(circom_file_path) = circom_file_path {
         let circom_file_path = PathBuf::from(circom_file_path);
-        let circom_template_name = circom_template_name
-            .expect("circom template name must be specified if circom file path is specified");
-
         gen_circom_template(
             regex_and_dfa,
             &circom_file_path,
-            &circom_template_name,
+            circom_template_name,
             gen_substrs,
         )?;
     }
-- 
2.43.0


From cd6c71bbbc4a9ec4c87449dd1c8ba8ee36360394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 16/28] fix: report a definition without parts as an error

---
 packages/compiler/src/regex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 921d990..fc91ace 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -98,7 +98,10 @@ fn find_caret_index(regex: &str) -> Option<usize> {
 fn process_caret_in_regex(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<Option<usize>, CompilerError> {
-    let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
+    let first_part = decomposed_regex.parts.front().ok_or_else(|| {
+        CompilerError::GenericError("The regex must have at least one part".to_string())
+    })?;
+    let caret_position = find_caret_index(&first_part.regex_def);
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
-- 
2.43.0


From 6b9bdb391cd5deebeb32ca1a26e6a6b416d8224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 17/28] fix: list the start states of a public part that comes
 first

---
 packages/compiler/src/regex.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index fc91ace..480bfa8 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -916,9 +916,17 @@ fn process_public_regex(
         return (BTreeSet::new(), (BTreeSet::new(), BTreeSet::new()));
     }
 
-    let (accepting_states, substring_starts) = collect_accepting_states(net_dfa);
+    let (accepting_states, mut substring_starts) = collect_accepting_states(net_dfa);
     let mut public_edges = collect_public_edges(graph);
-    let substring_ends = collect_substr_ends(graph);
+    let mut substring_ends = collect_substr_ends(graph);
+
+    // The part begins in its own start state, if it is the first one, and in the accepting states so
+    // far otherwise; a part that may be empty ends there as well.
+    if net_dfa.states.is_empty() {
+        substring_starts.extend(graph.states.first().map(|state| state.state_id));
+    } else if substring_ends.remove(&previous_max_state_id) {
+        substring_ends.extend(&substring_starts);
+    }
 
     update_public_edges(&mut public_edges, previous_max_state_id, &accepting_states);
 
-- 
2.43.0


From 610b2b536a6e68e76f5b45542af12b15097f98d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 18/28] fix: derive the substring boundaries of raw regexes for
 halo2 tables

---
 packages/compiler/src/halo2.rs | 47 +++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index 476fd47..3272ba1 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -1,9 +1,10 @@
 use crate::{
     errors::CompilerError,
     regex::{get_accepted_state, get_max_state},
-    structs::RegexAndDFA,
+    structs::{DFAGraph, RegexAndDFA},
 };
 use std::{
+    collections::BTreeSet,
     fs::File,
     io::{BufWriter, Write},
     path::PathBuf,
@@ -33,6 +34,41 @@ fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
     text
 }
 
+/// Finds the states in which a substring given by its transitions begins and ends.
+///
+/// # Arguments
+///
+/// * `dfa` - A reference to the DFA graph.
+/// * `defs` - The state transitions of the substring.
+///
+/// # Returns
+///
+/// A tuple of the states from which the substring is entered, i.e. the start state and those that are
+/// reached by other transitions, and the states in which it is left, i.e. the accepting state and those
+/// that have other transitions.
+fn find_substr_boundaries(
+    dfa: &DFAGraph,
+    defs: &BTreeSet<(usize, usize)>,
+) -> (BTreeSet<usize>, BTreeSet<usize>) {
+    let mut entered = BTreeSet::from([0]);
+    let mut left = BTreeSet::new();
+    for (i, state) in dfa.states.iter().enumerate() {
+        if state.state_type == "accept" {
+            left.insert(i);
+        }
+        for next_state in state.transitions.keys() {
+            if !defs.contains(&(i, *next_state)) {
+                left.insert(i);
+                entered.insert(*next_state);
+            }
+        }
+    }
+
+    let starts = defs.iter().map(|def| def.0).filter(|i| entered.contains(i));
+    let ends = defs.iter().map(|def| def.1).filter(|i| left.contains(i));
+    (starts.collect(), ends.collect())
+}
+
 /// Generates Halo2 tables from a RegexAndDFA structure.
 ///
 /// # Arguments
@@ -72,11 +108,10 @@ pub(crate) fn gen_halo2_tables(
 
     for (idx, defs) in regex_and_dfa.substrings.substring_ranges.iter().enumerate() {
         let mut writer = BufWriter::new(File::create(&substr_file_paths[idx])?);
-        let (starts, ends) = &regex_and_dfa
-            .substrings
-            .substring_boundaries
-            .as_ref()
-            .unwrap()[idx];
+        let (starts, ends) = match &regex_and_dfa.substrings.substring_boundaries {
+            Some(boundaries) => boundaries[idx].clone(),
+            None => find_substr_boundaries(&regex_and_dfa.dfa, defs),
+        };
 
         writeln!(
             writer,
-- 
2.43.0


From ba1a23e139c91127748c77014a63e4cc83d6bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 19/28] fix: honour the start anchor of raw regexes

---
 packages/compiler/src/regex.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 480bfa8..96cbe0e 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1173,7 +1173,14 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     regex_str: &str,
     substrs_defs_json: SubstringDefinitionsJson,
 ) -> Result<RegexAndDFA, CompilerError> {
-    let dfa = create_dfa_graph_from_regex(regex_str)?;
+    // A raw regex is a single private part, so that its anchors are handled in the same way.
+    let mut decomposed_regex = DecomposedRegexConfig {
+        parts: VecDeque::from([RegexPartConfig {
+            is_public: false,
+            regex_def: regex_str.to_string(),
+        }]),
+    };
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex)?;
 
     let substring_ranges = substrs_defs_json
         .transitions
@@ -1191,10 +1198,8 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     };
 
     Ok(RegexAndDFA {
-        regex_pattern: regex_str.to_string(),
-        dfa,
-        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
+        ..regex_and_dfa
     })
 }
 
-- 
2.43.0


From 0cf06666cf398830dc84c3ad1fb9b58ea2875bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 20/28] fix: reveal nothing for a public part that is always
 empty

---
 packages/compiler/src/circom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index a61df49..41dd937 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -848,6 +848,11 @@ fn write_prev_states(idx: usize, ranges: &[&(usize, usize)]) -> String {
 ///
 /// A String containing the generated Circom code for substring logic.
 fn write_is_substr(idx: usize, ranges: &[&(usize, usize)]) -> String {
+    // A part without transitions is always empty.
+    if ranges.is_empty() {
+        return format!("\t\tis_substr{idx}[i] <== 0;\n");
+    }
+
     let multi_or_inputs = ranges
         .iter()
         .enumerate()
-- 
2.43.0


From 297e4e7336673dcce10f1a5d62b906deae7249f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 21/28] fix: report a regex that matches nothing as an error

---
 packages/compiler/src/regex.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 96cbe0e..292fe13 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1016,6 +1016,25 @@ fn add_dfa(net_dfa: &DFAGraph, graph: &DFAGraph) -> DFAGraph {
     new_dfa
 }
 
+/// Checks whether some accepting state of a DFA graph is reached by a transition.
+///
+/// # Arguments
+///
+/// * `graph` - A reference to the DFAGraph.
+///
+/// # Returns
+///
+/// `false` if the graph accepts nothing, or nothing but the empty string.
+fn accepts_some_input(graph: &DFAGraph) -> bool {
+    let (_, accepting_ids) = collect_accepting_states(graph);
+    graph.states.iter().any(|state| {
+        state
+            .transitions
+            .keys()
+            .any(|next_state| accepting_ids.contains(next_state))
+    })
+}
+
 /// Constructs a RegexAndDFA structure from a decomposed regex configuration.
 ///
 /// This function processes each part of the decomposed regex, builds individual DFAs,
@@ -1054,6 +1073,12 @@ pub(crate) fn get_regex_and_dfa(
             })?;
 
         let mut dfa_graph = convert_dfa_to_graph(dfa)?;
+        if dfa_graph.states.is_empty() {
+            return Err(CompilerError::GraphError(format!(
+                "The regex \"{}\" never matches",
+                regex.regex_def
+            )));
+        }
 
         dfa_graph = unroll_start_state(&net_dfa_graph, dfa_graph);
         handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
@@ -1077,6 +1102,12 @@ pub(crate) fn get_regex_and_dfa(
         net_dfa_graph = add_dfa(&net_dfa_graph, &dfa_graph);
     }
 
+    if !accepts_some_input(&net_dfa_graph) {
+        return Err(CompilerError::GraphError(
+            "The regex matches nothing but the empty string".to_string(),
+        ));
+    }
+
     let regex_str = decomposed_regex
         .parts
         .iter()
-- 
2.43.0


From 9a63b9b54e1f400fdd848ac73178f83c87ceaa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 22/28] fix: refuse parts that are not valid regexes by
 themselves

---
 packages/compiler/src/regex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 292fe13..842fb3c 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1064,6 +1064,10 @@ pub(crate) fn get_regex_and_dfa(
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
 
+        // The part has to be valid by itself, not only between the parentheses put around it.
+        regex_automata::util::syntax::parse(&regex.regex_def)
+            .map_err(|err| CompilerError::ParseError(err.to_string()))?;
+
         let dfa = DFA::builder()
             .configure(config.clone())
             .build(&format!(r"^({})$", regex.regex_def.as_str()))
-- 
2.43.0


From 4b7680fcda9398edf2debd52bc05d54d3fc0796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 23/28] fix: keep inline flags of a part from the following
 parts when extracting

---
 packages/apis/src/extract_substrs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index b1e83f3..845c752 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -58,10 +58,15 @@ pub fn extract_substr_idxes(
         next_group += part_regex.captures_len();
     }
 
-    // Construct the full regex pattern with groups for each part
+    // Construct the full regex pattern with groups for each part. An inline flag such as `(?i)` stays
+    // on behind the end of a plain group, only a group with flags keeps it from the following parts.
     let mut entire_regex_str = String::new();
     for part in regex_config.parts.iter() {
-        entire_regex_str += &format!("({})", part.regex_def);
+        entire_regex_str += &if part.regex_def.contains("(?") {
+            format!("(?u:({}))", part.regex_def)
+        } else {
+            format!("({})", part.regex_def)
+        };
     }
 
     // Compile the entire regex
-- 
2.43.0


From f9d146a9dc80f4676658c19de321be45af31d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 24/28] fix: keep from_addr and to_addr in their header line,
 allow an address in brackets without a name

---
 packages/apis/src/decomposed_defs/from_addr.json | 4 ++--
 packages/apis/src/decomposed_defs/to_addr.json   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/apis/src/decomposed_defs/from_addr.json b/packages/apis/src/decomposed_defs/from_addr.json
index 6753257..1152228 100644
--- a/packages/apis/src/decomposed_defs/from_addr.json
+++ b/packages/apis/src/decomposed_defs/from_addr.json
@@ -6,11 +6,11 @@
     },
     {
       "is_public": false,
-      "regex_def": "([^\r\n]+<)?"
+      "regex_def": "([^\r\n]*<)?"
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
diff --git a/packages/apis/src/decomposed_defs/to_addr.json b/packages/apis/src/decomposed_defs/to_addr.json
index 394a26b..721851b 100644
--- a/packages/apis/src/decomposed_defs/to_addr.json
+++ b/packages/apis/src/decomposed_defs/to_addr.json
@@ -6,11 +6,11 @@
     },
     {
       "is_public": false,
-      "regex_def": "([^\r\n]+<)?"
+      "regex_def": "([^\r\n]*<)?"
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
-- 
2.43.0


From 7bfcdfadff7a41216a12ff18ef10bbf7d9122011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 25/28] fix: report a failure to write the end of a substring
 table

---
 packages/compiler/src/halo2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index 3272ba1..fd5d190 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -137,6 +137,8 @@ pub(crate) fn gen_halo2_tables(
         for &(cur, next) in &sorted_defs {
             writeln!(writer, "{} {}", cur, next)?;
         }
+
+        writer.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From acb70e6dc7e52f13282e53bbe77a9eb2891ba660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 26/28] fix: refuse substring transitions with states the regex
 does not have

---
 packages/compiler/src/regex.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 842fb3c..3ccc213 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1217,6 +1217,19 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     };
     let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex)?;
 
+    let max_state = get_max_state(&regex_and_dfa.dfa);
+    if let Some((from, to)) = substrs_defs_json
+        .transitions
+        .iter()
+        .flatten()
+        .find(|(from, to)| *from > max_state || *to > max_state)
+    {
+        return Err(CompilerError::GenericError(format!(
+            "the substring transition ({}, {}) names a state beyond the last state {}",
+            from, to, max_state
+        )));
+    }
+
     let substring_ranges = substrs_defs_json
         .transitions
         .into_iter()
-- 
2.43.0


From 76bb482056e990b1069a1d57152a242f3034ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 27/28] fix: refuse anchors and assertions the circuit would
 ignore

An anchor in the middle of a part, a caret in a later part, a line anchor or a
byte-oriented word boundary was dropped when the part was compiled by itself, so
that for instance "(a$|b)" or the parts "a", "^b" accepted messages the regex
does not match.
---
 packages/compiler/src/regex.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 3ccc213..8ded167 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -86,6 +86,16 @@ fn find_caret_index(regex: &str) -> Option<usize> {
     }
 }
 
+/// Checks whether a regex is valid and contains no anchor or other look-around assertion.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+fn is_free_of_anchors(regex: &str) -> bool {
+    regex_automata::util::syntax::parse(regex)
+        .is_ok_and(|hir| hir.properties().look_set().is_empty())
+}
+
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
 ///
 /// # Arguments
@@ -1068,6 +1078,19 @@ pub(crate) fn get_regex_and_dfa(
         regex_automata::util::syntax::parse(&regex.regex_def)
             .map_err(|err| CompilerError::ParseError(err.to_string()))?;
 
+        let is_caret = i == 0 && caret_position.is_some();
+        let without_end_anchor = if end_anchor {
+            &regex.regex_def[..regex.regex_def.len() - 1]
+        } else {
+            regex.regex_def.as_str()
+        };
+        if !is_caret && !is_free_of_anchors(without_end_anchor) {
+            return Err(CompilerError::GenericError(
+                "Invalid regex, ^ can only be at the beginning and $ at the end of the regex, and other assertions are not supported"
+                    .to_string(),
+            ));
+        }
+
         let dfa = DFA::builder()
             .configure(config.clone())
             .build(&format!(r"^({})$", regex.regex_def.as_str()))
-- 
2.43.0


From 1ed4910983501d58c75ba7e493183ec4827eabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 28/28] fix: refuse a caret that is not in one of the
 documented formats

The text up to the caret was compiled as the group with the anchor whatever it
was: "a|(^|b)c" meant "(a|^|b)c", "a(|^)" accepted the empty message and the
flag of "(?i)(^|b)a" was lost behind the group.
---
 packages/compiler/src/regex.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 8ded167..9521fd3 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -96,6 +96,33 @@ fn is_free_of_anchors(regex: &str) -> bool {
         .is_ok_and(|hir| hir.properties().look_set().is_empty())
 }
 
+/// Checks whether the text up to a caret (^) is an anchor the circuit can express: the caret alone, or a
+/// group with the caret as one of its alternatives and no other anchor.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern up to the caret or the end of its group.
+fn is_begin_anchor(regex: &str) -> bool {
+    if regex == "^" {
+        return true;
+    }
+    let Some(group) = regex
+        .strip_prefix('(')
+        .and_then(|group| group.strip_suffix(')'))
+    else {
+        return false;
+    };
+    let group = group.strip_prefix("?:").unwrap_or(group);
+
+    if let Some(rest) = group.strip_suffix("|^").or(group.strip_prefix("^|")) {
+        is_free_of_anchors(rest)
+    } else if let Some((before, after)) = group.split_once("|^|") {
+        is_free_of_anchors(before) && is_free_of_anchors(after)
+    } else {
+        false
+    }
+}
+
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
 ///
 /// # Arguments
@@ -115,6 +142,12 @@ fn process_caret_in_regex(
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
+        if !is_begin_anchor(&caret_regex) {
+            return Err(CompilerError::GenericError(
+                "Invalid regex, ^ can only be at the beginning of the regex or in the format (<Any Characters>|^)"
+                    .to_string(),
+            ));
+        }
         decomposed_regex.parts.push_front(RegexPartConfig {
             is_public: false,
             regex_def: caret_regex,
-- 
2.43.0

