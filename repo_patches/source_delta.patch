From 87da5352bfb211a9c764e0fe427a3fb5ed9fecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 01/28] fix: count anchored n-grams over the documented [i-W,
 i+W] window

The window held the anchor itself, so only W-1 words to its left took part;
a second anchor replaced the pending run, the right context was dropped at the
cutoff, and content without an anchor was counted.
---
 src/ngrams.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/ngrams.rs b/src/ngrams.rs
index 2f35338..e372aa8 100644
--- a/src/ngrams.rs
+++ b/src/ngrams.rs
@@ -99,8 +99,9 @@ impl Ngrams {
   /// flexibly looking for no-justification cutoffs, where a continuous word sequence is recorded
   /// for ngram counts
   pub fn add_anchored_content(&mut self, content: &str) {
-    // content to add through the ngram builder
+    // the words justified so far, in one continuous sequence
     let mut continuous_buffer = Vec::new();
+    // the last words that are not justified yet, but would be if an anchor follows
     let mut context_window = CircularQueue::with_capacity(self.window_size);
     let mut words_since_anchor_seen = 0;
     let mut side = AnchorSide::Left;
@@ -109,29 +110,34 @@ impl Ngrams {
       .split_ascii_whitespace()
       .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
     {
-      // add the current word, potentially erasing the oldest word that falls outside the window
-      context_window.push(w);
       let anchor = self.anchor.as_ref().unwrap();
       if w == anchor {
-        // we've hit an anchor word, the current content of the window should be analyzed
+        // we've hit an anchor word, which justifies the current content of the window
         words_since_anchor_seen = 0;
         side = AnchorSide::Right;
-        // analyze whatever is in the buffer, and empty it
-        continuous_buffer = context_window.asc_iter().copied().collect();
+        continuous_buffer.extend(context_window.asc_iter().copied());
+        continuous_buffer.push(w);
         context_window.clear();
       } else {
         words_since_anchor_seen += 1;
-        if words_since_anchor_seen == self.window_size && side == AnchorSide::Right {
-          // it has been too long since we saw an anchor, add to the current buffer, record and
-          // reset
-          self.record_words(std::mem::take(&mut continuous_buffer));
-          context_window.clear();
+        if words_since_anchor_seen > self.window_size {
           side = AnchorSide::Left;
         }
+        if side == AnchorSide::Right {
+          // still in the window to the right of an anchor
+          continuous_buffer.push(w);
+        } else {
+          if context_window.is_full() {
+            // the oldest word in the window can no longer be justified, which ends the
+            // current sequence: record and reset
+            self.record_words(std::mem::take(&mut continuous_buffer));
+          }
+          // add the current word, potentially erasing the oldest word that falls outside the window
+          context_window.push(w);
+        }
       }
     }
-    // Any remaining content should be added
-    continuous_buffer.extend(context_window.asc_iter().copied());
+    // Any remaining justified content should be added
     self.record_words(std::mem::take(&mut continuous_buffer));
   }
 
-- 
2.43.0


From a76c229c6d053a3d43025c0be311627c26f06ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 02/28] fix: DNMRange::trim counts characters, as range offsets
 do, not bytes

---
 src/dnm/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index cbbe6a3..461afc6 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -47,14 +47,14 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
     for c in range_text.chars() {
       if c.is_whitespace() {
-        trimmed_start += c.len_utf8();
+        trimmed_start += 1;
       } else {
         break;
       }
     }
     for c in range_text.chars().rev() {
       if c.is_whitespace() {
-        trimmed_end -= c.len_utf8();
+        trimmed_end -= 1;
       } else {
         break;
       }
-- 
2.43.0


From 5c6df7717b9944ced04da6931eaf5ea370190062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 03/28] fix: word tokenizers count characters, as range offsets
 do, not bytes

---
 src/tokenizer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3ab0010..9bd763b 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -285,7 +285,7 @@ impl Tokenizer {
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
     while let Some(c) = text_iterator.next() {
-      end += c.len_utf8();
+      end += 1;
       if !c.is_alphanumeric() {
         if c == '\'' || c == '’' {
           if let Some(peeked) = text_iterator.peek() {
@@ -294,8 +294,8 @@ impl Tokenizer {
             }
           }
         }
-        if start < end - c.len_utf8() {
-          result.push(sentence_range.get_subrange(start, end - c.len_utf8()));
+        if start < end - 1 {
+          result.push(sentence_range.get_subrange(start, end - 1));
         }
         start = end;
       }
@@ -309,8 +309,8 @@ impl Tokenizer {
   /// returns the words and punctuation of a sentence, using simple heuristics
   #[allow(unused_assignments)]
   pub fn words_and_punct<'b>(&'b self, range: &DNMRange<'b>) -> Vec<DNMRange> {
-    let range_text = range.get_plaintext();
-    let text_iterator = range_text.chars();
+    let range_text: Vec<char> = range.get_plaintext().chars().collect();
+    let text_iterator = range_text.iter().copied();
     let mut start = 0usize;
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
@@ -319,7 +319,7 @@ impl Tokenizer {
       () => {
         if start < end {
           if apostrophe_flag {
-            match &range_text[start + 1..end] {
+            match range_text[start + 1..end].iter().collect::<String>().as_str() {
               // Handle closed set of apostrophe cases, detach from all other cases
               "t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},
               _ => {
@@ -338,18 +338,18 @@ impl Tokenizer {
     for c in text_iterator {
       // letters, numbers can accumulate
       if c.is_alphanumeric() {
-        end += c.len_utf8();
+        end += 1;
       } else {
         // everything else completes a word and starts a new one
         complete_word!();
         // except that whitepace can be skipped over
         if c.is_whitespace() {
-          end += c.len_utf8();
+          end += 1;
           start = end;
         }
         // non-alphanum chars are standalone words EXCEPT when connectors such as apostrophes
         else {
-          end += c.len_utf8();
+          end += 1;
           if c == '\'' || c == '’' {
             apostrophe_flag = true;
           } else {
-- 
2.43.0


From 858de323387a9e5e1a515cf9d2eb0d0ad94cd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:14 +0000
Subject: [PATCH 04/28] fix: sentence tokenizer counts characters, as range
 offsets do, not bytes

---
 src/tokenizer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 9bd763b..76b0e01 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -63,7 +63,7 @@ impl Tokenizer {
     };
     // Don't consider single letters followed by a punctuation sign an end of a
     // sentence, Also "a.m." and "p.m." shouldn't get split
-    ((lw_word.len() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
+    ((lw_word.chars().count() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
   }
 
   // TODO: Reduce complexity, this tokenization pass is terribly overengineered
@@ -80,7 +80,7 @@ impl Tokenizer {
 
     while let Some(sentence_char) = text_iterator.next() {
       // Bookkeep the end position
-      end += sentence_char.len_utf8();
+      end += 1;
 
       match sentence_char {
         '.' | ':' => {
@@ -89,8 +89,8 @@ impl Tokenizer {
           while text_iterator.peek().unwrap_or(&'.').is_whitespace()
             || text_iterator.peek() == Some(&'\'')
           {
-            let space_char = text_iterator.next().unwrap();
-            end += space_char.len_utf8();
+            text_iterator.next();
+            end += 1;
           }
           if text_iterator.peek().is_none() {
             break;
@@ -205,8 +205,8 @@ impl Tokenizer {
             // second newline
             // Get next non-space character
             while text_iterator.peek().unwrap_or(&'.').is_whitespace() {
-              let space_char = text_iterator.next().unwrap();
-              end += space_char.len_utf8();
+              text_iterator.next();
+              end += 1;
             }
             if text_iterator.peek().is_none() {
               break;
@@ -248,12 +248,12 @@ impl Tokenizer {
               sentences.push(
                 DNMRange {
                   start,
-                  end: end - other_char.len_utf8(),
+                  end: end - 1,
                   dnm,
                 }
                 .trim(),
               );
-              start = end - other_char.len_utf8();
+              start = end - 1;
             }
           }
           // Increment the left window
@@ -384,7 +384,7 @@ fn next_word_with_length(text_iterator: &mut Peekable<Chars>) -> (String, usize)
   while next_word_length < 20 && text_iterator.peek().unwrap_or(&'.').is_alphabetic() {
     let word_char = text_iterator.next().unwrap();
     next_word.push(word_char);
-    next_word_length += word_char.len_utf8();
+    next_word_length += 1;
   }
 
   let next_word: String = next_word.into_iter().collect();
-- 
2.43.0


From 13f36310c4ad519304e9d58a98a9276f25488205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 05/28] fix: sentence tokenizer keeps the final sentence
 whatever its last characters are

---
 src/tokenizer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 76b0e01..f0d463d 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -266,9 +266,15 @@ impl Tokenizer {
     }
 
     end = cmp::min(end, text.chars().count());
-    let last_left_window: String = left_window.into_iter().collect();
-    if last_left_window.find(char::is_alphabetic).is_some() {
-      sentences.push(DNMRange { start, end, dnm }.trim());
+    // The remaining content is a sentence if it contains any word. The left window can't tell, it
+    // covers only the last few characters and was reset if a consumed word started the sentence.
+    let last_range = DNMRange { start, end, dnm }.trim();
+    if last_range
+      .get_plaintext()
+      .find(char::is_alphabetic)
+      .is_some()
+    {
+      sentences.push(last_range);
     }
 
     // Filter out edge cases that return empty ranges
-- 
2.43.0


From 8c6d9e7206fd4edd601691ff509e3a85d7012067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 06/28] fix: apply class rules in document order, not in random
 set order

---
 src/dnm/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index b21dcdb..cc575f3 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -316,8 +316,9 @@ impl DNM {
       // recurse_node_create
       let mut rules = Vec::new();
       // First class rules, as more specific
-      for classname in node.get_class_names() {
-        let class_rule = self.parameters.special_tag_class_options.get(&classname);
+      // (in document order, so that the outcome is reproducible if several classes have rules)
+      for classname in node.get_property("class").unwrap_or_default().split_whitespace() {
+        let class_rule = self.parameters.special_tag_class_options.get(classname);
         rules.push(class_rule);
       }
       // Then element rules as more general
-- 
2.43.0


From d97162fe4575676913550adb54602e3d973132da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:12 +0000
Subject: [PATCH 07/28] fix: keep the back mapping aligned when lowercasing
 changes the number of characters

---
 src/dnm/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index cc575f3..c53887a 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -223,7 +223,16 @@ impl DNM {
     self.normalize_unicode(&mut string, &mut offsets);
     self.stem_words(&mut string /* , &mut offsets */);
     if self.parameters.convert_to_lowercase {
-      string = string.to_lowercase();
+      let lowercase = string.to_lowercase();
+      if self.parameters.support_back_mapping {
+        // the lowercase form of a character can have several characters
+        offsets = string
+          .chars()
+          .zip(offsets)
+          .flat_map(|(c, offset)| c.to_lowercase().map(move |_| offset))
+          .collect();
+      }
+      string = lowercase;
     }
     self.normalize_whitespace(&mut string, &mut offsets);
 
-- 
2.43.0


From a9a3a48140788f840d97b252a064973ecc864e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 08/28] fix: serialize the end of a range from its last
 character

The entry of the exclusive end does not exist at the end of the text, and
belongs to a different node if the range stops at a node boundary.
---
 src/dnm/range.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 461afc6..101d4f7 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -141,7 +141,15 @@ impl<'dnmrange> DNMRange<'dnmrange> {
       panic!("DNMRange::serialize: DNM did not generate the back_map");
     }
     let (node1, offset1) = self.dnm.back_map[self.start];
-    let (node2, offset2) = self.dnm.back_map[self.end];
+    let (node2, offset2) = if self.is_empty() {
+      (node1, offset1)
+    } else {
+      // the end is exclusive, i.e. the position after the last character of the range
+      match self.dnm.back_map[self.end - 1] {
+        (node, offset) if offset < 0 => (node, offset),
+        (node, offset) => (node, offset + 1),
+      }
+    };
     DNMRange::create_arange(
       &DNMRange::serialize_offset(self.dnm.root_node, node1, offset1, false),
       &DNMRange::serialize_offset(self.dnm.root_node, node2, offset2, true),
-- 
2.43.0


From d6aece56493a9b2db0c60985fbc7d55907fcf52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 09/28] fix: the end of an element is the addressable node that
 follows it

Elements with an id, and text nodes numbered by name, were serialized as ends
without moving past the element; comments cannot be found by name.
---
 src/dnm/range.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 101d4f7..d7054f8 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -175,6 +175,11 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
   /// serializes a node into an xpath expression
   pub fn serialize_node(root_node: RoNode, node: RoNode, is_end: bool) -> String {
+    if is_end && !node.is_text_node() {
+      // the end of a node is the beginning of whatever follows it
+      let next = get_next_sibling(root_node, node).unwrap_or(node);
+      return DNMRange::serialize_node(root_node, next, false);
+    }
     match node.get_property("id") {
       None => {
         if node == root_node {
@@ -189,30 +194,23 @@ impl<'dnmrange> DNMRange<'dnmrange> {
             get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap()
           )
         } else {
-          let act = if is_end {
-            get_next_sibling(root_node, node).unwrap_or(node)
-          } else {
-            node
-          };
-          let parent = act.get_parent().unwrap();
+          let parent = node.get_parent().unwrap();
           let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
           format!(
             "{}/{}[{}]",
             base,
-            if act.is_text_node() {
-              "text()".to_string()
-            } else if let Some(ns) = act.get_namespace() {
+            if let Some(ns) = node.get_namespace() {
               let prefix = ns.get_prefix();
               if prefix.is_empty() {
                 // default namespace without prefix
-                format!("*[local-name() = '{}']", act.get_name())
+                format!("*[local-name() = '{}']", node.get_name())
               } else {
-                format!("{}:{}", prefix, act.get_name())
+                format!("{}:{}", prefix, node.get_name())
               }
             } else {
-              act.get_name()
+              node.get_name()
             },
-            get_node_number(parent, act, &|n: RoNode| n.get_name() == act.get_name()).unwrap()
+            get_node_number(parent, node, &|n: RoNode| n.get_name() == node.get_name()).unwrap()
           )
         }
       },
@@ -310,6 +308,8 @@ fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
         get_next_sibling(root_node, node.get_parent().unwrap())
       }
     },
+    // comments and processing instructions can't be addressed
+    Some(n) if !n.is_text_node() && !n.is_element_node() => get_next_sibling(root_node, n),
     Some(n) => Some(n),
   }
 }
-- 
2.43.0


From e0b86e78cbce9726706f770f9dc4590b8690569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 10/28] fix: number elements in XPointers as XPath counts them

---
 src/dnm/range.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index d7054f8..6002b7d 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -210,7 +210,16 @@ impl<'dnmrange> DNMRange<'dnmrange> {
             } else {
               node.get_name()
             },
-            get_node_number(parent, node, &|n: RoNode| n.get_name() == node.get_name()).unwrap()
+            get_node_number(parent, node, &|n: RoNode| {
+              // count what the XPath step selects
+              n.is_element_node()
+                && n.get_name() == node.get_name()
+                && match node.get_namespace() {
+                  Some(ref ns) if ns.get_prefix().is_empty() => true,
+                  ns => n.get_namespace().map(|n| n.get_href()) == ns.map(|n| n.get_href()),
+                }
+            })
+            .unwrap()
           )
         }
       },
-- 
2.43.0


From 551b40e0766baf2f82e2124c2aeb0d2c1631d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 11/28] fix: resolve XPointers whose path matches several nodes
 to the serialized one

---
 src/dnm/range.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 6002b7d..1df1431 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -266,9 +266,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
         .find(',')
         .unwrap_or_else(|| panic!("DNM::deserialize_part: Malformed string: \"{string}\""));
       let node_str = &string[13..comma];
-      let node_set = xpath_context.evaluate(node_str).unwrap();
-      assert_eq!(node_set.get_number_of_nodes(), 1);
-      let node = node_set.get_readonly_nodes_as_vec()[0];
+      let node = find_serialized_node(node_str, dnm, xpath_context);
       match dnm.get_range_of_node(node) {
         Ok(range) => {
           let mut pos = range.start;
@@ -282,11 +280,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
       }
     } else {
       let node_str = string;
-      let node_set = xpath_context
-        .evaluate(node_str)
-        .unwrap_or_else(|_| panic!("DNMRange::deserialize: Malformed XPath: '{}'", &node_str));
-      assert_eq!(node_set.get_number_of_nodes(), 1);
-      let node = node_set.get_readonly_nodes_as_vec()[0];
+      let node = find_serialized_node(node_str, dnm, xpath_context);
       get_position_of_lowest_parent(node, dnm)
     }
   }
@@ -296,6 +290,24 @@ impl<'dnmrange> DNMRange<'dnmrange> {
  * (DE)?SERIALIZATION HELPER FUNCTIONS
  */
 
+/// Helper function: Gets the node a serialized XPath stands for.
+/// The path of a child of the root node starts with `//`, i.e. it can select further nodes elsewhere
+/// in the document, but only one of them has this path as its serialization.
+fn find_serialized_node(node_str: &str, dnm: &DNM, xpath_context: &Context) -> RoNode {
+  let mut nodes = xpath_context
+    .evaluate(node_str)
+    .unwrap_or_else(|_| panic!("DNMRange::deserialize: Malformed XPath: '{}'", &node_str))
+    .get_readonly_nodes_as_vec();
+  if nodes.len() > 1 {
+    nodes.retain(|&node| {
+      std::iter::successors(Some(node), |n| n.get_parent()).any(|n| n == dnm.root_node)
+        && DNMRange::serialize_node(dnm.root_node, node, false) == node_str
+    });
+  }
+  assert_eq!(nodes.len(), 1);
+  nodes[0]
+}
+
 /// Helper function: Gets the start offset of the lowest parent recorded in the
 /// DNM
 fn get_position_of_lowest_parent(node: RoNode, dnm: &DNM) -> usize {
-- 
2.43.0


From be4cad29a2264942409d8b0f668e66149388392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 12/28] fix: word_not matches the words its pattern does not
 match

---
 src/patterns/matching.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 22e9535..bcd58f4 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -445,9 +445,12 @@ fn match_word<'t>(
     WordPattern::WordNot(ref p) => {
       let m = match_word(pf, p, word, range);
       if m.matched {
-        m
-      } else {
         InternalWordMatch::no_match()
+      } else {
+        InternalWordMatch {
+          _matches: Vec::new(),
+          matched: true,
+        }
       }
     },
     WordPattern::Marked(ref p, ref marker) => {
-- 
2.43.0


From 89e0bd773333e4e9d3bd9c675f18aa81148cd381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 13/28] fix: math_descendant considers all descendants, not
 only the children

---
 src/patterns/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index bcd58f4..e86b5d8 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -596,7 +596,7 @@ fn match_math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> Interna
             matched: true,
           };
         }
-        let m = match_math(pf, pattern, child);
+        let m = match_math(pf, rule, child);
         if m.matched {
           matched = true;
           matches.extend_from_slice(&m._matches[..]);
-- 
2.43.0


From a507067bc462369df62c3db003ceab5298c6ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 14/28] fix: marking an empty sequence match does not panic

---
 src/patterns/matching.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index e86b5d8..1db34da 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -310,7 +310,10 @@ fn match_seq<'t>(
     },
     SequencePattern::Marked(ref pattern, ref marker) => {
       let m = match_seq(pf, pattern, sentence, phrase_tree, range, pos);
-      if m.matched {
+      if m.matched && m.end == pos {
+        // no words matched, so there is nothing to mark
+        m
+      } else if m.matched {
         InternalSeqMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-- 
2.43.0


From e6bee04198d0c19582a6890a70b1684848be16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 15/28] fix: pattern matching converts senna's byte offsets to
 character offsets

---
 src/patterns/matching.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 1db34da..f2036b9 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -318,7 +318,7 @@ fn match_seq<'t>(
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange(
+              range: range.get_subrange_from_byte_offsets(
                 sentence.get_words()[pos].get_offset_start(),
                 sentence.get_words()[m.end - 1].get_offset_end(),
               ),
@@ -413,7 +413,9 @@ fn match_word<'t>(
       }
     },
     WordPattern::MathWord(ref math_pattern) => {
-      let node = range.dnm.back_map[range.start + word.get_offset_start()].0;
+      let node = range
+        .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end())
+        .get_node();
       if node.get_name() != "math" {
         return InternalWordMatch::no_match();
       }
@@ -462,7 +464,8 @@ fn match_word<'t>(
         InternalWordMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-              range: range.get_subrange(word.get_offset_start(), word.get_offset_end()),
+              range: range
+                .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end()),
               marker: marker.clone(),
             }),
             sub_matches: m._matches,
-- 
2.43.0


From c950184df842367a4e21fdd8e77b602922ca4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 16/28] fix: an unparseable file does not end the corpus walk

---
 src/data.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 36df7a2..7c9692d 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -143,14 +143,11 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         if selected {
           let path = entry.path().to_str().unwrap_or("").to_owned();
           let doc_result = Document::new(path, self.corpus);
-          return match doc_result {
-            Ok(doc) => Some(doc),
-            // TODO: Currently encountering an unparseable file will terminate the entire corpus
-            // walk, which is too severe.
-            // A more viable strategy would be to 1) retry creating the document once and 2)
-            // print an error message and continue the walk
-            _ => None,
-          };
+          match doc_result {
+            Ok(doc) => return Some(doc),
+            // an unparseable file must not terminate the entire corpus walk
+            Err(e) => println!("-- Skipping unparseable document {:?}: {e:?}", entry.path()),
+          }
         }
       } else {
         println!("-- Error while walking for entry: {next_entry:?}")
-- 
2.43.0


From 5c3fa2bc443d5da78dd5ea57aa0ed15a3c17421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 17/28] fix: an unparseable file does not abort the parallel
 corpus walk

---
 src/parallel_data/corpus.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index 17559af..01f7532 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -78,7 +78,13 @@ impl Corpus {
       .par_bridge()
       .map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path, self) {
+          Ok(document) => document,
+          Err(e) => {
+            println!("-- Skipping unparseable document: {e:?}");
+            return HashMap::new();
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
@@ -126,7 +132,13 @@ impl Corpus {
       .par_bridge()
       .map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path, self) {
+          Ok(document) => document,
+          Err(e) => {
+            println!("-- Skipping unparseable document: {e:?}");
+            return (HashMap::new(), HashMap::new());
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
-- 
2.43.0


From f05eb28d46ead0fe6c0a7aea2cc8a0534006f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 18/28] fix: path_to_words returns no words for an unreadable
 document

---
 src/util/path_helpers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/path_helpers.rs b/src/util/path_helpers.rs
index a68dac5..0112b04 100644
--- a/src/util/path_helpers.rs
+++ b/src/util/path_helpers.rs
@@ -9,7 +9,11 @@ use crate::util::data_helpers::LexicalOptions;
 /// Given a path to a document, return a word-tokenized string of all of its paragraphs
 pub fn path_to_words(path: String) -> String {
   let corpus = Corpus::default();
-  let mut document = Document::new(path, &corpus).unwrap();
+  let mut document = match Document::new(path, &corpus) {
+    Ok(document) => document,
+    // callers across the C interface can't handle a panic
+    Err(_) => return String::new(),
+  };
   let mut context = Context::new(&document.dom).unwrap();
 
   // We will tokenize each logical paragraph, which are the textual logical units
-- 
2.43.0


From 43c213a045fce6f5da4cde347db0ac7f529534c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 19/28] fix: removing numbering or a plural s from a heading
 does not fuse its neighbours

---
 src/util/data_helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 854ffda..9823458 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -24,7 +24,7 @@ lazy_static! {
   static ref LEAD_FIXED_PHRASE: Regex = Regex::new(r"^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\s").unwrap();
   static ref TRAILING_FIXED_WORD: Regex = Regex::new(r"\s(see|of|for|of the paper)$").unwrap();
   static ref COMMON_PLURALS : Regex = Regex::new(
-    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(?:\s|$)"
+    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(\s|$)"
   ).unwrap();
 }
 
@@ -128,13 +128,13 @@ pub fn heading_from_node_aux(
 /// e.g. "definition xiii a"->"definition"
 #[allow(clippy::cognitive_complexity)]
 pub fn normalize_heading_title(heading: &str) -> String {
-  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), "");
+  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), " ");
   let simple_heading = IS_NUM.replace_all(simple_heading.trim(), " ");
-  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), "");
+  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), " ");
   let simple_heading = SINGLE_TRAIL_LETTER.replace_all(simple_heading.trim(), "");
   let simple_heading = LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "");
   let simple_heading = TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "");
-  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1");
+  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
   if simple_heading.is_empty() {
     // quick exit if empty
     String::new()
-- 
2.43.0


From 850343c8aefdc3de0c1a78ffae278177717a632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 20/28] fix: a math node whose annotations are all empty has no
 lexemes

---
 src/dnm/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnm/node.rs b/src/dnm/node.rs
index 32c0714..c3a9e73 100644
--- a/src/dnm/node.rs
+++ b/src/dnm/node.rs
@@ -61,7 +61,7 @@ pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
     })
     .collect::<Vec<String>>()
     .join(" ");
-  if !lexemes.is_empty() {
+  if !lexemes.trim().is_empty() {
     lexemes
   } else {
     // Fallback if no lexemes - a generic substitution
-- 
2.43.0


From e726ed062a4ec987e763dbae949508906e824788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 21/28] fix: an xml:id is not an id attribute that an XPointer
 could refer to

---
 src/dnm/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 1df1431..9c6c038 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -180,7 +180,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
       let next = get_next_sibling(root_node, node).unwrap_or(node);
       return DNMRange::serialize_node(root_node, next, false);
     }
-    match node.get_property("id") {
+    match node.get_property_no_ns("id") {
       None => {
         if node == root_node {
           return "/".to_string();
-- 
2.43.0


From 42d5508cb0c4b247d1a54449ddb21b4851b0c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 22/28] fix: reject pattern files where word_any has content

---
 src/patterns/rules.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/patterns/rules.rs b/src/patterns/rules.rs
index 78c3875..3fc5cd1 100644
--- a/src/patterns/rules.rs
+++ b/src/patterns/rules.rs
@@ -607,7 +607,10 @@ impl WordPattern {
         get_only_child(node)?,
         pctx,
       )?)),
-      "word_any" => Ok(WordPattern::AnyWord),
+      "word_any" => {
+        assert_no_child(node)?;
+        Ok(WordPattern::AnyWord)
+      },
       "word_not" => Ok(WordPattern::WordNot(Box::new(WordPattern::load_from_node(
         get_only_child(node)?,
         pctx,
-- 
2.43.0


From dcbb813bdd8d09f3ff8ef7d4855784b510148c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 23/28] fix: reject phrase patterns with several match_type
 nodes

---
 src/patterns/rules.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/patterns/rules.rs b/src/patterns/rules.rs
index 3fc5cd1..5cca34f 100644
--- a/src/patterns/rules.rs
+++ b/src/patterns/rules.rs
@@ -512,14 +512,19 @@ impl SequencePattern {
       },
       "phrase" => {
         let tag_str: &str = &require_node_property(node, "tag")?;
-        let mut match_type: PhraseMatchType = PhraseMatchType::Longest; // TODO: Is this a good default?
+        let mut match_type_opt: Option<PhraseMatchType> = None;
         let mut start: Option<(Box<SequencePattern>, SequenceContainment)> = None;
         let mut end: Option<Box<SequencePattern>> = None;
 
         for cur in get_non_text_children(node)?.into_iter() {
           match cur.get_name().as_ref() {
             "match_type" => {
-              match_type = PhraseMatchType::from_str(&get_simple_node_content(cur, true)?)?;
+              if match_type_opt.is_some() {
+                return Err("Cannot have multiple match_type nodes in a phrase node".to_string());
+              }
+              match_type_opt = Some(PhraseMatchType::from_str(&get_simple_node_content(
+                cur, true,
+              )?)?);
             },
             "starts_with_seq" => {
               if start.is_some() {
@@ -552,7 +557,7 @@ impl SequencePattern {
         }
         Ok(SequencePattern::Phrase(
           *tag_opt.unwrap(),
-          match_type,
+          match_type_opt.unwrap_or(PhraseMatchType::Longest), // TODO: Is this a good default?
           start,
           end,
         ))
-- 
2.43.0


From 4f56161676b63748402e5e2483fece15cc987bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 24/28] fix: reject pattern files whose root is not
 pattern_file

---
 src/patterns/rules.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patterns/rules.rs b/src/patterns/rules.rs
index 5cca34f..2dfa3b0 100644
--- a/src/patterns/rules.rs
+++ b/src/patterns/rules.rs
@@ -1063,6 +1063,12 @@ impl PatternFile {
       Some(root) => root,
       None => return Err("empty document".to_string()),
     };
+    if root_node.get_name() != "pattern_file" {
+      return Err(format!(
+        "expected pattern_file, found \"{}\"",
+        root_node.get_name()
+      ));
+    }
     let mut meta_opt: Option<MetaDescription> = None;
     let mut pctx = PCtx::new();
 
-- 
2.43.0


From 66480dbbcf085e5a169b4daf3b3d66fb65324a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 25/28] hook: patterns as data behind feature vp_hooks

---
 src/patterns/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patterns/mod.rs b/src/patterns/mod.rs
index 3edac2f..8a018e6 100644
--- a/src/patterns/mod.rs
+++ b/src/patterns/mod.rs
@@ -6,3 +6,9 @@ mod utils;
 
 pub use self::matching::{match_sentence, Match};
 pub use self::rules::{MarkerEnum, MathMarker, PatternFile, PatternMarker, TextMarker};
+
+/// the patterns as data, for the verification harness
+#[cfg(feature = "vp_hooks")]
+pub mod hooks {
+  pub use super::rules::*;
+}
-- 
2.43.0


From 26b06836900a5ef19f2dffcbe726a717757f8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 26/28] fix: never select directories as corpus documents

---
 src/data.rs                 | 3 ++-
 src/parallel_data/corpus.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 7c9692d..f9ee30c 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -140,7 +140,8 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         } else {
           file_name.ends_with(".html") || file_name.ends_with(".xhtml")
         };
-        if selected {
+        // a directory is no document, whatever its name
+        if selected && entry.path().is_file() {
           let path = entry.path().to_str().unwrap_or("").to_owned();
           let doc_result = Document::new(path, self.corpus);
           match doc_result {
diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index 01f7532..3fe5d7f 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -64,7 +64,8 @@ impl Corpus {
           } else {
             file_name.ends_with(".html") || file_name.ends_with(".xhtml")
           };
-          if selected {
+          // a directory is no document, whatever its name
+          if selected && entry.path().is_file() {
             let path = entry.path().to_str().unwrap_or("").to_owned();
             if !path.is_empty() {
               return Some(path);
@@ -118,7 +119,8 @@ impl Corpus {
           } else {
             file_name.ends_with(".html") || file_name.ends_with(".xhtml")
           };
-          if selected {
+          // a directory is no document, whatever its name
+          if selected && entry.path().is_file() {
             let path = entry.path().to_str().unwrap_or("").to_owned();
             if !path.is_empty() {
               return Some(path);
-- 
2.43.0


From 9d4a2ef0114e5ae0bef79fd9c0cc8eb439adcfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:08 +0000
Subject: [PATCH 27/28] fix: documents without a root element have no sentences
 and no nodes

---
 src/data.rs                   |  6 +++++-
 src/parallel_data/document.rs | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index f9ee30c..dde2fb0 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -263,7 +263,11 @@ impl<'d> Document<'d> {
       }
     }
     let tokenizer = &self.corpus.tokenizer;
-    let sentences = tokenizer.sentences(self.dnm.as_ref().unwrap());
+    // a document without a root element has no sentences
+    let sentences = match self.dnm {
+      Some(ref dnm) => tokenizer.sentences(dnm),
+      None => Vec::new(),
+    };
     SentenceIterator {
       walker: sentences.into_iter(),
       document: self,
diff --git a/src/parallel_data/document.rs b/src/parallel_data/document.rs
index c742623..f82a837 100644
--- a/src/parallel_data/document.rs
+++ b/src/parallel_data/document.rs
@@ -144,7 +144,11 @@ impl<'d> Document<'d> {
       }
     }
     let tokenizer = &self.corpus.tokenizer;
-    let sentences = tokenizer.sentences(self.dnm.as_ref().unwrap());
+    // a document without a root element has no sentences
+    let sentences = match self.dnm {
+      Some(ref dnm) => tokenizer.sentences(dnm),
+      None => Vec::new(),
+    };
     DNMRangeIterator {
       walker: sentences.into_iter(),
       document: self,
@@ -211,8 +215,12 @@ impl<'d> Document<'d> {
   /// descent)
   pub fn filter_iter(&self, filter: &dyn Fn(&RoNode) -> bool) -> RoNodeIterator {
     // TODO: Can this be lazy? Eager for now...
+    let found = match self.dom.get_root_readonly() {
+      Some(root) => Document::dfs_filter_nodes(root, filter),
+      None => Vec::new(),
+    };
     RoNodeIterator {
-      walker: Document::dfs_filter_nodes(self.dom.get_root_readonly().unwrap(), filter).into_iter(),
+      walker: found.into_iter(),
       document: self,
     }
   }
-- 
2.43.0


From 8d7558895d838c4a5ae4a0538ca6e1d66779bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 28/28] fix: a byte interval without bytes is an empty range

---
 src/dnm/range.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 9c6c038..2416e52 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -89,12 +89,21 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     rel_start: usize,
     rel_end: usize,
   ) -> DNMRange<'dnmrange> {
+    let start = self.byte_offset_bisection(
+      self.dnm.byte_offsets[self.start] + rel_start,
+      self.start,
+      self.end,
+    );
+    // there is no last byte to look up in an empty interval
+    if rel_end <= rel_start {
+      return DNMRange {
+        start,
+        end: start,
+        dnm: self.dnm,
+      };
+    }
     DNMRange {
-      start: self.byte_offset_bisection(
-        self.dnm.byte_offsets[self.start] + rel_start,
-        self.start,
-        self.end,
-      ),
+      start,
       end: self.byte_offset_bisection(
         self.dnm.byte_offsets[self.start] + rel_end - 1,
         self.start,
-- 
2.43.0

