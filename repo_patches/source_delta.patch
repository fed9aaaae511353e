From b05cf487f54be5563a8cff3444e257c786bd73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 01/49] fix: do not save an uncleaned document when cleaning
 has failed

If '--copy-on-error' could not copy the original, on_err() returned and
the uncleaned data was saved and reported as a success.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8f0c098..174b0c5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -139,7 +139,7 @@ fn main() {
             Err(e) => {
                 writeln!(stderr(), "{}.", e.full_chain()).unwrap();
                 on_err();
-                break;
+                return;
             }
         }
 
-- 
2.43.0


From 4c73f330c4f7ebb26583badf20e0012ad80f8ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 02/49] fix: do not truncate the input file by
 '--copy-on-error'

'a.svg' and './a.svg' are the same file, but were treated as different
ones and fs::copy emptied the original.
---
 src/main.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 174b0c5..0228700 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -106,7 +106,7 @@ fn main() {
             let inf = in_file.unwrap();
             let outf = out_file.unwrap();
             // Copy a file only when paths are different.
-            if inf != outf {
+            if !is_same_file(inf, outf) {
                 try_msg!(fs::copy(inf, outf));
             }
         }
@@ -193,6 +193,18 @@ fn main() {
     }
 }
 
+// Different paths can point to the same file and coping a file onto itself truncates it.
+fn is_same_file(path1: &str, path2: &str) -> bool {
+    if path1 == path2 {
+        return true;
+    }
+
+    match (fs::canonicalize(path1), fs::canonicalize(path2)) {
+        (Ok(p1), Ok(p2)) => p1 == p2,
+        _ => false,
+    }
+}
+
 fn log_format(out: fern::FormatCallback, message: &fmt::Arguments, record: &log::Record) {
     use log::Level;
 
-- 
2.43.0


From b4bf0e1af246860449ba7422b0a581d418c141d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 03/49] fix: '--no-defaults' must disable
 'remove-unresolved-classes' too

It was the only flag that stayed enabled, contrary to the documentation.
---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index a0d445f..6415bd3 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -431,7 +431,7 @@ pub fn gen_parse_options(args: &ArgMatches) -> ParseOptions {
         parse_unknown_elements: true,
         parse_unknown_attributes: true,
         parse_px_unit: false,
-        skip_unresolved_classes: true,
+        skip_unresolved_classes: false,
         skip_invalid_attributes: false,
         skip_invalid_css: false,
         skip_paint_fallback: false,
-- 
2.43.0


From 81a21bf7aa8e3b4e0731795cb20ee1711d48ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 04/49] fix: do not unlink 'use' elements that can't be
 resolved

---
 src/task/resolve_use.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 29e17bb..07c304c 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -64,9 +64,6 @@ pub fn resolve_use(doc: &Document) {
     }
 
     for (mut node, mut link) in nodes {
-        // Unlink 'use'.
-        node.remove_attribute(AId::XlinkHref);
-
         {
             // 'use' element support 'x', 'y' and 'transform' attributes and we should process them
             // so we apply translate transform to the linked element transform.
@@ -92,6 +89,9 @@ pub fn resolve_use(doc: &Document) {
             }
         }
 
+        // Unlink 'use'.
+        node.remove_attribute(AId::XlinkHref);
+
         // Copy attributes.
         for attr in node.attributes().iter() {
             link.set_attribute(attr.clone());
-- 
2.43.0


From bf6d7d4792976dd7e4daa5409fbccb66cc8f8a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 05/49] fix: do not resolve recursive 'use' elements

---
 src/task/resolve_use.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 07c304c..fb99663 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -58,6 +58,11 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // A recursive link can't be resolved.
+                if node.parents().any(|p| p == *link) {
+                    continue;
+                }
+
                 nodes.push((node.clone(), link.clone()));
             }
         }
-- 
2.43.0


From a819a4659235b9badd2398af07f675e9583f56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 06/49] fix: do not overwrite attributes of the element linked
 by 'use'

---
 src/task/resolve_use.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index fb99663..a28d867 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Length,
+    Node,
     Transform,
 };
 
@@ -63,6 +64,11 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // Attributes of the 'use' should not overwrite attributes of the linked element.
+                if is_attrs_conflict(&node, link) {
+                    continue;
+                }
+
                 nodes.push((node.clone(), link.clone()));
             }
         }
@@ -110,6 +116,24 @@ pub fn resolve_use(doc: &Document) {
     }
 }
 
+// Checks that attributes of the 'use' element can't be moved to the linked element as is.
+fn is_attrs_conflict(node: &Node, link: &Node) -> bool {
+    let link_attrs = link.attributes();
+
+    let is_conflict = node.attributes().iter_svg().any(|(aid, _)| {
+        match aid {
+            AId::XlinkHref => false,
+            // Will be merged into 'transform'.
+            AId::X | AId::Y => link_attrs.contains(AId::Transform),
+            // Have no effect on a linked element unless it's an 'svg' or a 'symbol'.
+            AId::Width | AId::Height => true,
+            _ => link_attrs.contains(aid),
+        }
+    });
+
+    is_conflict
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 6c82076343ca9635b8aac318afdd7e0f742c72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 07/49] fix: process only 'stop' children of gradients

---
 src/task/fix_attrs.rs         |  2 +-
 src/task/resolve_gradients.rs |  3 ++-
 src/task/rm_invalid_stops.rs  | 11 ++++++++---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/task/fix_attrs.rs b/src/task/fix_attrs.rs
index 2c16763..49ffd88 100644
--- a/src/task/fix_attrs.rs
+++ b/src/task/fix_attrs.rs
@@ -211,7 +211,7 @@ pub fn fix_stop_attributes(node: &Node) {
 
     let mut prev_offset = 0.0;
 
-    for mut child in node.children() {
+    for mut child in node.children().filter(|n| n.is_tag_name(EId::Stop)) {
         let av = child.attributes().get_value(AId::Offset).cloned();
 
         let mut offset = match av {
diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index e0bc491..a6ee862 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -114,7 +114,8 @@ pub fn resolve_radial_gradient_attributes(doc: &Document) {
 /// which is not a first child of a gradient, didn't have an `offset` attribute.
 pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
     for gradient in doc.descendants().filter(|n| n.is_gradient()) {
-        for (idx, mut node) in gradient.children().enumerate() {
+        let stops = gradient.children().filter(|n| n.is_tag_name(EId::Stop));
+        for (idx, mut node) in stops.enumerate() {
             let av = node.attributes().get_value(AId::Offset).cloned();
             if let Some(AttributeValue::Length(l)) = av {
                 if l.unit == LengthUnit::Percent {
diff --git a/src/task/rm_invalid_stops.rs b/src/task/rm_invalid_stops.rs
index 0f3df17..b24a5e7 100644
--- a/src/task/rm_invalid_stops.rs
+++ b/src/task/rm_invalid_stops.rs
@@ -21,7 +21,7 @@ use svgdom::{
     ElementType,
 };
 
-use task::short::AId;
+use task::short::{EId, AId};
 use task::utils;
 
 pub fn remove_invalid_stops(doc: &Document) {
@@ -31,9 +31,14 @@ pub fn remove_invalid_stops(doc: &Document) {
                   .filter(|n| n.is_gradient())
                   .filter(|n| n.has_children());
     for node in iter {
-        let mut prev_child = node.first_child().unwrap();
+        let mut stops = node.children().filter(|n| n.is_tag_name(EId::Stop));
 
-        for child in node.children().skip(1) {
+        let mut prev_child = match stops.next() {
+            Some(n) => n,
+            None => continue,
+        };
+
+        for child in stops {
             {
                 let attrs1 = prev_child.attributes();
                 let attrs2 = child.attributes();
-- 
2.43.0


From 0211d72f6569f4aa488137aed5cad3abfe3da733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 08/49] fix: reject gradients with a recursive 'xlink:href'

---
 src/error.rs                |  4 ++++
 src/task/preclean_checks.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 0674b11..d2f46cc 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -52,5 +52,9 @@ error_chain! {
             display("the 'xlink:href' attribute is referencing an external object '{}', \
                      which is not supported", ref_data)
         }
+
+        RecursiveHref(id: String) {
+            display("the 'xlink:href' attribute of the '#{}' element is recursive", id)
+        }
     }
 }
diff --git a/src/task/preclean_checks.rs b/src/task/preclean_checks.rs
index fb5834a..4350b5a 100644
--- a/src/task/preclean_checks.rs
+++ b/src/task/preclean_checks.rs
@@ -20,6 +20,8 @@ use svgdom::{
     AttributeType,
     AttributeValue,
     Document,
+    ElementType,
+    Node,
 };
 
 use task::short::{EId, AId};
@@ -33,6 +35,7 @@ pub fn preclean_checks(doc: &Document) -> Result<()> {
     check_for_script_attributes(doc)?;
     check_for_conditional_attributes(doc)?;
     check_for_external_xlink(doc)?;
+    check_for_recursive_gradients(doc)?;
 
     Ok(())
 }
@@ -118,6 +121,32 @@ fn check_for_external_xlink(doc: &Document) -> Result<()> {
     Ok(())
 }
 
+// A recursive 'xlink:href' can't be resolved.
+//
+// Details: https://www.w3.org/TR/SVG/linking.html#HeadReference
+fn check_for_recursive_gradients(doc: &Document) -> Result<()> {
+    for gradient in doc.descendants().filter(|n| n.is_gradient()) {
+        let mut visited = vec![gradient.clone()];
+
+        while let Some(node) = linked_node(&visited[visited.len() - 1]) {
+            if visited.contains(&node) {
+                return Err(ErrorKind::RecursiveHref(gradient.id().to_string()).into());
+            }
+
+            visited.push(node);
+        }
+    }
+
+    Ok(())
+}
+
+fn linked_node(node: &Node) -> Option<Node> {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => Some(link.clone()),
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From f6efe1af6b8c4189cab53421f163a6d20e1a16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 09/49] fix: merge gradients only with gradients, keep their
 stops

'xlink:href' can link to any element, which was removed after merging.
Stops of the linked gradient were lost when a gradient had children, but no stops.
---
 src/task/merge_gradients.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index b0d46af..559de52 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -68,7 +68,10 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
 
         if let Some(av) = node.attributes().get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *av {
-                if link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
+                if     link.is_gradient()
+                    && link.uses_count() == 1
+                    && !link.has_attribute(AId::XlinkHref)
+                {
                     linked_node = link.clone();
                 } else {
                     continue;
@@ -81,7 +84,7 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
             continue;
         }
 
-        if !node.has_children() {
+        if !node.children().any(|n| n.is_tag_name(EId::Stop)) {
             // Append 'stop' elements only when we don't have any before.
             while let Some(mut child) = linked_node.first_child() {
                 child.detach();
-- 
2.43.0


From 56b7e57761ab7ec5b69935ad39f486d946491369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 10/49] fix: merge only equal gradients and filters that can be
 relinked

- stops of the linked gradient were ignored when only one gradient had a link
- links were lost when the first node had no ID
- relinking could create a recursive link
- 'feGaussianBlur' region and color space were ignored
---
 src/task/rm_dupl_defs/fe_gaussian_blur.rs |  5 +++
 src/task/rm_dupl_defs/mod.rs              | 37 +++++++++++++++++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_dupl_defs/fe_gaussian_blur.rs b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
index ec85772..c10b3f9 100644
--- a/src/task/rm_dupl_defs/fe_gaussian_blur.rs
+++ b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
@@ -36,6 +36,11 @@ pub fn remove_dupl_fe_gaussian_blur(doc: &Document) {
     ];
 
     let fe_blur_attrs = [
+        AId::X,
+        AId::Y,
+        AId::Width,
+        AId::Height,
+        AId::ColorInterpolationFilters,
         AId::StdDeviation,
     ];
 
diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index d2304bc..0164bce 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -22,7 +22,7 @@ use svgdom::{
     Transform,
 };
 
-use task::short::AId;
+use task::short::{AId, EId};
 
 pub use self::linear_gradient::remove_dupl_linear_gradients;
 pub use self::radial_gradient::remove_dupl_radial_gradients;
@@ -61,6 +61,11 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
                 continue;
             }
 
+            // A node without an ID can't be linked.
+            if !node1.has_id() && node2.is_used() {
+                continue;
+            }
+
             // Collect linked nodes.
             for ln in node2.linked_nodes() {
                 let attrs = ln.attributes();
@@ -80,7 +85,7 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
             // Relink nodes.
             if !link_attrs.is_empty() {
                 for &mut (ref mut ln, ref aid, ref n) in &mut link_attrs {
-                    if *ln.id() != *n.id() {
+                    if *ln != *n {
                         ln.set_attribute((*aid, n.clone()));
                     }
                 }
@@ -108,6 +113,18 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
         if attrs1.get_value(AId::XlinkHref).unwrap() != attrs2.get_value(AId::XlinkHref).unwrap() {
             return false;
         }
+    } else if attrs1.contains(AId::XlinkHref) != attrs2.contains(AId::XlinkHref) {
+        // Stops can be inherited from the linked gradient.
+        if has_stops(node1) != has_stops(node2) {
+            return false;
+        }
+
+        // Relinking must not create a recursive link.
+        if let Some(link) = linked_node(node1) {
+            if is_linked_to(&link, node2) {
+                return false;
+            }
+        }
     }
 
     for aid in attrs.iter() {
@@ -119,6 +136,22 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     true
 }
 
+fn linked_node(node: &Node) -> Option<Node> {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => Some(link.clone()),
+        _ => None,
+    }
+}
+
+fn is_linked_to(node: &Node, target: &Node) -> bool {
+    linked_node(node).map_or(false, |n| n == *target || is_linked_to(&n, target))
+}
+
+fn has_stops(node: &Node) -> bool {
+       node.children().any(|n| n.is_tag_name(EId::Stop))
+    || linked_node(node).map_or(false, |n| has_stops(&n))
+}
+
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
     let children_count1 = node1.children().count();
 
-- 
2.43.0


From 7e7e6eb7d4518befee8b2300ea65a0be3c20eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 11/49] fix: do not remove visible elements by
 'remove-invisible-elements'

- elements that use an empty clipPath/filter were removed even when they
  are used or contain used elements, or are rendered via an other element
- filters without children, but with a link, were treated as empty
- stops with 'display:none' and the root 'svg' element were removed
- gradients used by other gradients were removed
- 'fill-opacity' and 'stroke-opacity' were overwritten by 'stop-opacity'
- 'feColorMatrix' with a non-default input was removed
---
 src/task/rm_invisible_elems.rs | 140 +++++++++++++++++++++++++--------
 1 file changed, 106 insertions(+), 34 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 96c3b20..c2d08a4 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -60,7 +60,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Remove all invalid children.
     for node in doc.descendants().filter(|n| n.is_tag_name(EId::ClipPath)) {
         for child in node.children() {
-            if !is_valid_clip_path_elem(&child) {
+            if !is_valid_clip_path_elem(&child) && !has_used_nodes(&child) {
                 nodes.push(child.clone());
             }
         }
@@ -72,21 +72,39 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
         }
     }
 
-    if !clip_paths.is_empty() {
-        *is_any_removed = true;
-    }
-
     // Remove empty clipPath's.
-    // Note, that all elements that uses this clip path also became invisible,
-    // so we can remove them as well.
     while let Some(mut n) = clip_paths.pop() {
-        for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+        remove_with_users(&mut n, AId::ClipPath, is_any_removed);
+    }
+}
+
+// Note, that all elements that uses an empty 'clipPath' or 'filter' also became invisible,
+// so we can remove them as well.
+fn remove_with_users(node: &mut Node, aid: AId, is_any_removed: &mut bool) {
+    for mut link in node.linked_nodes().collect::<Vec<Node>>() {
+        // Referenced elements and used elements can be rendered in an other place.
+        let is_invisible =
+               find_link_attribute(&link, node) == Some(aid)
+            && !link.is_referenced()
+            && !link.is_tag_name(EId::Svg)
+            && !has_used_nodes(&link);
+
+        if is_invisible {
             link.remove();
+            *is_any_removed = true;
         }
-        n.remove();
+    }
+
+    if !node.is_used() {
+        node.remove();
+        *is_any_removed = true;
     }
 }
 
+fn has_used_nodes(node: &Node) -> bool {
+    node.descendants().any(|n| n.is_used())
+}
+
 fn is_valid_clip_path_elem(node: &Node) -> bool {
     // https://www.w3.org/TR/SVG/masking.html#EstablishingANewClippingPath
 
@@ -128,7 +146,9 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
 fn process_display_attribute(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes = Vec::with_capacity(16);
 
-    _process_display_attribute(&doc.root(), &mut nodes, is_any_removed);
+    if let Some(svg) = doc.svg_element() {
+        _process_display_attribute(&svg, &mut nodes, is_any_removed);
+    }
 
     if !nodes.is_empty() {
         *is_any_removed = true;
@@ -143,10 +163,13 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
         let val = AttributeValue::PredefValue(ValueId::None);
         if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() {
             // All children must be unused to.
-            if !node.descendants().any(|n| n.is_used()) {
+            if !has_used_nodes(&node) {
                 // TODO: ungroup used elements and remove unused
                 nodes.push(node.clone());
             }
+        } else if node.is_gradient() || node.is_tag_name(EId::Filter) {
+            // 'display' does not apply to 'stop' and filter primitives.
+            continue;
         } else if node.has_children() {
             _process_display_attribute(&node, nodes, is_any_removed);
         }
@@ -157,19 +180,11 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
                                   .filter(|n| n.is_tag_name(EId::Filter) && !n.has_children())
+                                  .filter(|n| !n.has_attribute(AId::XlinkHref))
                                   .collect();
 
-    if !nodes.is_empty() {
-        *is_any_removed = true;
-    }
-
-    // Note, that all elements that uses this filter also became invisible,
-    // so we can remove them as well.
     for n in &mut nodes {
-        for mut link in n.linked_nodes().collect::<Vec<Node>>() {
-            link.remove();
-        }
-        n.remove();
+        remove_with_users(n, AId::Filter, is_any_removed);
     }
 }
 
@@ -184,6 +199,11 @@ fn process_fe_color_matrix(doc: &mut Document) {
             return false;
         }
 
+        // Other filters can inherit our children.
+        if node.linked_nodes().any(|n| n.is_tag_name(EId::Filter)) {
+            return false;
+        }
+
         let child = node.first_child().unwrap();
 
         if !child.is_tag_name(EId::FeColorMatrix) {
@@ -192,6 +212,13 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
         let attrs = child.attributes();
 
+        // Only a source graphic will not be changed.
+        match attrs.get_value(AId::In) {
+            Some(&AttributeValue::String(ref s)) if s == "SourceGraphic" => {}
+            Some(_) => return false,
+            None => {}
+        }
+
         // It's a very simple implementation since we do not parse matrix,
         // but it's enough to remove default feColorMatrix generated by Illustrator.
         if let Some(&AttributeValue::String(ref t)) = attrs.get_value(AId::Type) {
@@ -223,15 +250,20 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes = Vec::with_capacity(16);
 
     {
-        // Gradient without children and link to other gradient is pointless.
+        // Gradient without stops and link to other gradient is pointless.
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| !n.has_children() && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| stops_count(n) == 0 && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
-            for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+            for mut link in n.linked_nodes()
+                             .filter(|n| !n.is_gradient())
+                             .collect::<Vec<Node>>() {
                 while let Some(aid) = find_link_attribute(&link, &n) {
-                    link.set_attribute((aid, ValueId::None));
+                    match aid {
+                        AId::Fill | AId::Stroke => link.set_attribute((aid, ValueId::None)),
+                        _ => link.remove_attribute(aid),
+                    }
                 }
             }
             nodes.push(n.clone());
@@ -246,19 +278,19 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // defined for that gradient stop.'
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| n.children().count() == 1 && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| stops_count(n) == 1 && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
-            let stop = n.first_child().unwrap();
+            let stop = n.children().find(|n| n.is_tag_name(EId::Stop)).unwrap();
 
             let color = match stop.attributes().get_value(AId::StopColor) {
                 Some(&AttributeValue::Color(c)) => c,
-                _ => unreachable!("attribute must be resolved"),
+                _ => continue,
             };
 
             let opacity = match stop.attributes().get_value(AId::StopOpacity) {
                 Some(&AttributeValue::Number(n)) => n,
-                _ => unreachable!("attribute must be resolved"),
+                _ => continue,
             };
 
             // Replace links with colors, but not in gradients,
@@ -267,14 +299,23 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
                              .filter(|n| !n.is_gradient())
                              .collect::<Vec<Node>>() {
                 while let Some(aid) = find_link_attribute(&link, &n) {
-                    link.set_attribute((aid, color));
+                    let opacity_aid = match aid {
+                        AId::Fill => AId::FillOpacity,
+                        AId::Stroke => AId::StrokeOpacity,
+                        _ => {
+                            link.remove_attribute(aid);
+                            continue;
+                        }
+                    };
+
                     if opacity.fuzzy_ne(&1.0) {
-                        match aid {
-                            AId::Fill => link.set_attribute((AId::FillOpacity, opacity)),
-                            AId::Stroke => link.set_attribute((AId::StrokeOpacity, opacity)),
-                            _ => {}
+                        match resolve_opacity(&link, opacity_aid) {
+                            Some(v) => link.set_attribute((opacity_aid, v * opacity)),
+                            None => break,
                         }
                     }
+
+                    link.set_attribute((aid, color));
                 }
             }
             nodes.push(n.clone());
@@ -285,9 +326,40 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         *is_any_removed = true;
     }
 
+    // Gradients that are still in use must be preserved.
+    nodes.retain(|n| !n.is_used());
+
     utils::remove_nodes(&mut nodes);
 }
 
+fn stops_count(node: &Node) -> usize {
+    node.children().filter(|n| n.is_tag_name(EId::Stop)).count()
+}
+
+// Returns an opacity of the element to which a 'stop-opacity' can be applied.
+//
+// It can't be applied to an element with children, since they will inherit it.
+// And an element that is used somewhere else can inherit an unknown opacity.
+fn resolve_opacity(node: &Node, aid: AId) -> Option<f64> {
+    if !node.is_shape() {
+        return None;
+    }
+
+    if !node.has_attribute(aid) && node.parents_with_self().any(|n| n.is_used()) {
+        return None;
+    }
+
+    match node.parents_with_self().find(|n| n.has_attribute(aid)) {
+        Some(n) => {
+            match n.attributes().get_value(aid) {
+                Some(&AttributeValue::Number(v)) => Some(v),
+                _ => None,
+            }
+        }
+        None => Some(1.0),
+    }
+}
+
 fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
     let attrs = node.attributes();
 
-- 
2.43.0


From 63990c94bc156e6e245074e539aed6829588d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 12/49] fix: handle a stop offset with an invalid unit as a
 missing one

---
 src/task/resolve_gradients.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index a6ee862..04b0b1f 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -117,21 +117,24 @@ pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
         let stops = gradient.children().filter(|n| n.is_tag_name(EId::Stop));
         for (idx, mut node) in stops.enumerate() {
             let av = node.attributes().get_value(AId::Offset).cloned();
-            if let Some(AttributeValue::Length(l)) = av {
-                if l.unit == LengthUnit::Percent {
+            match av {
+                Some(AttributeValue::Length(l)) if l.unit == LengthUnit::None => {}
+                Some(AttributeValue::Length(l)) if l.unit == LengthUnit::Percent => {
                     // convert percent into a number
                     let new_l = Length::new_number(l.num / 100.0);
                     node.set_attribute((AId::Offset, new_l));
                 }
-            } else {
-                if idx == 0 {
-                    // Allow first stop to not have an offset.
-                    warn!("The 'stop' element must have an 'offset' attribute. \
-                           Fallback to 'offset=0'.");
-                    node.set_attribute((AId::Offset, Length::zero()));
-                } else {
-                    return Err(ErrorKind::MissingAttribute("stop".to_string(),
-                                                           "offset".to_string()).into());
+                // An offset with any other unit is invalid.
+                _ => {
+                    if idx == 0 {
+                        // Allow first stop to not have an offset.
+                        warn!("The 'stop' element must have an 'offset' attribute. \
+                               Fallback to 'offset=0'.");
+                        node.set_attribute((AId::Offset, Length::zero()));
+                    } else {
+                        return Err(ErrorKind::MissingAttribute("stop".to_string(),
+                                                               "offset".to_string()).into());
+                    }
                 }
             }
 
-- 
2.43.0


From 7abed3a5a43a93eb5f0f46edc28b2e447deb0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 13/49] fix: resolve inheritable attributes before moving the
 main 'defs' and filters

---
 src/task/group_defs.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 48a1e7f..b88a374 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -23,7 +23,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::EId;
+use task::short::{AId, EId};
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -35,6 +35,20 @@ pub fn group_defs(doc: &mut Document) {
         None => doc.create_element(EId::Defs),
     };
 
+    // Resolve attributes of all referenced elements that will lose their parents.
+    //
+    // Children of 'defs' will be moved too, when 'defs' is not a child of the 'svg'.
+    // And 'defs' itself can be removed later.
+    let is_resolve_defs =
+           defs.parent() != Some(svg.clone())
+        || defs.attributes().iter().any(|a| a.is_inheritable());
+
+    for (_, node) in doc.descendants().svg() {
+        if node.is_referenced() && (is_resolve_defs || node.parent() != Some(defs.clone())) {
+            resolve_attrs(&node);
+        }
+    }
+
     // Make 'defs' a first child of the 'svg'.
     if svg.first_child() != Some(defs.clone()) {
         defs.detach();
@@ -56,7 +70,6 @@ pub fn group_defs(doc: &mut Document) {
         }
 
         for n in &mut nodes {
-            resolve_attrs(n);
             n.detach();
             defs.append(n);
         }
@@ -104,11 +117,19 @@ fn resolve_attrs(node: &Node) {
         | EId::Marker
         | EId::Mask
         | EId::Pattern
-        | EId::Symbol => {
+        | EId::Symbol
+        | EId::Filter => {
+            let is_filter = node.is_tag_name(EId::Filter);
+
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
                 for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_inheritable()) {
+                    // The only attribute that affects filter primitives.
+                    if is_filter && aid != AId::ColorInterpolationFilters {
+                        continue;
+                    }
+
                     for mut child in node.children() {
                         if child.has_attribute(aid) {
                             continue;
-- 
2.43.0


From 9cdac8b7c6bb8381f14b632fa88a50250f4f893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 14/49] fix: gradientUnits are inherited only through
 xlink:href, not through fill

---
 src/task/rm_gradient_attrs.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/task/rm_gradient_attrs.rs b/src/task/rm_gradient_attrs.rs
index 4d884ad..f28b561 100644
--- a/src/task/rm_gradient_attrs.rs
+++ b/src/task/rm_gradient_attrs.rs
@@ -43,7 +43,7 @@ fn rm_equal(doc: &Document) {
     let mut order = Vec::new();
     for node in doc.descendants().filter(|n|    n.is_gradient()
                                              && n.has_attribute(AId::XlinkHref)) {
-        let c = node.linked_nodes().filter(|n| n.is_gradient()).count();
+        let c = node.linked_nodes().filter(|n| is_inherited_from(n, &node)).count();
         // The gradient element and count of gradient elements than uses it.
         order.push((node.clone(), c));
     }
@@ -80,7 +80,8 @@ fn rm_equal(doc: &Document) {
                 if let AttributeValue::Link(ref link) = *av {
                     for &mut (ref node, ref mut count) in &mut order {
                         if node == link {
-                            *count -= 1;
+                            // A gradient can link the same node more than once.
+                            *count -= node.linked_nodes().filter(|l| l == n).count();
                         }
                     }
                 }
@@ -97,7 +98,7 @@ fn group_to_parent(doc: &Document) {
     let mut nodes: Vec<Node> = doc.descendants()
                                   .filter(|n| n.is_gradient())
                                   .filter(|n| !n.has_attribute(AId::XlinkHref))
-                                  .filter(|n| n.linked_nodes().all(|l| l.is_gradient()))
+                                  .filter(|n| n.linked_nodes().all(|l| is_inherited_from(&l, n)))
                                   .collect();
 
     for node in &mut nodes {
@@ -170,6 +171,14 @@ fn group_to_parent(doc: &Document) {
     }
 }
 
+// Only 'xlink:href' is inheriting attributes. Gradients can be linked via 'fill' too.
+fn is_inherited_from(node: &Node, parent: &Node) -> bool {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => node.is_gradient() && link == parent,
+        _ => false,
+    }
+}
+
 fn make_attr_invisible(node: &mut Node, aid: AId) {
     let mut attrs = node.attributes_mut();
     attrs.get_mut(aid).unwrap().visible = false;
-- 
2.43.0


From ffbed21d1db089a004de2fb369ebce6b93127f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 15/49] fix: 'display' of an ungrouped group must not show
 hidden children

---
 src/task/ungroup_groups.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e9e03e6..ae2c841 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId};
@@ -171,9 +172,9 @@ fn ungroup_group(g: &mut Node) {
                 }
             }
 
-            if aid == AId::Display {
-                // Display attribute has a priority during rendering, so we must
-                // copy it even if a child has it already.
+            if aid == AId::Display && attr.value == AttributeValue::PredefValue(ValueId::None) {
+                // 'display:none' has a priority during rendering, so we must
+                // copy it even if a child has 'display' already.
                 child.set_attribute(attr.clone());
                 continue;
             }
-- 
2.43.0


From 6f0040bcff4cc27f8d8daaa7b71a6d54125a6cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 16/49] fix: do not move a transform to used elements by
 'prepare_transforms'

---
 src/task/apply_transforms/preproc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task/apply_transforms/preproc.rs b/src/task/apply_transforms/preproc.rs
index beb3271..bc03844 100644
--- a/src/task/apply_transforms/preproc.rs
+++ b/src/task/apply_transforms/preproc.rs
@@ -61,7 +61,9 @@ pub fn prepare_transforms(parent: &Node, recursive: bool, opt: &CleaningOptions)
                 utils::is_valid_coords(&n)
             };
 
+            // A transform of a used element will affect all it's instances.
                valid_elems.contains(&id)
+            && !n.is_used()
             && utils::has_valid_transform(&n)
             && utils::is_valid_attrs(&n)
             && is_valid_coords
-- 
2.43.0


From dc9c58f78945a9f1c7f3768627d0093a60fc2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 17/49] fix: do not ungroup a transformed group with used
 children

---
 src/task/ungroup_groups.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index ae2c841..a98a34e 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -117,12 +117,12 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
     // If group has only a transform attribute
     // and if all children elements contain transform
-    // and none of the children is 'use'.
+    // and none of the children is 'use' or is used by other elements.
     //
     // example: oxygen/edit-find-mail.svg
     if g.has_attribute(AId::Transform) && g.attributes().len() == 1 {
         let is_ok = g.children().all(|n| {
-            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use)
+            n.has_attribute(AId::Transform) && !n.is_tag_name(EId::Use) && !n.is_used()
         });
 
         if is_ok {
-- 
2.43.0


From bcfafb5d6b8ec67c0b0196271f12480cf68af0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 18/49] fix: do not ungroup an empty group inside a 'switch'

---
 src/task/ungroup_groups.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index a98a34e..2bf33e1 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -68,8 +68,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
     // TODO: we should not ungroup groups with non-inheritable attributes.
 
-    if !g.has_children() && !g.has_attribute(AId::Filter) {
+    if    !g.has_children()
+       && !g.has_attribute(AId::Filter)
+       && !parent.is_tag_name(EId::Switch) {
         // Empty group without filter attribute.
+        // An empty group inside a 'switch' hides all elements after it.
         // Checkout 'filters-tile-01-b.svg' in 'W3C_SVG_11_TestSuite' for details.
         return true;
     }
-- 
2.43.0


From 29537f3f5354816c61796381a31e4f134ac8aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 19/49] fix: do not panic on a group with a text node

---
 src/task/ungroup_groups.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 2bf33e1..cb90c6f 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -138,7 +138,7 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
-        for mut child in g.children() {
+        for (_, mut child) in g.children().svg() {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
                     // We can't just replace 'opacity' attribute,
-- 
2.43.0


From 60eaa689f7aeb0031e701b9e087447a6e5e67a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 20/49] fix: do not copy attributes that have no effect on a
 group to its children

---
 src/task/ungroup_groups.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index cb90c6f..e0c8b47 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    AttributeType,
     AttributeValue,
     Document,
     Node,
@@ -138,6 +139,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
 
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
+        // Other attributes, like 'x', have no effect on 'g', but can affect a child.
+        if !attr.is_presentation() && !attr.is_core() && aid != AId::Transform {
+            continue;
+        }
+
         for (_, mut child) in g.children().svg() {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
-- 
2.43.0


From bdafedd1bae7a72738455cc29247ca0a9e6469c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 21/49] fix: do not move a transform of a group to a nested svg

---
 src/task/ungroup_groups.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e0c8b47..0e839f8 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -97,6 +97,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // A nested 'svg' doesn't support 'transform'.
+    if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
+        return false;
+    }
+
     if g.children().count() == 1 {
         let child = g.first_child().unwrap();
         // TODO: why child shouldn't be used?
-- 
2.43.0


From 524a155fcca280dc620af82a24c6b002d2c993ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 22/49] fix: do not apply a transform to elements with markers

A marker with markerUnits='userSpaceOnUse' is not scaled by stroke-width.
---
 src/task/apply_transforms/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index caec379..04257c9 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -67,7 +67,8 @@ pub mod utils {
     // TODO: process 'fill', 'stroke' and 'filter' linked elements only if they
     //       used only by this element.
     pub fn is_valid_attrs(node: &Node) -> bool {
-        for aid in &[AId::Fill, AId::Stroke, AId::Filter, AId::Mask, AId::ClipPath] {
+        for aid in &[AId::Fill, AId::Stroke, AId::Filter, AId::Mask, AId::ClipPath,
+                     AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd] {
             if !is_valid_attr(node, *aid) {
                 return false;
             }
-- 
2.43.0


From 249f030b4ffe5eba89c9a983c3a2366ff3f6054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 23/49] fix: do not apply a transform to elements instanced by
 'use'

An instance inherits stroke-width, fill, etc. from 'use', so recalculated
values would be wrong.
---
 src/task/apply_transforms/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index 04257c9..945512b 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -74,7 +74,11 @@ pub mod utils {
             }
         }
 
-        true
+        // An instance of a used element inherits attributes from 'use',
+        // so we don't know the actual values.
+        !node.parents_with_self().any(|p| {
+            p.linked_nodes().any(|n| n.is_tag_name(EId::Use))
+        })
     }
 
     // Checks that first occurred attribute value is not a FuncLink.
-- 
2.43.0


From 64548182417d76b7d72edc3c708c427e2ab38fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 24/49] fix: 'visibility' is inherited by the content of
 referenced elements

---
 src/task/group_defs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index b88a374..1cd07b7 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
     Document,
     ElementType,
@@ -41,7 +42,7 @@ pub fn group_defs(doc: &mut Document) {
     // And 'defs' itself can be removed later.
     let is_resolve_defs =
            defs.parent() != Some(svg.clone())
-        || defs.attributes().iter().any(|a| a.is_inheritable());
+        || defs.attributes().iter().any(|a| is_inheritable(a));
 
     for (_, node) in doc.descendants().svg() {
         if node.is_referenced() && (is_resolve_defs || node.parent() != Some(defs.clone())) {
@@ -124,7 +125,7 @@ fn resolve_attrs(node: &Node) {
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
                 let attrs = p.attributes();
-                for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_inheritable()) {
+                for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| is_inheritable(a)) {
                     // The only attribute that affects filter primitives.
                     if is_filter && aid != AId::ColorInterpolationFilters {
                         continue;
@@ -146,6 +147,11 @@ fn resolve_attrs(node: &Node) {
     }
 }
 
+// 'visibility' is inheritable too, despite the fact that `svgdom` thinks otherwise.
+fn is_inheritable(attr: &Attribute) -> bool {
+    attr.is_inheritable() || attr.has_id(AId::Visibility)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From aefd49ee1491a21290de926f4919a796ce182be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 25/49] fix: markers of a path can be inherited

---
 src/task/paths/mod.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 18fc59a..11e06c1 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -19,6 +19,7 @@
 use svgdom::{
     AttributeValue,
     Document,
+    Node,
     Transform,
 };
 use svgdom::path::Path;
@@ -37,8 +38,7 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = node.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                               AId::MarkerMid, AId::MarkerEnd]);
+        let has_marker = has_marker(&node);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
@@ -69,6 +69,31 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
     }
 }
 
+// Markers are inheritable, so we have to check parent elements
+// and 'use' elements which are linked to the node or to its parents too.
+fn has_marker(node: &Node) -> bool {
+    let mut nodes = vec![node.clone()];
+    let mut i = 0;
+    while i < nodes.len() {
+        for p in nodes[i].clone().parents_with_self() {
+            if p.has_attributes(&[AId::Marker, AId::MarkerStart,
+                                  AId::MarkerMid, AId::MarkerEnd]) {
+                return true;
+            }
+
+            for n in p.linked_nodes() {
+                if n.is_tag_name(EId::Use) && !nodes.contains(&n) {
+                    nodes.push(n);
+                }
+            }
+        }
+
+        i += 1;
+    }
+
+    false
+}
+
 fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &CleaningOptions) {
     if path.d.is_empty() {
         return;
-- 
2.43.0


From 0c6b0d6f5900dfec90f51ca689fee8598de96d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 26/49] fix: do not add vertices to paths with markers

---
 src/task/paths/conv_segments.rs | 7 +++++++
 src/task/paths/mod.rs           | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index 3644843..6314e60 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -40,6 +40,13 @@ pub fn convert_segments(path: &mut Path) {
     }
 }
 
+// Checks that path has a ClosePath which is not followed by MoveTo.
+pub fn has_implicit_m(path: &Path) -> bool {
+    path.d.windows(2).any(|w| {
+        w[0].cmd() == Command::ClosePath && w[1].cmd() != Command::MoveTo
+    })
+}
+
 // Adds explicit MoveTo commands after ClosePath.
 //
 // SVG allows skipping the MoveTo segment after ClosePath, which is inconvenient in our case.
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 11e06c1..0ad1f89 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -99,6 +99,12 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
         return;
     }
 
+    if has_marker && conv_segments::has_implicit_m(path) {
+        // An explicit MoveTo is a new vertex, so it will be rendered with a marker.
+        path.conv_to_relative();
+        return;
+    }
+
     path.conv_to_absolute();
 
     conv_segments::fix_m(path);
-- 
2.43.0


From 1063eae36681c9c26da4ea64ea3522c1f1c5410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 27/49] fix: a curve is a line only when its control points are
 between its end points

---
 src/task/paths/conv_segments.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index 6314e60..6e03570 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -150,26 +150,24 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
             SegmentData::CurveTo { x1, y1, x2, y2, x, y } => {
                 let is_vlineto = || {
                     // If prev_x, x1, x2 and x are equal than this CurveTo is VerticalLineTo.
-                    // y1 must be equal or greater than prev_y.
-                    // y2 must be equal or less than y.
+                    // y1 and y2 must be between prev_y and y.
 
                        prev_x.fuzzy_eq(&x)
                     && x1.fuzzy_eq(&x2)
                     && x1.fuzzy_eq(&x)
-                    && y1.fuzzy_cmp(&prev_y) != Ordering::Less
-                    && y2.fuzzy_cmp(&y) != Ordering::Greater
+                    && is_between(y1, prev_y, y)
+                    && is_between(y2, prev_y, y)
                 };
 
                 let is_hlineto = || {
                     // If prev_y, y1, y2 and y are equal - this CurveTo is HorizontalLineTo.
-                    // x1 must be equal or greater than prev_x.
-                    // x2 must be equal or less than x.
+                    // x1 and x2 must be between prev_x and x.
 
                        prev_y.fuzzy_eq(&y)
                     && y1.fuzzy_eq(&y2)
                     && y1.fuzzy_eq(&y)
-                    && x1.fuzzy_cmp(&prev_x) != Ordering::Less
-                    && x2.fuzzy_cmp(&x) != Ordering::Greater
+                    && is_between(x1, prev_x, x)
+                    && is_between(x2, prev_x, x)
                 };
 
                 let is_lineto = || {
@@ -213,6 +211,14 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     }
 }
 
+// Checks that value is between end points or equal to one of them.
+fn is_between(v: f64, a: f64, b: f64) -> bool {
+    let o1 = v.fuzzy_cmp(&a);
+    let o2 = v.fuzzy_cmp(&b);
+       (o1 != Ordering::Less    && o2 != Ordering::Greater)
+    || (o1 != Ordering::Greater && o2 != Ordering::Less)
+}
+
 fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool {
     // Check that point is actually on line.
     let is_on_line = || {
@@ -242,7 +248,7 @@ fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool
 
         if y.fuzzy_eq(&c) {
             if    ( x.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x2) == Ordering::Less)
-               || (x2.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
+               || (x.fuzzy_cmp(&x1) == Ordering::Less && x.fuzzy_cmp(&x2) == Ordering::Greater) {
                 return true;
             }
         }
-- 
2.43.0


From 636ecb9ea5110a344757d2bf3dab3a4411eb2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 28/49] fix: do not convert a curve into a line when the next
 segment is smooth

---
 src/task/paths/conv_segments.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index 6e03570..40e1449 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -145,6 +145,12 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     while i < path.d.len() {
         let prev_seg = path.d[i - 1];
         let (prev_x, prev_y) = utils::resolve_xy(path, i - 1);
+        // SmoothCurveTo depends on the second control point of the previous curve,
+        // so such curve can't be converted into a line.
+        let has_smooth = match path.d.get(i + 1) {
+            Some(seg) => seg.cmd() == Command::SmoothCurveTo,
+            None => false,
+        };
         let curr_seg = &mut path.d[i];
         match *curr_seg.data() {
             SegmentData::CurveTo { x1, y1, x2, y2, x, y } => {
@@ -175,13 +181,13 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
                     && is_point_on_line(prev_x, prev_y, x, y, x2, y2)
                 };
 
-                if is_vlineto() {
+                if !has_smooth && is_vlineto() {
                     *curr_seg = Segment::new_line_to(prev_x, y);
                     *is_changed = true;
-                } else if is_hlineto() {
+                } else if !has_smooth && is_hlineto() {
                     *curr_seg = Segment::new_line_to(x, prev_y);
                     *is_changed = true;
-                } else if is_lineto() {
+                } else if !has_smooth && is_lineto() {
                     *curr_seg = Segment::new_line_to(x, y);
                     *is_changed = true;
                 } else {
-- 
2.43.0


From 396cf421bf65e4fa1538979500ef705b740521bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 29/49] fix: remove equal curves only when they are loops

---
 src/task/paths/rm_unused.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index 581f6d4..bb383a2 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -118,10 +118,36 @@ fn remove_mz(path: &mut Path) -> bool {
 }
 
 // If current segment is the same as previous - remove it.
+//
+// The same curve from a different point is a different curve,
+// so only loops can be removed. Smooth curves depend on a previous segment too.
 fn remove_equal(path: &mut Path) -> bool {
-    drain_by_pair(path, DrainMode::Single, |prev, curr| {
-        prev.fuzzy_eq(curr)
-    })
+    let old_len = path.d.len();
+
+    let mut i = 1;
+    while i < path.d.len() {
+        let prev = path.d[i - 1];
+        let curr = path.d[i];
+
+        let is_equal = prev.fuzzy_eq(&curr) && match curr.cmd() {
+            Command::CurveTo | Command::Quadratic => {
+                i > 1 && {
+                    let (x, y) = utils::resolve_xy(path, i - 2);
+                    prev.x().unwrap().fuzzy_eq(&x) && prev.y().unwrap().fuzzy_eq(&y)
+                }
+            }
+            Command::SmoothCurveTo | Command::SmoothQuadratic => false,
+            _ => true,
+        };
+
+        if is_equal {
+            path.d.remove(i);
+        } else {
+            i += 1;
+        }
+    }
+
+    old_len != path.d.len()
 }
 
 // If segment moved to the same position as current - remove it.
-- 
2.43.0


From e132a5023884601c9640afd19b8bf8e3b34eef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 30/49] fix: keep a zero-length line between a curve and a
 smooth segment

---
 src/task/paths/rm_unused.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index bb383a2..26b91cb 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -159,7 +159,8 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
 
         let is_equal = match curr.cmd() {
             Command::LineTo => {
-                curr.x().unwrap().fuzzy_eq(&px) && curr.y().unwrap().fuzzy_eq(&py)
+                   curr.x().unwrap().fuzzy_eq(&px) && curr.y().unwrap().fuzzy_eq(&py)
+                && !is_before_smooth(path, i)
             }
             // Curves can't be removed.
             _ => false,
@@ -175,6 +176,20 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
     }
 }
 
+// Without a line between them, a smooth segment would depend on a previous curve.
+fn is_before_smooth(path: &Path, i: usize) -> bool {
+    let prev_cmd = path.d[i - 1].cmd();
+    match path.d.get(i + 1).map(|seg| seg.cmd()) {
+        Some(Command::SmoothCurveTo) => {
+            prev_cmd == Command::CurveTo || prev_cmd == Command::SmoothCurveTo
+        }
+        Some(Command::SmoothQuadratic) => {
+            prev_cmd == Command::Quadratic || prev_cmd == Command::SmoothQuadratic
+        }
+        _ => false,
+    }
+}
+
 fn process_lz(path: &mut Path, is_changed: &mut bool) {
     if path.d.is_empty() {
         return;
-- 
2.43.0


From 013e2af17e7b11fff98a171585ff660e9bf95475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 31/49] fix: do not convert rects with markers to paths

---
 src/task/conv_shapes.rs |  5 +++++
 src/task/paths/mod.rs   | 28 +---------------------------
 src/task/utils.rs       | 27 ++++++++++++++++++++++++++-
 3 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/task/conv_shapes.rs b/src/task/conv_shapes.rs
index 6f5530f..637ca26 100644
--- a/src/task/conv_shapes.rs
+++ b/src/task/conv_shapes.rs
@@ -77,6 +77,11 @@ fn convert_line(node: &mut Node) {
 fn convert_rect(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Rect));
 
+    // Markers are not applied to rects, but are applied to paths.
+    if ::task::utils::has_marker(node) {
+        return;
+    }
+
     let path = {
         let attrs = node.attributes();
 
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 0ad1f89..c8840e4 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -19,7 +19,6 @@
 use svgdom::{
     AttributeValue,
     Document,
-    Node,
     Transform,
 };
 use svgdom::path::Path;
@@ -38,7 +37,7 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = has_marker(&node);
+        let has_marker = ::task::utils::has_marker(&node);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
@@ -69,31 +68,6 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
     }
 }
 
-// Markers are inheritable, so we have to check parent elements
-// and 'use' elements which are linked to the node or to its parents too.
-fn has_marker(node: &Node) -> bool {
-    let mut nodes = vec![node.clone()];
-    let mut i = 0;
-    while i < nodes.len() {
-        for p in nodes[i].clone().parents_with_self() {
-            if p.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                  AId::MarkerMid, AId::MarkerEnd]) {
-                return true;
-            }
-
-            for n in p.linked_nodes() {
-                if n.is_tag_name(EId::Use) && !nodes.contains(&n) {
-                    nodes.push(n);
-                }
-            }
-        }
-
-        i += 1;
-    }
-
-    false
-}
-
 fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &CleaningOptions) {
     if path.d.is_empty() {
         return;
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 26deec5..98d0fa5 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -22,7 +22,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::AId;
+use task::short::{EId, AId};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -79,6 +79,31 @@ fn recalc_stroke_dasharray(node: &mut Node, scale_factor: f64) {
     }
 }
 
+// Markers are inheritable, so we have to check parent elements
+// and 'use' elements which are linked to the node or to its parents too.
+pub fn has_marker(node: &Node) -> bool {
+    let mut nodes = vec![node.clone()];
+    let mut i = 0;
+    while i < nodes.len() {
+        for p in nodes[i].clone().parents_with_self() {
+            if p.has_attributes(&[AId::Marker, AId::MarkerStart,
+                                  AId::MarkerMid, AId::MarkerEnd]) {
+                return true;
+            }
+
+            for n in p.linked_nodes() {
+                if n.is_tag_name(EId::Use) && !nodes.contains(&n) {
+                    nodes.push(n);
+                }
+            }
+        }
+
+        i += 1;
+    }
+
+    false
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From 36a6f6fae7e5457c8cb839c2453af18a6db20ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 32/49] fix: write the scaled radius of a gradient that
 inherited it

---
 src/task/apply_transforms/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index 945512b..fa6031d 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -142,8 +142,12 @@ pub mod utils {
     }
 
     pub fn scale_coord(attrs: &mut Attributes, aid: AId, scale_factor: &f64) {
-        if let Some(&mut AttributeValue::Length(ref mut len)) = attrs.get_value_mut(aid) {
-            len.num *= *scale_factor;
+        if let Some(attr) = attrs.get_mut(aid) {
+            if let AttributeValue::Length(ref mut len) = attr.value {
+                len.num *= *scale_factor;
+                // An inherited value is hidden, but now it's our own.
+                attr.visible = true;
+            }
         }
     }
 
-- 
2.43.0


From 00b952552114ef715889ac57ba8402425a0949d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 33/49] fix: do not merge gradients of different kinds that
 others inherit from

---
 src/task/merge_gradients.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index 559de52..b333f0d 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -71,6 +71,10 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
                 if     link.is_gradient()
                     && link.uses_count() == 1
                     && !link.has_attribute(AId::XlinkHref)
+                    // Gradients that are linked to the current one can inherit attributes,
+                    // which the current one doesn't have.
+                    && (   link.tag_id() == node.tag_id()
+                        || !node.linked_nodes().any(|n| n.is_gradient()))
                 {
                     linked_node = link.clone();
                 } else {
-- 
2.43.0


From d75c3968c52bd5ea75084e230fffbd4c3ab14c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:32 +0000
Subject: [PATCH 34/49] fix: hide default attributes only when their absence
 means the same

---
 src/task/rm_default_attrs.rs | 33 ++++++++++++++++++++++++++++-----
 src/task/utils.rs            | 28 ++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 1eff726..0b41be3 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -22,10 +22,12 @@ use svgdom::{
     AttributeValue,
     Document,
     Length,
+    Node,
     ValueId,
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils;
 
 // TODO: xml:space
 
@@ -38,6 +40,12 @@ pub fn remove_default_attributes(doc: &Document) {
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
                 if attr.check_is_default() {
+                    // Without an own value, the element will inherit it
+                    // from the 'use' element too.
+                    if utils::is_set_by_use(&node, aid) {
+                        continue;
+                    }
+
                     if let Some(n) = node.parents().find(|n| n.has_attribute(aid)) {
                         if let Some(a) = n.attributes().get(aid) {
                             if !a.visible {
@@ -70,7 +78,7 @@ pub fn remove_default_attributes(doc: &Document) {
                         }
                     }
                 }
-            } else if is_default(attr, tag_name) {
+            } else if is_default(&node, attr, tag_name) {
                 // Check default values of an non-presentation attributes.
                 rm_list.push(aid);
             }
@@ -88,13 +96,20 @@ pub fn remove_default_attributes(doc: &Document) {
     }
 }
 
-fn is_default(attr: &Attribute, tag_name: EId) -> bool {
+fn is_default(node: &Node, attr: &Attribute, tag_name: EId) -> bool {
     // Process only popular and simple attributes.
 
     // TODO: this elements should be processed differently
     match tag_name {
           EId::LinearGradient
         | EId::RadialGradient => return false,
+          EId::Pattern
+        | EId::Filter => {
+            // Without an own value, the element will inherit it from the linked one.
+            if node.has_attribute(AId::XlinkHref) {
+                return false;
+            }
+        }
         _ => {}
     }
 
@@ -105,7 +120,7 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
 
     match attr.id().unwrap() {
         AId::X | AId::Y => {
-            if tag_name == EId::GlyphRef {
+            if tag_name == EId::GlyphRef || is_filter_primitive(node) {
                 return false;
             }
 
@@ -198,8 +213,8 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
             // There are two different 'slope': one for 'font-face'
             // and one for 'feFunc*'.
             if let AttributeValue::String(ref s) = attr.value {
-                if tag_name == EId::FontFace && s == "0" {
-                    return true;
+                if tag_name == EId::FontFace {
+                    return s == "0";
                 } else if s == "1" {
                     return true;
                 }
@@ -230,6 +245,14 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     false
 }
 
+// The default position of a filter primitive is a position of the filter region.
+fn is_filter_primitive(node: &Node) -> bool {
+    match node.parent() {
+        Some(p) => p.is_tag_name(EId::Filter),
+        None => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 98d0fa5..93690f0 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -104,6 +104,34 @@ pub fn has_marker(node: &Node) -> bool {
     false
 }
 
+// Checks that an attribute is set on a 'use' element, or on its parents,
+// which is linked to the node or to its parents.
+pub fn is_set_by_use(node: &Node, aid: AId) -> bool {
+    let mut nodes = vec![node.clone()];
+    let mut i = 0;
+    while i < nodes.len() {
+        for p in nodes[i].clone().parents_with_self() {
+            if i != 0 {
+                if let Some(attr) = p.attributes().get(aid) {
+                    if attr.visible {
+                        return true;
+                    }
+                }
+            }
+
+            for n in p.linked_nodes() {
+                if n.is_tag_name(EId::Use) && !nodes.contains(&n) {
+                    nodes.push(n);
+                }
+            }
+        }
+
+        i += 1;
+    }
+
+    false
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From 08a2f3b3aa643c7e4ceb7c5bf8058a2523c4e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:20 +0000
Subject: [PATCH 35/49] fix: keep text attributes for instanced text, em/ex of
 a parent and lists

---
 src/task/rm_text_attrs.rs | 114 +++++++++++++++++++++++++++-----------
 1 file changed, 82 insertions(+), 32 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 9a439f9..87002ce 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -19,6 +19,7 @@
 use svgdom::{
     AttributeValue,
     Document,
+    Length,
     Node,
     NodeType,
 };
@@ -95,7 +96,7 @@ fn _remove_text_attributes(parent: &Node) -> bool {
 
         if node.has_children() {
             // Go deeper.
-            let can_rm = _remove_text_attributes(&node);
+            let can_rm = _remove_text_attributes(&node) && !has_em_ex_attributes(&node);
             if can_rm {
                 if !node.is_tag_name(EId::FontFace) {
                     node.remove_attributes(TEXT_ATTRIBUTES);
@@ -109,11 +110,11 @@ fn _remove_text_attributes(parent: &Node) -> bool {
             // Only this parameters affect parent elements.
             let _no_td = !(   node.descendants().any(|n| n.node_type() == NodeType::Text)
                            || node.is_tag_name(EId::Tref)
-                           || has_em_ex_attributes(&node));
+                           || has_em_ex_attributes(&node)
+                           || is_linked_text(&node));
 
             if    _no_td
-               && !node.is_tag_name(EId::FontFace)
-               && !is_linked_text(&node) {
+               && !node.is_tag_name(EId::FontFace) {
                 node.remove_attributes(TEXT_ATTRIBUTES);
             }
 
@@ -132,31 +133,68 @@ fn has_em_ex_attributes(node: &Node) -> bool {
     // NOTE: actually, em/ex can be set in not parsed attributes, which will be ignored,
     //       but it's probably near to impossible
 
+    let is_em_ex = |len: &Length| len.unit == Unit::Em || len.unit == Unit::Ex;
+
     let attrs = node.attributes();
     for attr in attrs.iter() {
-        if let AttributeValue::Length(ref len) = attr.value {
-            match len.unit {
-                Unit::Ex | Unit::Em => return true,
-                _ => {}
+        match attr.value {
+            AttributeValue::Length(ref len) => {
+                if is_em_ex(len) {
+                    return true;
+                }
             }
+            AttributeValue::LengthList(ref list) => {
+                if list.iter().any(|len| is_em_ex(len)) {
+                    return true;
+                }
+            }
+            _ => {}
         }
     }
 
     false
 }
 
+// Checks that the 'use' element is linked to an element with data
+// that depends on text attributes, which will be inherited from this 'use'.
 fn is_linked_text(node: &Node) -> bool {
+    let mut links = Vec::new();
+    links.extend(linked_element(node));
+
+    let mut i = 0;
+    while i < links.len() {
+        let link = links[i].clone();
+        for n in link.descendants() {
+            if    n.node_type() == NodeType::Text
+               || n.is_tag_name(EId::Tref)
+               || has_em_ex_attributes(&n) {
+                return true;
+            }
+
+            if let Some(link) = linked_element(&n) {
+                if !links.contains(&link) {
+                    links.push(link);
+                }
+            }
+        }
+
+        i += 1;
+    }
+
+    false
+}
+
+fn linked_element(node: &Node) -> Option<Node> {
     if node.is_tag_name(EId::Use) {
         // We use 'attributes()' method instead of 'attribute()',
         // because 'xlink:href' can contain base64 data, which will be expensive to copy.
         let attrs = node.attributes();
-        if let Some(value) = attrs.get_value(AId::XlinkHref) {
-            if let AttributeValue::Link(ref link) = *value {
-                return link.descendants().any(|n| n.node_type() == NodeType::Text);
-            }
+        if let Some(&AttributeValue::Link(ref link)) = attrs.get_value(AId::XlinkHref) {
+            return Some(link.clone());
         }
     }
-    false
+
+    None
 }
 
 // Remove xml:space=preserve.
@@ -186,29 +224,41 @@ fn _remove_xml_space(parent: &Node) {
             continue;
         }
 
-        if node.has_children() {
-            let mut has_spaces = false;
-            for child in node.descendants() {
-                if child.node_type() == NodeType::Text {
-                    if is_text_contains_spaces(&child) {
-                        has_spaces = true;
-                        break;
-                    }
-                }
-            }
+        // An element without children can have spaces too: 'tref' shows a text of other element
+        // and elements instanced by 'use' inherit attributes from it.
+        if !has_spaces(&node) {
+            node.remove_attribute(AId::XmlSpace);
+        }
 
-            if !has_spaces {
-                node.remove_attribute(AId::XmlSpace);
-            }
+        // Go deeper.
+        _remove_xml_space(&node);
+    }
+}
 
-            // Go deeper.
-            _remove_xml_space(&node);
-        } else {
-            // If element doesn't have children than xml:space is useless
-            // and we ca remove it.
-            node.remove_attribute(AId::XmlSpace);
+fn has_spaces(node: &Node) -> bool {
+    let mut nodes = vec![node.clone()];
+    let mut i = 0;
+    while i < nodes.len() {
+        let parent = nodes[i].clone();
+        for n in parent.descendants() {
+            if n.node_type() == NodeType::Text {
+                if is_text_contains_spaces(&n) {
+                    return true;
+                }
+            } else if n.is_tag_name(EId::Tref) {
+                // A text can be anywhere.
+                return true;
+            } else if let Some(link) = linked_element(&n) {
+                if !nodes.contains(&link) {
+                    nodes.push(link);
+                }
+            }
         }
+
+        i += 1;
     }
+
+    false
 }
 
 fn is_text_contains_spaces(text_node: &Node) -> bool {
-- 
2.43.0


From cf0e87dbd8bacc222b80710b1ec311313af8818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 36/49] fix: keep fill and stroke attributes that use instances
 or markers depend on

---
 src/task/rm_needless_attrs.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 184ce33..be80b45 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -27,6 +27,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: split to suboptions
 
@@ -148,8 +149,13 @@ fn is_basic_shapes_attr(a: &Attribute) -> bool {
     || a.has_id(AId::Transform)
 }
 
+// Checks that fill and stroke attributes of the node are not inherited by other elements.
+fn is_leaf(node: &Node) -> bool {
+    !node.has_children() && !node.is_tag_name(EId::Use)
+}
+
 fn process_fill(node: &mut Node) {
-    if !node.has_children() {
+    if is_leaf(node) {
         // If 'fill' is disabled we can remove fill-based attributes.
         let av = node.attributes().get_value(AId::Fill).cloned();
         if let Some(av) = av {
@@ -183,11 +189,6 @@ static STROKE_ATTRIBUTES: &'static [AId] = &[
 
 fn process_stroke(node: &mut Node) {
     fn is_invisible(node: &Node) -> bool {
-        // Skip nodes with marker, because it doesn't count opacity and stroke-width.
-        if node.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd]) {
-            return false;
-        }
-
         // The stroke will not be drawn if stoke-width is 0.
         if let Some(v) = node.attributes().get_value(AId::StrokeWidth) {
             if let AttributeValue::Length(l) = *v {
@@ -209,15 +210,19 @@ fn process_stroke(node: &mut Node) {
         false
     }
 
-    if !node.has_children() {
+    // Skip nodes with marker, because it doesn't count opacity and stroke
+    // and its size depends on stroke-width.
+    if is_leaf(node) && !utils::has_marker(node) {
         if is_invisible(node) {
             // Remove all stroke-based attributes if stroke is invisible.
             node.remove_attribute(AId::Stroke);
             node.remove_attributes(STROKE_ATTRIBUTES);
 
-            // If the parent element defines stroke - we must mark current element
-            // with 'none' stroke.
-            if let Some(n) = node.parents().find(|n| n.has_attribute(AId::Stroke)) {
+            // If the parent element, or a linked 'use', defines stroke -
+            // we must mark current element with 'none' stroke.
+            if utils::is_set_by_use(node, AId::Stroke) {
+                node.set_attribute((AId::Stroke, ValueId::None));
+            } else if let Some(n) = node.parents().find(|n| n.has_attribute(AId::Stroke)) {
                 let value = n.attributes().get_value(AId::Stroke).cloned().unwrap();
                 if value != AttributeValue::PredefValue(ValueId::None) {
                     node.set_attribute((AId::Stroke, ValueId::None));
@@ -231,9 +236,10 @@ fn process_stroke(node: &mut Node) {
                     // if the stroke is 'none'.
                     node.remove_attributes(STROKE_ATTRIBUTES);
 
-                    // If the parent element doesn't define 'stroke' - we can remove it
-                    // from the current element.
-                    if node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none() {
+                    // If the parent element, or a linked 'use', doesn't define 'stroke' -
+                    // we can remove it from the current element.
+                    if    node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none()
+                       && !utils::is_set_by_use(node, AId::Stroke) {
                         node.remove_attribute(AId::Stroke);
                     }
                 }
-- 
2.43.0


From bd46c3cd4a822e0901096629377d235e4573f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:55 +0000
Subject: [PATCH 37/49] fix: keep percent ry and the focus of gradients linked
 through other gradients

---
 src/task/rm_unused_coords.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_unused_coords.rs b/src/task/rm_unused_coords.rs
index 18d063a..6a807d5 100644
--- a/src/task/rm_unused_coords.rs
+++ b/src/task/rm_unused_coords.rs
@@ -19,9 +19,10 @@
 use svgdom::{
     AttributeValue,
     Document,
+    ElementType,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 pub fn remove_unused_coordinates(doc: &Document) {
     let mut rm_list = Vec::with_capacity(16);
@@ -47,7 +48,15 @@ pub fn remove_unused_coordinates(doc: &Document) {
                 EId::Rect => {
                     // If 'rx' equals to 'ry', than we can remove 'ry'.
                     // https://www.w3.org/TR/SVG/shapes.html#RectElementRYAttribute
-                    if attrs.contains(AId::Rx) {
+                    //
+                    // Percentages are not equal: 'rx' refers to the width
+                    // and 'ry' to the height of the viewport.
+                    let is_percent = match attrs.get_value(AId::Rx) {
+                        Some(&AttributeValue::Length(len)) => len.unit == Unit::Percent,
+                        _ => false,
+                    };
+
+                    if attrs.contains(AId::Rx) && !is_percent {
                         if attrs.get_value(AId::Rx) == attrs.get_value(AId::Ry) {
                             rm_list.push(AId::Ry);
                         }
@@ -60,9 +69,10 @@ pub fn remove_unused_coordinates(doc: &Document) {
                     // in resolve_attrs::radial_gradients.
 
                     // Process only 'radialGradient' which is not linked
+                    // to the other gradient, since a 'linearGradient' can link
                     // to the other 'radialGradient'.
                     if let Some(&AttributeValue::Link(ref link)) = attrs.get_value(AId::XlinkHref) {
-                        if link.is_tag_name(EId::RadialGradient) {
+                        if link.is_gradient() {
                             continue;
                         }
                     }
@@ -74,9 +84,10 @@ pub fn remove_unused_coordinates(doc: &Document) {
                             if attrs.contains($f) && attrs.contains($c) {
                                 if attrs.get_value($f).unwrap() == attrs.get_value($c).unwrap() {
                                     // We can remove 'fx'/'fy' only if this element is not used
-                                    // by any 'radialGradient'.
+                                    // by any gradient, since a 'radialGradient' inherits 'fx'/'fy'
+                                    // through a 'linearGradient' too.
                                     let c = node.linked_nodes()
-                                                .filter(|n| n.is_tag_name(EId::RadialGradient))
+                                                .filter(|n| n.is_gradient())
                                                 .count();
 
                                     if c == 0 {
-- 
2.43.0


From 47bf396d1060f279f9cb465f31f8e6bcb46535bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 38/49] fix: write units and no empty style when joining style
 attributes

---
 src/task/join_style_attrs.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 1d2cbd6..c94c0e5 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -18,12 +18,13 @@
 
 use svgdom::{
     AttributeType,
+    AttributeValue,
     Document,
     WriteBuffer,
     WriteOptions,
 };
 
-use task::short::AId;
+use task::short::{AId, Unit};
 use options::StyleJoinMode;
 
 pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOptions) {
@@ -41,7 +42,7 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
-        if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
+        if (mode == StyleJoinMode::Some && count > 5) || (mode == StyleJoinMode::All && count > 0) {
             let mut attrs = node.attributes_mut();
             let mut ids = Vec::new();
             let mut style = Vec::new();
@@ -52,7 +53,16 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
                 style.extend_from_slice(aid.name().as_bytes());
                 style.push(b':');
-                attr.value.write_buf_opt(opt, &mut style);
+                match attr.value {
+                    // In a style, lengths of properties defined in CSS 2 must have a unit.
+                    // https://www.w3.org/TR/SVG11/types.html#DataTypeLength
+                    AttributeValue::Length(len)
+                        if is_css2_length(aid) && len.unit == Unit::None && len.num != 0.0 =>
+                    {
+                        AttributeValue::from((len.num, Unit::Px)).write_buf_opt(opt, &mut style);
+                    }
+                    _ => attr.value.write_buf_opt(opt, &mut style),
+                }
                 style.push(b';');
 
                 ids.push(aid);
@@ -72,6 +82,13 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
     }
 }
 
+fn is_css2_length(aid: AId) -> bool {
+    match aid {
+        AId::FontSize | AId::LetterSpacing | AId::WordSpacing => true,
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From dd55c4ec16a3ac5d05abc501593921883a9f93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 39/49] fix: keep xmlns:xlink while any xlink attribute is used

---
 src/task/final_fixes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/task/final_fixes.rs b/src/task/final_fixes.rs
index f024c04..7b8e72a 100644
--- a/src/task/final_fixes.rs
+++ b/src/task/final_fixes.rs
@@ -47,7 +47,10 @@ pub fn fix_xmlns_attribute(doc: &Document, rm_unused: bool) {
             break;
         }
 
-        if node.has_attribute(AId::XlinkHref) {
+        // Not only 'xlink:href' needs the prefix.
+        let xlink = &[AId::XlinkActuate, AId::XlinkArcrole, AId::XlinkHref, AId::XlinkRole,
+                      AId::XlinkShow, AId::XlinkTitle, AId::XlinkType];
+        if xlink.iter().any(|aid| node.has_attribute(*aid)) {
             has_links = true;
             break;
         }
-- 
2.43.0


From b53e0a7fbfe34e83c30ecb8bb60d7e53d1ab8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:48 +0000
Subject: [PATCH 40/49] fix: move only properties that mean the same on the
 group

---
 src/task/group_by_style.rs | 81 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 79 insertions(+), 2 deletions(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index e584f43..37a7719 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -26,7 +26,9 @@ use svgdom::{
     AttributeValue,
     Document,
     Indent,
+    LengthUnit,
     Node,
+    ValueId,
     WriteOptions,
 };
 
@@ -429,7 +431,15 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 if !super::apply_transforms::utils::is_valid_attrs(parent) {
                     continue;
                 }
-            } else if !attr.is_inheritable() {
+
+                // A nested 'svg' doesn't support 'transform'.
+                if node_list.iter().any(|n| n.is_tag_name(EId::Svg)) {
+                    continue;
+                }
+            } else if !attr.is_inheritable() || is_relative(attr) {
+                continue;
+            } else if is_font(aid) && node_list.iter().any(has_ex_font_size) {
+                // 'ex' refers to the parent's font.
                 continue;
             }
 
@@ -471,7 +481,7 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
         // If parent node is 'g' - use it,
         // it not - create new one.
         let is_valid_parent = parent.is_tag_name(EId::Svg) || parent.is_tag_name(EId::G);
-        let mut g_node = if is_valid_parent && is_all_children {
+        let mut g_node = if is_valid_parent && is_all_children && can_accept(parent, &table.d[0].attributes) {
             parent.clone()
         } else {
             let g_node = parent.document().create_element(EId::G);
@@ -531,6 +541,73 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     // </g>
 }
 
+// Checks that an attribute value depends on a font of the element.
+fn is_relative(attr: &Attribute) -> bool {
+    let is_relative_unit = |unit| unit == LengthUnit::Em || unit == LengthUnit::Ex;
+
+    match attr.value {
+        AttributeValue::Length(len) => {
+            is_relative_unit(len.unit)
+                || (attr.has_id(AId::FontSize) && len.unit == LengthUnit::Percent)
+        }
+        AttributeValue::LengthList(ref list) => list.iter().any(|len| is_relative_unit(len.unit)),
+        AttributeValue::PredefValue(id) => match id {
+              ValueId::Larger
+            | ValueId::Smaller
+            | ValueId::Bolder
+            | ValueId::Lighter
+            | ValueId::Wider
+            | ValueId::Narrower => true,
+            _ => false,
+        },
+        _ => false,
+    }
+}
+
+fn is_font(aid: AId) -> bool {
+    match aid {
+          AId::Font
+        | AId::FontFamily
+        | AId::FontSize
+        | AId::FontSizeAdjust
+        | AId::FontStretch
+        | AId::FontStyle
+        | AId::FontVariant
+        | AId::FontWeight => true,
+        _ => false,
+    }
+}
+
+fn has_ex_font_size(node: &Node) -> bool {
+    match node.attributes().get_value(AId::FontSize) {
+        Some(&AttributeValue::Length(len)) => len.unit == LengthUnit::Ex,
+        _ => false,
+    }
+}
+
+// Checks that attributes can be moved to an existing parent.
+fn can_accept(parent: &Node, attributes: &[Attribute]) -> bool {
+    for attr in attributes {
+        match attr.id() {
+            Some(AId::Transform) => {
+                // A nested 'svg' doesn't support 'transform'.
+                if parent.is_tag_name(EId::Svg) && parent.parents().any(|p| p.is_tag_name(EId::Svg)) {
+                    return false;
+                }
+            }
+            Some(aid) if is_font(aid) => {
+                // Parent's own values depend on its font.
+                if parent.attributes().iter().any(is_relative) {
+                    return false;
+                }
+            }
+            _ => {}
+        }
+    }
+
+    true
+}
+
 fn move_nodes(attributes: &[Attribute], g_node: &mut Node, node_list: &mut [Node], range: Range<usize>) {
     let attr_ids: Vec<AId> = attributes.iter().map(|a| a.id().unwrap()).collect();
 
-- 
2.43.0


From d80130de95bbfedb6af8ea07738f52d0dede9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 41/49] fix: do not ungroup a group with properties its child
 depends on

---
 src/task/group_by_style.rs | 39 +------------------------------------
 src/task/ungroup_groups.rs | 36 +++++++++++++++++++++++++++++++++-
 src/task/utils.rs          | 40 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 76 insertions(+), 39 deletions(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 37a7719..a759716 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -28,11 +28,11 @@ use svgdom::{
     Indent,
     LengthUnit,
     Node,
-    ValueId,
     WriteOptions,
 };
 
 use task::short::{EId, AId};
+use task::utils::{is_font, is_relative};
 
 // TODO: optimize, since Table is basically Vec<(Vec,Vec)>, which is not very efficient
 struct Table {
@@ -541,43 +541,6 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     // </g>
 }
 
-// Checks that an attribute value depends on a font of the element.
-fn is_relative(attr: &Attribute) -> bool {
-    let is_relative_unit = |unit| unit == LengthUnit::Em || unit == LengthUnit::Ex;
-
-    match attr.value {
-        AttributeValue::Length(len) => {
-            is_relative_unit(len.unit)
-                || (attr.has_id(AId::FontSize) && len.unit == LengthUnit::Percent)
-        }
-        AttributeValue::LengthList(ref list) => list.iter().any(|len| is_relative_unit(len.unit)),
-        AttributeValue::PredefValue(id) => match id {
-              ValueId::Larger
-            | ValueId::Smaller
-            | ValueId::Bolder
-            | ValueId::Lighter
-            | ValueId::Wider
-            | ValueId::Narrower => true,
-            _ => false,
-        },
-        _ => false,
-    }
-}
-
-fn is_font(aid: AId) -> bool {
-    match aid {
-          AId::Font
-        | AId::FontFamily
-        | AId::FontSize
-        | AId::FontSizeAdjust
-        | AId::FontStretch
-        | AId::FontStyle
-        | AId::FontVariant
-        | AId::FontWeight => true,
-        _ => false,
-    }
-}
-
 fn has_ex_font_size(node: &Node) -> bool {
     match node.attributes().get_value(AId::FontSize) {
         Some(&AttributeValue::Length(len)) => len.unit == LengthUnit::Ex,
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 0e839f8..e1b3f0c 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
     AttributeValue,
     Document,
@@ -26,6 +27,7 @@ use svgdom::{
 
 use task::short::{EId, AId};
 use task::apply_transforms;
+use task::utils::{is_font, is_relative};
 use options::CleaningOptions;
 
 pub fn ungroup_groups(doc: &Document, opt: &CleaningOptions) {
@@ -105,7 +107,7 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     if g.children().count() == 1 {
         let child = g.first_child().unwrap();
         // TODO: why child shouldn't be used?
-        if !child.is_used() {
+        if !child.is_used() && !has_dependent_attributes(g, &child) {
             // Group with only one child and neither group or child is used.
             return true;
         }
@@ -142,6 +144,30 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     false
 }
 
+// Checks that some attribute would get a different meaning, when attributes of a group
+// and of its child will be set on the same element.
+fn has_dependent_attributes(g: &Node, child: &Node) -> bool {
+    let is_font_attr = |attr: &Attribute| attr.id().map_or(false, is_font);
+
+    let g_attrs = g.attributes();
+    let child_attrs = child.attributes();
+
+    // Text decorations of a group and of a child are rendered together.
+    if g_attrs.contains(AId::TextDecoration) && child_attrs.contains(AId::TextDecoration) {
+        return true;
+    }
+
+    // A relative font property of a child refers to a font of the group.
+    if g_attrs.iter().any(is_font_attr)
+        && child_attrs.iter().any(|attr| is_font_attr(attr) && is_relative(attr)) {
+        return true;
+    }
+
+    // A relative length of a group refers to a font of the group.
+    child_attrs.iter().any(is_font_attr)
+        && g_attrs.iter().any(|attr| !is_font_attr(attr) && is_relative(attr))
+}
+
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
         // Other attributes, like 'x', have no effect on 'g', but can affect a child.
@@ -149,6 +175,14 @@ fn ungroup_group(g: &mut Node) {
             continue;
         }
 
+        // Other non-inheritable attributes have no effect on 'g' too.
+        if attr.is_presentation() && !attr.is_inheritable() {
+            match aid {
+                AId::Display | AId::Opacity | AId::TextDecoration | AId::Visibility => {}
+                _ => continue,
+            }
+        }
+
         for (_, mut child) in g.children().svg() {
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 93690f0..f9a4e1f 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -17,9 +17,12 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeValue,
     FuzzyEq,
+    LengthUnit,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId};
@@ -104,6 +107,43 @@ pub fn has_marker(node: &Node) -> bool {
     false
 }
 
+// Checks that an attribute value depends on a font of the element.
+pub fn is_relative(attr: &Attribute) -> bool {
+    let is_relative_unit = |unit| unit == LengthUnit::Em || unit == LengthUnit::Ex;
+
+    match attr.value {
+        AttributeValue::Length(len) => {
+            is_relative_unit(len.unit)
+                || (attr.has_id(AId::FontSize) && len.unit == LengthUnit::Percent)
+        }
+        AttributeValue::LengthList(ref list) => list.iter().any(|len| is_relative_unit(len.unit)),
+        AttributeValue::PredefValue(id) => match id {
+              ValueId::Larger
+            | ValueId::Smaller
+            | ValueId::Bolder
+            | ValueId::Lighter
+            | ValueId::Wider
+            | ValueId::Narrower => true,
+            _ => false,
+        },
+        _ => false,
+    }
+}
+
+pub fn is_font(aid: AId) -> bool {
+    match aid {
+          AId::Font
+        | AId::FontFamily
+        | AId::FontSize
+        | AId::FontSizeAdjust
+        | AId::FontStretch
+        | AId::FontStyle
+        | AId::FontVariant
+        | AId::FontWeight => true,
+        _ => false,
+    }
+}
+
 // Checks that an attribute is set on a 'use' element, or on its parents,
 // which is linked to the node or to its parents.
 pub fn is_set_by_use(node: &Node, aid: AId) -> bool {
-- 
2.43.0


From 36d6c1c1f785264aad50e327ea88efea90949fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 42/49] fix: keep subpaths that are drawn as dots

---
 src/task/paths/mod.rs       | 14 +++++++++---
 src/task/paths/rm_unused.rs | 44 +++++++++++++++++++++++++++++++++++++
 src/task/utils.rs           | 23 +++++++++++++++++--
 3 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index c8840e4..ef0fe5f 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -38,6 +38,7 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         //
         // TODO: do not remove first segment if node has marker
         let has_marker = ::task::utils::has_marker(&node);
+        let has_linecap = ::task::utils::has_dot_linecap(&node);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
@@ -63,12 +64,18 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
 
         let mut attrs = node.attributes_mut();
         if let Some(&mut AttributeValue::Path(ref mut path)) = attrs.get_value_mut(AId::D) {
-            process_path(path, has_marker, ts, opt);
+            process_path(path, has_marker, has_linecap, ts, opt);
         }
     }
 }
 
-fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &CleaningOptions) {
+fn process_path(
+    path: &mut Path,
+    has_marker: bool,
+    has_linecap: bool,
+    ts: Option<Transform>,
+    opt: &CleaningOptions,
+) {
     if path.d.is_empty() {
         return;
     }
@@ -88,7 +95,8 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
         conv_segments::convert_segments(path);
     }
 
-    if opt.remove_unused_segments && !has_marker {
+    let keep_segments = has_marker || (has_linecap && rm_unused::has_dots(path));
+    if opt.remove_unused_segments && !keep_segments {
         rm_unused::remove_unused_segments(path);
 
         if path.d.is_empty() {
diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index 26b91cb..cf25ecc 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -53,6 +53,50 @@ pub fn remove_unused_segments(path: &mut Path) {
     }
 }
 
+// Checks that path has a subpath without a length.
+//
+// It will be rendered as a dot when 'stroke-linecap' is 'round' or 'square'.
+pub fn has_dots(path: &Path) -> bool {
+    let mut is_dot = false;
+    let mut has_length = false;
+    let (mut mx, mut my) = (0.0, 0.0);
+
+    for seg in &path.d {
+        match seg.cmd() {
+            Command::MoveTo => {
+                if is_dot {
+                    return true;
+                }
+
+                has_length = false;
+                mx = seg.x().unwrap();
+                my = seg.y().unwrap();
+            }
+            Command::ClosePath => {
+                if !has_length {
+                    return true;
+                }
+
+                has_length = false;
+                is_dot = false;
+            }
+            Command::LineTo => {
+                if !(seg.x().unwrap().fuzzy_eq(&mx) && seg.y().unwrap().fuzzy_eq(&my)) {
+                    has_length = true;
+                }
+
+                is_dot = !has_length;
+            }
+            _ => {
+                has_length = true;
+                is_dot = false;
+            }
+        }
+    }
+
+    is_dot
+}
+
 #[derive(Clone,Copy)]
 enum DrainMode {
     Single,
diff --git a/src/task/utils.rs b/src/task/utils.rs
index f9a4e1f..f56ae7e 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -85,12 +85,31 @@ fn recalc_stroke_dasharray(node: &mut Node, scale_factor: f64) {
 // Markers are inheritable, so we have to check parent elements
 // and 'use' elements which are linked to the node or to its parents too.
 pub fn has_marker(node: &Node) -> bool {
+    has_inherited(node, |p| p.has_attributes(&[AId::Marker, AId::MarkerStart,
+                                               AId::MarkerMid, AId::MarkerEnd]))
+}
+
+// Checks that the node can be stroked with 'stroke-linecap',
+// which renders a subpath without a length as a dot.
+pub fn has_dot_linecap(node: &Node) -> bool {
+    has_inherited(node, |p| {
+        let attrs = p.attributes();
+        match attrs.get_value(AId::StrokeLinecap) {
+            Some(v) => *v != AttributeValue::PredefValue(ValueId::Butt),
+            None => false,
+        }
+    })
+}
+
+// Checks the node, its parents and 'use' elements which are linked to them.
+fn has_inherited<F>(node: &Node, f: F) -> bool
+    where F: Fn(&Node) -> bool
+{
     let mut nodes = vec![node.clone()];
     let mut i = 0;
     while i < nodes.len() {
         for p in nodes[i].clone().parents_with_self() {
-            if p.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                  AId::MarkerMid, AId::MarkerEnd]) {
+            if f(&p) {
                 return true;
             }
 
-- 
2.43.0


From 2a086a838f67fe2deff63ad06b59251bf09f5c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 43/49] fix: content of a 'symbol' doesn't inherit from
 ancestors of the 'symbol'

---
 src/task/group_defs.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 1cd07b7..cb29eb2 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -118,7 +118,6 @@ fn resolve_attrs(node: &Node) {
         | EId::Marker
         | EId::Mask
         | EId::Pattern
-        | EId::Symbol
         | EId::Filter => {
             let is_filter = node.is_tag_name(EId::Filter);
 
-- 
2.43.0


From 52e8a46bff71142d90ba4fec230a23ab956f8228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 44/49] fix: keep definitions with relative values in place

---
 src/task/group_defs.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index cb29eb2..abfd7ab 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::{AId, EId};
+use task::utils::is_relative;
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -44,9 +45,19 @@ pub fn group_defs(doc: &mut Document) {
            defs.parent() != Some(svg.clone())
         || defs.attributes().iter().any(|a| is_inheritable(a));
 
+    let is_moved = |node: &Node| {
+        node.is_referenced() && (is_resolve_defs || node.parent() != Some(defs.clone()))
+    };
+
+    // Relative values can't be resolved, so we have to keep everything as is.
+    if doc.descendants().any(|n| is_moved(&n) && has_relative_attrs(&n, &svg)) {
+        svg.prepend(&doc.create_element(EId::Defs));
+        return;
+    }
+
     for (_, node) in doc.descendants().svg() {
-        if node.is_referenced() && (is_resolve_defs || node.parent() != Some(defs.clone())) {
-            resolve_attrs(&node);
+        if is_moved(&node) {
+            resolve_attrs(&node, &svg);
         }
     }
 
@@ -112,7 +123,9 @@ pub fn group_defs(doc: &mut Document) {
 
 // Graphical elements inside referenced elements inherits parent attributes,
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
-fn resolve_attrs(node: &Node) {
+//
+// Except the 'symbol' element, which inherits attributes of the 'use' element.
+fn resolve_attrs(node: &Node, svg: &Node) {
     match node.tag_id().unwrap() {
           EId::ClipPath
         | EId::Marker
@@ -123,6 +136,11 @@ fn resolve_attrs(node: &Node) {
 
             let mut parent = Some(node.clone());
             while let Some(p) = parent {
+                // Attributes of the 'svg' will be inherited anyway.
+                if p == *svg {
+                    break;
+                }
+
                 let attrs = p.attributes();
                 for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| is_inheritable(a)) {
                     // The only attribute that affects filter primitives.
@@ -146,6 +164,18 @@ fn resolve_attrs(node: &Node) {
     }
 }
 
+// Checks that an element, or its children, depend on values that are relative to parents.
+fn has_relative_attrs(node: &Node, svg: &Node) -> bool {
+    if node.is_gradient() || node.is_tag_name(EId::Filter) || node.is_tag_name(EId::Symbol) {
+        return false;
+    }
+
+       node.attributes().iter().any(|a| is_relative(a))
+    || node.parents().take_while(|p| p != svg)
+           .chain(node.children())
+           .any(|n| n.attributes().iter().any(|a| is_inheritable(a) && is_relative(a)))
+}
+
 // 'visibility' is inheritable too, despite the fact that `svgdom` thinks otherwise.
 fn is_inheritable(attr: &Attribute) -> bool {
     attr.is_inheritable() || attr.has_id(AId::Visibility)
-- 
2.43.0


From cfaf59c21a77d942ec46879f774d9efbbaf9556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:19 +0000
Subject: [PATCH 45/49] fix: keep 'defs' with attributes that its children
 inherit

---
 src/task/group_defs.rs   | 2 +-
 src/task/ungroup_defs.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index abfd7ab..9f5d095 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -177,7 +177,7 @@ fn has_relative_attrs(node: &Node, svg: &Node) -> bool {
 }
 
 // 'visibility' is inheritable too, despite the fact that `svgdom` thinks otherwise.
-fn is_inheritable(attr: &Attribute) -> bool {
+pub fn is_inheritable(attr: &Attribute) -> bool {
     attr.is_inheritable() || attr.has_id(AId::Visibility)
 }
 
diff --git a/src/task/ungroup_defs.rs b/src/task/ungroup_defs.rs
index 3048781..7dd3dec 100644
--- a/src/task/ungroup_defs.rs
+++ b/src/task/ungroup_defs.rs
@@ -23,10 +23,12 @@ use svgdom::{
 };
 
 use task::short::EId;
+use super::group_defs::is_inheritable;
 
 pub fn ungroup_defs(doc: &Document) {
     for mut node in doc.descendants().filter(|n| n.is_tag_name(EId::Defs)) {
-        let mut is_valid = true;
+        // Children can inherit attributes of the 'defs'.
+        let mut is_valid = !node.attributes().iter().any(|a| is_inheritable(a));
         for child in node.children() {
             if !child.is_referenced() {
                 is_valid = false;
-- 
2.43.0


From 6f0aa3ef25a642a61b372c7aa0c20def7caa185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:31 +0000
Subject: [PATCH 46/49] fix: resolve 'inherit' and 'currentColor' on elements
 that are used by 'use'

---
 src/task/resolve_inherit.rs | 73 +++++++++++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 12 deletions(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index aa13dae..5ba87d1 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -17,13 +17,18 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeId,
     AttributeValue,
     Document,
+    ElementId,
     Node,
     ValueId,
 };
 
+use super::group_defs::is_inheritable;
+use task::utils::is_relative;
+
 use error::{
     ErrorKind,
     Result,
@@ -45,7 +50,7 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
                 if let AttributeValue::PredefValue(ref v) = attr.value {
                     match *v {
                         ValueId::Inherit => {
-                            vec_inherit.push(aid);
+                            vec_inherit.push((aid, is_inheritable(attr)));
                         }
                         ValueId::CurrentColor => {
                             vec_curr_color.push(aid);
@@ -56,8 +61,8 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
             }
         }
 
-        for id in &vec_inherit {
-            resolve_impl(&mut node, *id, *id)?;
+        for &(id, is_inheritable) in &vec_inherit {
+            resolve_impl(&mut node, id, id, is_inheritable)?;
         }
 
         for id in &vec_curr_color {
@@ -65,7 +70,7 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
             if let Some(av) = av {
                 node.set_attribute((*id, av.clone()));
             } else {
-                resolve_impl(&mut node, *id, AttributeId::Color)?;
+                resolve_impl(&mut node, *id, AttributeId::Color, true)?;
             }
         }
     }
@@ -73,17 +78,61 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
     Ok(())
 }
 
-fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
-    if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
-        let av = n.attributes().get_value(parent_attr).cloned();
-        if let Some(av) = av {
-            node.set_attribute((curr_attr, av.clone()));
+fn resolve_impl(
+    node: &mut Node,
+    curr_attr: AttributeId,
+    parent_attr: AttributeId,
+    is_inheritable: bool,
+) -> Result<()> {
+    let attrs = find_attributes(node, parent_attr, is_inheritable);
+
+    if let Some(ref attr) = attrs[0] {
+        let is_same = attrs.iter().all(|a| a.as_ref().map(|a| &a.value) == Some(&attr.value));
+
+        if is_same && !(is_inheritable && is_relative(attr)) {
+            node.set_attribute((curr_attr, attr.value.clone()));
+            return Ok(());
+        }
+
+        // The value depends on a place where the element is used,
+        // so we can only rely on an implicit inheritance.
+        if is_inheritable && curr_attr == parent_attr {
+            node.remove_attribute(curr_attr);
+            return Ok(());
+        }
+    }
+
+    Err(ErrorKind::UnresolvedAttribute(curr_attr.to_string()).into())
+}
+
+// Finds an attribute that will be inherited from parents
+// and attributes that will be inherited from 'use' elements.
+fn find_attributes(node: &Node, aid: AttributeId, is_inheritable: bool) -> Vec<Option<Attribute>> {
+    let mut attrs = Vec::new();
+    let mut nodes = vec![node.clone()];
+    let mut i = 0;
+    while i < nodes.len() {
+        let mut attr = None;
+        for p in nodes[i].clone().parents_with_self() {
+            if p != *node {
+                attr = p.attributes().get(aid).cloned();
+                if attr.is_some() || !is_inheritable {
+                    break;
+                }
+            }
+
+            for n in p.linked_nodes() {
+                if n.is_tag_name(ElementId::Use) && !nodes.contains(&n) {
+                    nodes.push(n);
+                }
+            }
         }
 
-        Ok(())
-    } else {
-        Err(ErrorKind::UnresolvedAttribute(curr_attr.to_string()).into())
+        attrs.push(attr);
+        i += 1;
     }
+
+    attrs
 }
 
 #[cfg(test)]
-- 
2.43.0


From f047ce4a168ef871d927b5f6f86db3b5a07a54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:00 +0000
Subject: [PATCH 47/49] fix: effects of a 'use' are not moved to an element
 with a transform or other effects

---
 src/task/resolve_use.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index a28d867..7394307 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -125,6 +125,16 @@ fn is_attrs_conflict(node: &Node, link: &Node) -> bool {
             AId::XlinkHref => false,
             // Will be merged into 'transform'.
             AId::X | AId::Y => link_attrs.contains(AId::Transform),
+            // Will be applied in a different coordinate system.
+            AId::ClipPath | AId::Mask => {
+                link_attrs.contains(aid) || link_attrs.contains(AId::Transform)
+            }
+            // Will also be applied before, and not after, other effects of a linked element.
+            AId::Filter => {
+                let effects = &[AId::Filter, AId::ClipPath, AId::Mask, AId::Opacity,
+                                AId::Transform];
+                effects.iter().any(|aid| link_attrs.contains(*aid))
+            }
             // Have no effect on a linked element unless it's an 'svg' or a 'symbol'.
             AId::Width | AId::Height => true,
             _ => link_attrs.contains(aid),
-- 
2.43.0


From 880ae04c35809a46145040dbdd04af966538746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:00 +0000
Subject: [PATCH 48/49] fix: do not move a transform of a 'use' to a nested svg

---
 src/task/resolve_use.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 7394307..c23ddd0 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -45,7 +45,8 @@ pub fn resolve_use(doc: &Document) {
                 }
 
                 // 'symbol' elements can't be simply replaced.
-                if link.is_tag_name(EId::Symbol) {
+                // And 'svg' elements can't have a transform.
+                if link.is_tag_name(EId::Symbol) || link.is_tag_name(EId::Svg) {
                     continue;
                 }
 
-- 
2.43.0


From 45ccbdaec38f384def8232770de55b7549ca1196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:08 +0000
Subject: [PATCH 49/49] fix: do not hang on gradients that are painted with
 each other

---
 src/task/resolve_gradients.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 04b0b1f..a0cef94 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -169,7 +169,7 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
             }
 
             let c = node.linked_nodes().filter(|n| {
-                n.is_tag_name(eid) && !order.iter().any(|on| on == n)
+                n.is_tag_name(eid) && is_inherited_from(n, node) && !order.iter().any(|on| on == n)
             }).count();
 
             if c == 0 {
@@ -181,6 +181,14 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
     order
 }
 
+// Only 'xlink:href' is inheriting attributes. Gradients can be linked via 'fill' too.
+fn is_inherited_from(node: &Node, parent: &Node) -> bool {
+    match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => link == parent,
+        _ => false,
+    }
+}
+
 fn check_attr(node: &mut Node, id: AId, def_value: Option<AttributeValue>) {
     if !node.has_attribute(id) {
         if let Some(v) = resolve_attribute(node, id, def_value) {
-- 
2.43.0

