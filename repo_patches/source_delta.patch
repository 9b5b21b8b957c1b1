From 37a3d85d434fa790cd21ff82f3f5d29adbdd9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 1/8] fix: check collisions for the first neighbor candidate
 too

`||` binds weaker than `&&`: the first candidate in each direction was taken
without checking for collisions, so routes passed through tables and, where
that made a route double back, the renderer panicked.
---
 src/layout.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 7e06e28..ce0a242 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -716,7 +716,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Up) && m.is_connectable(Orientation::Down) {
                         // Is nearest neighbor?
-                        if up.is_none() || up.unwrap().1.location().y < q.y && no_collision() {
+                        if (up.is_none() || up.unwrap().1.location().y < q.y)
+                            && no_collision()
+                        {
                             up.replace((b, m));
                         }
                     }
@@ -733,7 +735,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Down) && m.is_connectable(Orientation::Up) {
                         // Is nearest neighbor?
-                        if down.is_none() || down.unwrap().1.location().y > q.y && no_collision() {
+                        if (down.is_none() || down.unwrap().1.location().y > q.y)
+                            && no_collision()
+                        {
                             down.replace((b, m));
                         }
                     }
@@ -747,7 +751,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Left) && m.is_connectable(Orientation::Right) {
                         // Is nearest neighbor?
-                        if left.is_none() || left.unwrap().1.location().x < q.x && no_collision() {
+                        if (left.is_none() || left.unwrap().1.location().x < q.x)
+                            && no_collision()
+                        {
                             left.replace((b, m));
                         }
                     }
@@ -761,7 +767,8 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Right) && m.is_connectable(Orientation::Left) {
                         // Is nearest neighbor?
-                        if right.is_none() || right.unwrap().1.location().x > q.x && no_collision()
+                        if (right.is_none() || right.unwrap().1.location().x > q.x)
+                            && no_collision()
                         {
                             right.replace((b, m));
                         }
-- 
2.43.0


From 0f14ee7ffffd7f33747789fadb33cac3730f9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 2/8] fix: detect upward lines that cross a rectangle

A line whose first point is below the rectangle and whose second point is
above it (in a column of the rectangle) was taken for a line that is entirely
inside, so it was reported as not intersecting.
---
 src/geometry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a928e9b..e6407c8 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -238,7 +238,11 @@ impl Rect {
         let top = self.min_y();
         let bottom = self.max_y();
 
-        if x > left && (x + dx) < right && y > top && (y + dy) < bottom {
+        if x > left
+            && (x + dx) < right
+            && y.min(y + dy) > top
+            && y.max(y + dy) < bottom
+        {
             // Line is entirely inside the rectangle.
             return None;
         }
-- 
2.43.0


From 24cff4db804f7cbcf6e50a6e2981fffadc74fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 3/8] fix: give the view box of an empty module a valid height

Without any table the height was computed from `f32::MIN`.
---
 src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index ce0a242..979e33a 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -272,13 +272,13 @@ impl LayoutEngine for SimpleLayoutEngine {
         let child_id_vec = doc.body().children().collect::<Vec<_>>();
 
         let mut base_y = Self::ORIGIN.y;
-        let mut max_height = f32::MIN;
+        let mut max_height = 0.0f32;
 
         for (record_index, child_id) in child_id_vec.iter().copied().enumerate() {
             if record_index > 0 && (record_index % n_columns == 0) {
                 // Move to next row.
                 base_y += max_height + Self::RECORD_SPACE;
-                max_height = f32::MIN;
+                max_height = 0.0;
             }
 
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
-- 
2.43.0


From 36ec8a64af365a6d03b19b2292800879a4857a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 4/8] fix: start each layout from an empty route graph

The junctions and ports of a document laid out before stayed in the graph and
changed the routes of the next one, or made it panic.
---
 src/layout.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 979e33a..07c5d12 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -439,6 +439,9 @@ impl LayoutEngine for SimpleLayoutEngine {
         //
         // e. Add start/end terminal ports.
 
+        // Start from an empty graph: the engine may have been used for another document.
+        self.edge_route_graph = RouteGraph::new();
+
         // Place junction nodes at the four corner points around each shape node.
         let shape_junctions = self.edge_junction_nodes_around_shapes(&doc);
 
-- 
2.43.0


From aae2d5daafd00a7e1abe1f418e703a6b8fa76292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 5/8] fix: route relations whose ends share a port

The shortest path of a relation from a node to itself (or from a table to its
last row) was a single point, which the renderer refuses with a panic.
---
 src/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index 07c5d12..ec0b3fc 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -814,6 +814,11 @@ impl SimpleLayoutEngine {
                 let Some(src_node) = self.edge_route_graph.get_terminal_port(src.id()) else { continue };
                 let Some(dst_node) = self.edge_route_graph.get_terminal_port(dst.id()) else { continue };
 
+                if src_node == dst_node {
+                    // Both ends share this port: a path needs two different ports.
+                    continue;
+                }
+
                 let (c, p) = self.compute_shortest_path(src_node, dst_node);
                 if c < cost {
                     path.replace(p);
-- 
2.43.0


From 698624a1bfee1bcd4c44e6be9f367caa459d41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 6/8] fix: escape names and types in SVG text

Quoted identifiers may contain any character; `<`, `&` and control characters
made the output malformed XML or changed the displayed text.
---
 src/renderer.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 6bf2c7f..7f0820c 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -216,6 +216,27 @@ impl Renderer for SVGRenderer<'_> {
     }
 }
 
+/// Escapes character data: `svg::node::Text` writes its content as it is.
+///
+/// Characters that XML 1.0 doesn't allow in a document, not even as a reference, are replaced by
+/// U+FFFD.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '\r' => escaped.push_str("&#13;"),
+            '\t' | '\n' | '\u{20}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}' => escaped.push(c),
+            _ => escaped.push('\u{FFFD}'),
+        }
+    }
+
+    escaped
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 enum SVGAnchor {
     Start,
@@ -245,7 +266,7 @@ impl SVGRenderer<'_> {
             .set("x", origin.x)
             .set("y", origin.y)
             .set("dominant-baseline", "middle")
-            .add(svg::node::Text::new(span.text.clone()));
+            .add(svg::node::Text::new(escape_text(&span.text)));
 
         if let Some(text_anchor) = text_anchor {
             label = label.set("text-anchor", text_anchor.text_anchor());
-- 
2.43.0


From 3b6cedb34fa0f4af52bd8a7fff2d3ed3170a0f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 7/8] fix: parse relations between entities

The grammar says `entity = identifier, [ ".", identifier ]`, but the parser
required the dot and made the identifier after it optional.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cde6fb7..cdcecd3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -194,7 +194,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
     ));
 
     let entity = ident
-        .then(just(Token::Ctrl('.')).ignore_then(ident.or_not()))
+        .then(just(Token::Ctrl('.')).ignore_then(ident).or_not())
         .map(|(table, field)| {
             if let Some(field) = field {
                 EntityPath::Field(table, field)
-- 
2.43.0


From 78f432b470b25e1c6b7cc024b5563025f4d6cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 8/8] fix: reporting errors of an empty source text panicked

ariadne's Source drops an empty last line, so an empty text has no line at
all and the end of the input, where the error is, could not be looked up.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14efe03..ae8ccfb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -32,6 +32,10 @@ fn main() -> Result<(), io::Error> {
         .chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))
         .collect::<Vec<_>>();
 
+    // The end of the input is a place errors are reported at, so it must be on a line.
+    // (`Source` drops an empty last line and has no line at all for an empty text.)
+    let source = format!("{}\n", src);
+
     // Report errors
     for e in errors {
         let filename = filename.as_str();
@@ -100,7 +104,7 @@ fn main() -> Result<(), io::Error> {
 
         report
             .finish()
-            .eprint((filename, Source::from(&src)))
+            .eprint((filename, Source::from(&source)))
             .unwrap();
     }
 
-- 
2.43.0

