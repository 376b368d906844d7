From 62543168e7e64500b9a69ad05dde537000194d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 1/4] fix: keep format-string attributes that name the default
 color or intensity

An explicit fg=default, bg=default or normal was dropped because the
difference was computed relative to the default style, so it failed to
override the style of an enclosing value.
---
 macros/src/format.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 896a3eb..60af797 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -9,7 +9,7 @@ use nom::{
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
-use stylish_style::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
+use stylish_style::{Color, Intensity, StyleDiff};
 
 fn identifier(input: &str) -> IResult<&str, &str> {
     recognize(pair(
@@ -48,19 +48,25 @@ impl<'a> Parse<'a> for Intensity {
     }
 }
 
-impl<'a> Parse<'a> for Box<dyn Restyle> {
-    #[allow(trivial_casts)]
+#[derive(Debug, Clone, Copy)]
+enum Attribute {
+    Foreground(Color),
+    Background(Color),
+    Intensity(Intensity),
+}
+
+impl<'a> Parse<'a> for Attribute {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(
                 preceded(tag("fg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Foreground(color)) as _,
+                Self::Foreground,
             ),
             map(
                 preceded(tag("bg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Background(color)) as _,
+                Self::Background,
             ),
-            map(Intensity::parse, |intensity| Box::new(intensity) as _),
+            map(Intensity::parse, Self::Intensity),
         ))(input)
     }
 }
@@ -70,11 +76,19 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(<Box<dyn Restyle>>::parse)),
-            |restyles| {
-                Style::default()
-                    .with(restyles.as_slice())
-                    .diff_from(Style::default())
+            separated_list0(tag(","), cut(Attribute::parse)),
+            |attributes| {
+                // Not computed relative to the default style, attributes explicitly set to
+                // their default must still override the enclosing style
+                let mut diff = Self::default();
+                for attribute in attributes {
+                    match attribute {
+                        Attribute::Foreground(color) => diff.foreground = Some(color),
+                        Attribute::Background(color) => diff.background = Some(color),
+                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
+                    }
+                }
+                diff
             },
         )(input)
     }
-- 
2.43.0


From da9bb63265d144f24c654d2f4b3a31bf7e26148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 2/4] fix: accept empty attribute lists and trailing commas in
 format strings

Both are part of the grammar documented in the README but made the macros
panic.
---
 macros/src/format.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 60af797..37ccd4b 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
-    multi::{many0, many1, separated_list0},
+    multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
@@ -76,12 +76,15 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(Attribute::parse)),
+            opt(terminated(
+                separated_list1(tag(","), Attribute::parse),
+                opt(tag(",")),
+            )),
             |attributes| {
                 // Not computed relative to the default style, attributes explicitly set to
                 // their default must still override the enclosing style
                 let mut diff = Self::default();
-                for attribute in attributes {
+                for attribute in attributes.into_iter().flatten() {
                     match attribute {
                         Attribute::Foreground(color) => diff.foreground = Some(color),
                         Attribute::Background(color) => diff.background = Some(color),
@@ -199,7 +202,10 @@ impl<'a> Parse<'a> for FormatSpec<'a> {
         let (input, zero) = opt(value(true, tag("0")))(input)?;
         let (input, width) = opt(Count::parse)(input)?;
         let (input, precision) = opt(preceded(tag("."), Count::parse))(input)?;
-        let (input, style) = opt(delimited(tag("("), cut(StyleDiff::parse), tag(")")))(input)?;
+        let (input, style) = opt(preceded(
+            tag("("),
+            cut(terminated(StyleDiff::parse, tag(")"))),
+        ))(input)?;
         let (input, debug_hex_and_format_trait) = opt(alt((
             value((None, FormatTrait::Debug), tag("?")),
             value((Some(DebugHex::Lower), FormatTrait::Debug), tag("x?")),
-- 
2.43.0


From b4a26a44e3b6136d4bc9d60ae78e2cb6f1b7f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 3/4] fix: turn the previous intensity off when switching
 between bold and faint

Terminals treat bold and faint as independent attributes, so bold text
following faint text (or the reverse) was shown both bold and faint.
---
 ansi/src/ansi.rs |  3 ++-
 ansi/src/io.rs   |  3 ++-
 ansi/src/util.rs | 13 ++++++++-----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/ansi/src/ansi.rs b/ansi/src/ansi.rs
index 899e015..6acef11 100644
--- a/ansi/src/ansi.rs
+++ b/ansi/src/ansi.rs
@@ -59,7 +59,8 @@ impl<T: fmt::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index d54e5be..f60db38 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -61,7 +61,8 @@ impl<T: std::io::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/util.rs b/ansi/src/util.rs
index fd7fbca..e4c4114 100644
--- a/ansi/src/util.rs
+++ b/ansi/src/util.rs
@@ -50,11 +50,14 @@ pub(crate) fn background(color: Color) -> &'static str {
     }
 }
 
-pub(crate) fn intensity(intensity: Intensity) -> &'static str {
-    match intensity {
-        Intensity::Bold => "1",
-        Intensity::Faint => "2",
-        Intensity::Normal => "22",
+pub(crate) fn intensity(from: Intensity, to: Intensity) -> &'static str {
+    match (from, to) {
+        // Bold and faint are independent on terminals, the old one must be turned off
+        (Intensity::Faint, Intensity::Bold) => "22;1",
+        (Intensity::Bold, Intensity::Faint) => "22;2",
+        (_, Intensity::Bold) => "1",
+        (_, Intensity::Faint) => "2",
+        (_, Intensity::Normal) => "22",
         _ => "22",
     }
 }
-- 
2.43.0


From 84b971c3685fd06028197c162087fa007d5f4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 4/4] fix: remember that a span was closed when opening the
 next one fails

A sink rejecting the opening tag made the next write or finish close the
previous span a second time.
---
 html/src/html.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/html/src/html.rs b/html/src/html.rs
index 8a5cabe..01fdd64 100644
--- a/html/src/html.rs
+++ b/html/src/html.rs
@@ -71,6 +71,8 @@ impl<T: fmt::Write> Write for Html<T> {
             if let Some(segment) = segments.next() {
                 if self.current != Style::default() {
                     self.inner.write_str("</span>")?;
+                    // In case opening the next span fails
+                    self.current = Style::default();
                 }
                 self.inner.write_str("<span style=")?;
                 self.inner.write_str(segment)?;
-- 
2.43.0

