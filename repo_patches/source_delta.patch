From fe346b19618250bec260095d2e49d5e9e272ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 01/26] fix: two failed comparisons compare as equal when
 sorting

---
 core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d0b519d..79c7489 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -770,6 +770,7 @@ pub fn sort_changes(diff: &mut TotalDiff) {
 impl TermDiff {
 	fn cmp(&self, other: &Self) -> Ordering {
 		match (&self, &other) {
+			(TermDiff::Failed(_), TermDiff::Failed(_)) => Ordering::Equal,
 			(TermDiff::Failed(_), _) => Ordering::Less,
 			(_, TermDiff::Failed(_)) => Ordering::Greater,
 			(TermDiff::Warning(a, _), TermDiff::Changed(b)) => a.cmp(b),
-- 
2.43.0


From 26390a70dfd47674f68545eec93f9c060f77dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 02/26] fix: equal values differ by zero percent, also if both
 are zero

---
 core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 79c7489..d7239d0 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -833,6 +833,10 @@ impl RelativeChange {
 }
 
 pub fn percent(old: u128, new: u128) -> Percent {
+	if old == new {
+		// Also covers `0 / 0`, which is not a number.
+		return 0.0
+	}
 	100.0 * (new as f64 / old as f64) - 100.0
 }
 
-- 
2.43.0


From eb763daa7b9a9b3bb451ef3fb3c131c6431b90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 03/26] fix: evaluate terms with saturating arithmetic instead
 of overflowing

---
 core/src/term.rs   | 10 +++++-----
 core/src/traits.rs |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 8aab611..7d6a168 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -137,8 +137,8 @@ impl SimpleTerm {
 		match self {
 			Self::Value(x) => Ok(*x),
 			Self::Scalar(x) => Ok(*x),
-			Self::Add(x, y) => Ok(x.eval(ctx)? + y.eval(ctx)?),
-			Self::Mul(x, y) => Ok(x.eval(ctx)? * y.eval(ctx)?),
+			Self::Add(x, y) => Ok(x.eval(ctx)?.saturating_add(y.eval(ctx)?)),
+			Self::Mul(x, y) => Ok(x.eval(ctx)?.saturating_mul(y.eval(ctx)?)),
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
 					var.eval(ctx)
@@ -371,16 +371,16 @@ impl ChromaticTerm {
 			Self::Add(x, y) => {
 				let (a, b) = x.eval(ctx)?.into();
 				let (m, n) = y.eval(ctx)?.into();
-				Ok((a + m, b + n).into())
+				Ok((a.saturating_add(m), b.saturating_add(n)).into())
 			},
 			Self::Mul(x, y) => match (x.as_ref(), y.as_ref()) {
 				(Self::Scalar(x), y) => {
 					let (a, b) = y.eval(ctx)?.into();
-					Ok((*x * a, *x * b).into())
+					Ok((x.saturating_mul(a), x.saturating_mul(b)).into())
 				},
 				(x, Self::Scalar(y)) => {
 					let (a, b) = x.eval(ctx)?.into();
-					Ok((*y * a, *y * b).into())
+					Ok((y.saturating_mul(a), y.saturating_mul(b)).into())
 				},
 				(Self::Var(x), y) => match ctx.get(x) {
 					Some(Self::Scalar(x)) => Ok(y.eval(ctx)?.mul_scalar(x)),
diff --git a/core/src/traits.rs b/core/src/traits.rs
index e9af584..02171cd 100644
--- a/core/src/traits.rs
+++ b/core/src/traits.rs
@@ -80,6 +80,9 @@ impl core::fmt::Display for Weight {
 
 impl Weight {
 	pub fn mul_scalar(&self, other: u128) -> Self {
-		Self { time: self.time * other, proof: self.proof * other }
+		Self {
+			time: self.time.saturating_mul(other),
+			proof: self.proof.saturating_mul(other),
+		}
 	}
 }
-- 
2.43.0


From ad722f73924e56f7ec4579ffca241e0f4292fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 04/26] fix: report an unusable literal in a weight file as
 error instead of panicking

---
 core/src/parse/pallet.rs  | 13 ++++++++-----
 core/src/parse/storage.rs |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 4a675c6..242cd58 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -307,7 +307,7 @@ pub(crate) fn parse_scalar_expression(expr: &Expr) -> Result<Term<u128>> {
 	match expr {
 		Expr::Cast(cast) => parse_scalar_expression(&cast.expr),
 		Expr::Paren(expr) => parse_scalar_expression(&expr.expr),
-		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit)?)),
 		Expr::MethodCall(call) => parse_scalar_method_call(call),
 		Expr::Path(p) => {
 			let ident = path_to_string(&p.path, Some("::"));
@@ -427,7 +427,7 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
 			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
@@ -523,10 +523,13 @@ fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 	parse_scalar_expression(arg)
 }
 
-pub(crate) fn lit_to_value(lit: &Lit) -> u128 {
+pub(crate) fn lit_to_value(lit: &Lit) -> Result<u128> {
 	match lit {
-		Lit::Int(i) => i.base10_digits().parse().expect("Lit must be a valid int; qed"),
-		_ => unreachable!(),
+		Lit::Int(i) => i
+			.base10_digits()
+			.parse()
+			.map_err(|e| format!("Invalid integer literal {}: {}", i, e)),
+		_ => Err("Expected an integer literal".into()),
 	}
 }
 
diff --git a/core/src/parse/storage.rs b/core/src/parse/storage.rs
index 21e5146..23d3055 100644
--- a/core/src/parse/storage.rs
+++ b/core/src/parse/storage.rs
@@ -169,7 +169,7 @@ fn parse_expression(expr: &Expr) -> Result<Term, String> {
 			};
 			Ok(term)
 		},
-		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit)?)),
 		Expr::Path(p) => Ok(Term::Var(crate::term::VarValue(path_to_string(&p.path, Some("::"))))),
 		_ => Err("Unexpected expression storage expr".into()),
 	}
-- 
2.43.0


From 5ade2b8dd0f82fab926306529f0abd9527e325c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 05/26] fix: report a non-expression weight function body as
 error instead of panicking

---
 core/src/parse/pallet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 242cd58..eecd04f 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -272,7 +272,7 @@ fn handle_method(
 
 	let expr = match stmt {
 		Stmt::Expr(expr, _) => expr,
-		_ => unreachable!("Expected expression"),
+		_ => return Err("Expected expression".into()),
 	};
 	let weight = match parse_expression(expr) {
 		Ok(w) => w,
-- 
2.43.0


From 8eeeac19d134f2a59519f8db6911b7f989142d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 06/26] fix: reject arguments with a trailing comma where none
 are expected

---
 core/src/parse/pallet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index eecd04f..933d235 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -366,7 +366,7 @@ fn parse_call(call: &ExprCall) -> Result<ChromaticTerm> {
 	} else if name.ends_with("::from_parts") {
 		parse_parts_args(&call.args)
 	} else if name.ends_with("::zero") {
-		if !call.args.empty_or_trailing() {
+		if !call.args.is_empty() {
 			return Err("Unexpected arguments for `zero`".into())
 		}
 		Ok(ChromaticTerm::Value(Zero::zero()))
@@ -383,7 +383,7 @@ fn parse_scalar_call(call: &ExprCall) -> Result<SimpleTerm> {
 		// normally want to multiply it.
 		parse_scalar_args(&call.args)
 	} else if name.ends_with("::zero") {
-		if !call.args.empty_or_trailing() {
+		if !call.args.is_empty() {
 			return Err("Unexpected arguments for `zero`".into())
 		}
 		Ok(SimpleTerm::Value(Zero::zero()))
@@ -476,7 +476,7 @@ pub(crate) fn parse_scalar_method_call(call: &ExprMethodCall) -> Result<Term<u12
 	let name: &str = &call.method.to_string();
 	match name {
 		"ref_time" => {
-			if !call.args.empty_or_trailing() {
+			if !call.args.is_empty() {
 				return Err("Unexpected arguments on `ref_time`".into())
 			}
 			parse_scalar_expression(&call.receiver)
-- 
2.43.0


From e00e1dfda45a170f8f5e7dc180989fc5a2726b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 07/26] fix: do not display a product with a zero factor as its
 other factor

---
 core/src/term.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 7d6a168..3bd8807 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -273,9 +273,8 @@ where
 				} else {
 					match (l.maybe_fmt_with_bracket(false), r.maybe_fmt_with_bracket(false)) {
 						(Some(l), Some(r)) => Some(format!("{} * {}", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
+						// One of the factors is zero, and so is the product.
+						_ => None,
 					}
 				}
 			},
-- 
2.43.0


From 9af8f97387da24a29d8cce942d053b93c35b4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 08/26] fix: iterate components in a fixed order so that the
 reported error is reproducible

---
 core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d7239d0..4877230 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -9,7 +9,7 @@ use lazy_static::lazy_static;
 
 use std::{
 	cmp::Ordering,
-	collections::{BTreeSet, HashMap, HashSet},
+	collections::{BTreeSet, HashMap},
 	path::{Path, PathBuf},
 	process::Command,
 };
@@ -577,7 +577,7 @@ pub(crate) fn extend_scoped_components(
 ) -> Result<Vec<SimpleScope>, String> {
 	let free_a = a.map(|e| e.term.free_vars(scope)).unwrap_or_default();
 	let free_b = b.map(|e| e.term.free_vars(scope)).unwrap_or_default();
-	let frees = free_a.union(&free_b).cloned().collect::<HashSet<_>>();
+	let frees = free_a.union(&free_b).cloned().collect::<BTreeSet<_>>();
 
 	let ra = a.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
 	let rb = b.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
-- 
2.43.0


From 6925ec1b5e9d3ed1ad26402e2550137dc7deb481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 09/26] fix: reject revisions that git would interpret as
 option

---
 core/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 4877230..31c1127 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -209,12 +209,21 @@ pub fn compare_commits(
 	compare_files(olds, news, params, filter)
 }
 
+/// Git would interpret a revision with a leading dash as option.
+fn check_refname(refname: &str) -> Result<(), String> {
+	if refname.starts_with('-') {
+		return Err(format!("Invalid revision: {}", refname))
+	}
+	Ok(())
+}
+
 pub fn git_checkout(
 	path: &Path,
 	refname: &str,
 	should_pull: bool,
 	force: bool,
 ) -> Result<(), String> {
+	check_refname(refname)?;
 	if force {
 		return git_reset(path, refname, should_pull)
 	}
@@ -244,6 +253,7 @@ pub fn git_checkout(
 }
 
 pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
+	check_refname(refname)?;
 	log::info!("Fetching branch {}", refname);
 
 	let output = Command::new("git")
@@ -262,6 +272,7 @@ pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
 }
 
 pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
+	check_refname(refname)?;
 	if pull {
 		git_pull(path, refname)?;
 	} else {
-- 
2.43.0


From 7e43ab593305394d7254a9728a02aea3b1774f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 10/26] fix: escape the version that /version reflects

---
 web/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 28b9420..2e7d171 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -348,7 +348,11 @@ async fn version(web::Query(args): web::Query<VersionArgs>) -> HttpResponse {
 		if current == version || current.replace('+', " ") == version {
 			http_200("Version check passed")
 		} else {
-			http_500(format!("Version check failed: '{}' vs '{}'", current, version))
+			http_500(format!(
+				"Version check failed: '{}' vs '{}'",
+				current,
+				html_escape::encode_text(&version)
+			))
 		}
 	} else {
 		HttpResponse::Ok()
-- 
2.43.0


From 34e911f34f6517abaafcb0734dc573a1d379c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 11/26] fix: escape repository content in the comparison page

---
 web/src/html.rs                   |  3 ++-
 web/templates/compare.stpl        | 14 +++++++-------
 web/templates/merge_requests.stpl |  2 +-
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 364064d..7114f66 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::comparison_chain)] // TODO remove
 
 use actix_web::HttpResponse;
+use html_escape::{encode_double_quoted_attribute, encode_text};
 
 use subweight_core::{Dimension, Percent, RelativeChange, TermChange};
 
@@ -94,7 +95,7 @@ pub(crate) fn readme_link(name: &str) -> String {
 }
 
 pub(crate) fn code_link(repo_name: &str, org: &str, name: &str, file: &str, rev: &str) -> String {
-	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", &org, &repo_name, rev, file, name)
+	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", encode_double_quoted_attribute(org), encode_double_quoted_attribute(repo_name), encode_double_quoted_attribute(rev), encode_double_quoted_attribute(file), encode_double_quoted_attribute(name))
 }
 
 pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
diff --git a/web/templates/compare.stpl b/web/templates/compare.stpl
index 1f02044..4e2a693 100644
--- a/web/templates/compare.stpl
+++ b/web/templates/compare.stpl
@@ -32,7 +32,7 @@
 				<td>
 					<select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= repo %> <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
+							<option value="<%= repo %>" <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
 						<% } %>
 					</select>
 				</td>
@@ -114,7 +114,7 @@
 		<div class="collapse" id="collapseErrors">
 			<div class="card card-body text-dark bg-light">
 				<% for err in errors { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -129,7 +129,7 @@
 		<div class="collapse" id="collapseWarns">
 			<div class="card card-body text-dark bg-light">
 				<% for err in warnings { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -153,7 +153,7 @@
 	</thead>
 	<tbody>
 		<% for (info, change) in diff.iter().filter_map(|c| c.term().map(|t| (c, t))) { %>
-			<tr id=<%- format!("\"{}.{}\"", &info.file, &info.name) %>>
+			<tr id="<%= info.file %>.<%= info.name %>">
 				<td>
 					<%= info.file %>
 				</td>
@@ -164,7 +164,7 @@
 				<% } %>
 					<%= info.name %>
 					<sup>
-						<a href=<%- format!("\"#{}.{}\"", &info.file, &info.name) %>>🔗</a>
+						<a href="#<%= info.file %>.<%= info.name %>">🔗</a>
 					</sup>
 				</td>
 
@@ -182,10 +182,10 @@
 				</td>
 
 				<td>
-					<%- change.old.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.old), t)).unwrap_or_else(|| "-".into()) %>
+					<%- change.old.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.old), encode_text(&t.to_string()))).unwrap_or_else(|| "-".into()) %>
 				</td>
 				<td>
-					<%- change.new.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.new), t)).unwrap_or_else(|| "-".into()) %>
+					<%- change.new.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.new), encode_text(&t.to_string()))).unwrap_or_else(|| "-".into()) %>
 				</td>
 				<td>
 					<%= format!("{}", &change.scope) %>
diff --git a/web/templates/merge_requests.stpl b/web/templates/merge_requests.stpl
index 9e14d9a..39176a4 100644
--- a/web/templates/merge_requests.stpl
+++ b/web/templates/merge_requests.stpl
@@ -48,7 +48,7 @@
 				<div class="col">
 					Repo: <select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= format!("{}:{}", &repo.organization, &repo.name) %>><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
+							<option value="<%= format!("{}:{}", &repo.organization, &repo.name) %>"><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
 						<% } %>
 					</select>
 				</div>
-- 
2.43.0


From 5ddb120e6a43abcb865742899fafce60321b1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 12/26] fix: show the absolute change of values beyond i128
 with the right sign

---
 web/src/html.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 7114f66..2caf72a 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -119,13 +119,13 @@ pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
 pub(crate) fn html_color_abs(change: &TermChange, unit: Dimension) -> String {
 	match change.change {
 		RelativeChange::Changed => {
-			let diff = change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128;
-			if diff < 0 {
-				format!("<p style='color:green'>-{}</p>", unit.fmt_value(diff.unsigned_abs()))
-			} else if diff > 0 {
-				format!("<p style='color:red'>+{}</p>", unit.fmt_value(diff.unsigned_abs()))
+			let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+			let diff = new.abs_diff(old);
+			if new < old {
+				format!("<p style='color:green'>-{}</p>", unit.fmt_value(diff))
+			} else if new > old {
+				format!("<p style='color:red'>+{}</p>", unit.fmt_value(diff))
 			} else {
-				// 0 or NaN
 				format!("{:.0?}", diff)
 			}
 		},
@@ -154,7 +154,15 @@ fn order_percent(change: &TermChange) -> i128 {
 
 fn order_abs(change: &TermChange) -> i128 {
 	match change.change {
-		RelativeChange::Changed => change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128,
+		RelativeChange::Changed => {
+			let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+			let diff = i128::try_from(new.abs_diff(old)).unwrap_or(i128::MAX);
+			if new < old {
+				-diff
+			} else {
+				diff
+			}
+		},
 		RelativeChange::Unchanged => 0,
 		RelativeChange::Added => i128::MAX,
 		RelativeChange::Removed => i128::MIN,
-- 
2.43.0


From b4670b2e98c1ebac2b0f1ce0e7071e1da6e30b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 13/26] fix: separate the percentage from the old term in CSV
 output

With `--format csv --print-terms` the row lacked the comma between the
`Change Percent` and the `Old Weight Term` cell, so that the header named
eight columns but every row had only seven.
---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 290f3e4..8dc715b 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -280,7 +280,7 @@ fn print_changes_csv(
 		if format.print_terms {
 			write!(
 				row,
-				"{},",
+				",{},",
 				change.old.as_ref().map(|t| format!("{}", t)).unwrap_or_else(|| "-".into())
 			)?;
 			write!(
-- 
2.43.0


From 450ca29ee75db91d4b0b610029dac84a64692aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 14/26] fix: strip path prefixes in CSV output

`--strip-path-prefix` was silently ignored by `--format csv`.
---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 8dc715b..853af03 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -270,7 +270,7 @@ fn print_changes_csv(
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = format!(
 			"{},{},{},{},{}",
-			info.file.clone(),
+			format.filter_path(info.file.clone()),
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
-- 
2.43.0


From 9e5de0dec7f8ead360ea06fb7576c634ec8e80ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 15/26] fix: do not omit failed comparisons in CSV output

An extrinsic that could not be compared was left out silently, so that the
CSV looked complete. Print it as an ERROR row, as the other formats do.
---
 cli/src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 853af03..a8c80ec 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -267,6 +267,16 @@ fn print_changes_csv(
 	}
 	output.push('\n');
 
+	// Put all errors
+	for (info, _change) in per_extrinsic.iter().filter_map(|p| p.error().map(|t| (p, t))) {
+		let mut row = format!("{},{},-,-,ERROR", format.filter_path(info.file.clone()), info.name);
+		if format.print_terms {
+			row.push_str(",-,-,-");
+		}
+		row.push('\n');
+		output.push_str(&row);
+	}
+
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = format!(
 			"{},{},{},{},{}",
-- 
2.43.0


From 7eb53ac6ea50fe606d85dc2d433fa47e7fc44f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 16/26] fix: branches handler panicked on a git error message
 that is not UTF-8

---
 web/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 2e7d171..8f0862a 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -236,7 +236,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 				)
 			})?;
 		if !output.status.success() {
-			let err = String::from_utf8(output.stderr).unwrap();
+			let err = String::from_utf8_lossy(&output.stderr);
 			log::error!("Failed to fetch branches: '{}'", &err);
 
 			return Err(std::io::Error::new(
@@ -253,7 +253,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.current_dir(repo.path.deref())
 		.output()?;
 	if !output.status.success() {
-		let err = String::from_utf8(output.stderr).unwrap();
+		let err = String::from_utf8_lossy(&output.stderr);
 		log::error!("Failed to list branches: {}", &err);
 		return Err(std::io::Error::new(
 			std::io::ErrorKind::Other,
-- 
2.43.0


From 31df0ec2b3cc7df82c26adcc39df1e8dd0e3a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 17/26] fix: a revision that names a path made checkout discard
 local changes

---
 core/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 31c1127..3a95039 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -238,6 +238,8 @@ pub fn git_checkout(
 	let output = Command::new("git")
 		.arg("checkout")
 		.arg(refname)
+		// Never interpret the revision as path.
+		.arg("--")
 		.current_dir(path)
 		.output()
 		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
-- 
2.43.0


From a106ea73eca9143f7495abb967b6c195f59b409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 18/26] fix: a revision with a colon made fetch overwrite local
 references

---
 core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 3a95039..61e0f22 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -256,6 +256,10 @@ pub fn git_checkout(
 
 pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
 	check_refname(refname)?;
+	// Git would interpret the part after the colon as local reference to overwrite.
+	if refname.contains(':') {
+		return Err(format!("Invalid revision to fetch: {}", refname))
+	}
 	log::info!("Fetching branch {}", refname);
 
 	let output = Command::new("git")
-- 
2.43.0


From 60c834f608e3e3b0193971729fa65af436b8e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 19/26] fix: a path pattern with wildcards such as '.?' could
 leave the repository

---
 core/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 61e0f22..1201a8e 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -181,6 +181,9 @@ pub fn compare_commits(
 	if path_pattern.contains("..") {
 		return Err("Path pattern cannot contain '..'".into())
 	}
+	if matches_parent_dir(path_pattern) {
+		return Err("Path pattern cannot match '..'".into())
+	}
 	// Parse the old files.
 	if let Err(err) = git_checkout(repo, old, params.should_pull(), params.git_force) {
 		return Err(format!("{:?}", err).into())
@@ -318,6 +321,14 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	Ok(())
 }
 
+/// Whether a part of the pattern, like `.?` or `.*`, would be expanded to the parent directory.
+fn matches_parent_dir(path_pattern: &str) -> bool {
+	path_pattern
+		.split([',', '/'])
+		.filter(|part| part.starts_with('.'))
+		.any(|part| glob::Pattern::new(part).map_or(false, |p| p.matches("..")))
+}
+
 fn list_files(
 	base_path: &Path,
 	regex: &str,
-- 
2.43.0


From c45da568a2a0a59dae22da27eb160ac8c7f53a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 20/26] fix: take the path of the repository literally when
 listing files

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 1201a8e..a9887eb 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -338,7 +338,9 @@ fn list_files(
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_path.display(), regex);
+		// Only the pattern has wildcards, not the folder.
+		let base = glob::Pattern::escape(&base_path.display().to_string());
+		let regex = format!("{}/{}", base, regex);
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
-- 
2.43.0


From d8c5dbe41ff487188f0bf216725e266d69eb26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 21/26] fix: ranges of components with an underscore in their
 name were not found

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index a9887eb..ed94148 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -654,7 +654,9 @@ fn instance_component(
 ) -> Result<u32, String> {
 	use MinOrMax::*;
 
-	match (ra.as_ref().and_then(|r| r.get(component)), rb.as_ref().and_then(|r| r.get(component))) {
+	// The parser omits underscores in the names of ranges.
+	let name = component.replace('_', "");
+	match (ra.as_ref().and_then(|r| r.get(&name)), rb.as_ref().and_then(|r| r.get(&name))) {
 		// Only one extrinsic has a component range? Good
 		(Some(r), None) | (None, Some(r)) => Ok(match strategy.min_or_max {
 			Min => r.min,
-- 
2.43.0


From 1e2d7e1163361ffcd90a1bb1d419b1e3d55b4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:06 +0000
Subject: [PATCH 22/26] fix: a file name with a comma broke the columns of the
 CSV output

---
 cli/src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index a8c80ec..9e519db 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -247,6 +247,15 @@ fn print_changes(
 	Ok(())
 }
 
+/// Quotes the text if it would otherwise not stay in one cell.
+fn csv_cell(text: String) -> String {
+	if text.contains([',', '"', '\n', '\r']) {
+		format!("\"{}\"", text.replace('"', "\"\""))
+	} else {
+		text
+	}
+}
+
 // TODO make meta output format
 fn print_changes_csv(
 	per_extrinsic: TotalDiff,
@@ -269,7 +278,8 @@ fn print_changes_csv(
 
 	// Put all errors
 	for (info, _change) in per_extrinsic.iter().filter_map(|p| p.error().map(|t| (p, t))) {
-		let mut row = format!("{},{},-,-,ERROR", format.filter_path(info.file.clone()), info.name);
+		let file = csv_cell(format.filter_path(info.file.clone()));
+		let mut row = format!("{},{},-,-,ERROR", file, info.name);
 		if format.print_terms {
 			row.push_str(",-,-,-");
 		}
@@ -280,7 +290,7 @@ fn print_changes_csv(
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = format!(
 			"{},{},{},{},{}",
-			format.filter_path(info.file.clone()),
+			csv_cell(format.filter_path(info.file.clone())),
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
-- 
2.43.0


From b0b5bdcb8875b5d98cd4ad42dafdb6449131903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 23/26] fix: list branches and tags whose name contains
 refs/heads/ under their own name

---
 web/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 8f0862a..810cf0f 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -267,13 +267,16 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.lines()
 		// Some tags contain weird stuff like {} or ^, let's filter those out.
 		.filter(|l| !l.contains('{') && !l.contains('^'))
-		.map(|l| l.replace("refs/heads/", ""))
-		.map(|l| l.replace("refs/tags/", ""))
-		// Split at whitespace and use the first part as the branch name
-		// and the second as commit hash.
+		// Split at whitespace and use the second part without its namespace as the branch name
+		// and the first as commit hash.
 		.map(|l| {
 			let splits = l.split_whitespace().collect::<Vec<&str>>();
-			(splits[1].to_string(), splits[0][..12].to_string())
+			let name = splits[1];
+			let name = name
+				.strip_prefix("refs/heads/")
+				.or_else(|| name.strip_prefix("refs/tags/"))
+				.unwrap_or(name);
+			(name.to_string(), splits[0][..12].to_string())
 		})
 		.collect::<Vec<(String, String)>>();
 
-- 
2.43.0


From acf578335394be20f68bb5be6d29b629b6835169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:09 +0000
Subject: [PATCH 24/26] fix: encode repository and revision names in the
 requests the pages send

---
 web/static/merge_requests.js |  4 ++--
 web/static/root.js           | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 46f21f1..6782319 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -90,9 +90,9 @@ $(document).ready(function () {
 				$(row).dblclick(function() {
 					loading(true);
 					let params = new URLSearchParams(default_params(repo));
-					let url = "/compare?" + params.toString() + `&old=${mr.base.ref}&new=${mr.head.ref}`;
+					let url = "/compare?" + params.toString() + `&old=${encodeURIComponent(mr.base.ref)}&new=${encodeURIComponent(mr.head.ref)}`;
 					console.log("Opening: " + url);
-					$.getJSON("/branches?repo=" + repo + "&fetch=true", function (d) {
+					$.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=true", function (d) {
 						loading(false);
 						window.location.href = url;
 					}).done(function () {
diff --git a/web/static/root.js b/web/static/root.js
index 01b4834..2bf3687 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -63,7 +63,7 @@ function load_branches(repo, fetch) {
     if (!(repo in branches) || fetch) {
         loading(true);
         console.log("Loading branches for " + repo);
-        $.getJSON("/branches?repo=" + repo + "&fetch=" + (fetch ? "true" : "false"), function (d) {
+        $.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=" + (fetch ? "true" : "false"), function (d) {
             let data = d['branch'];
             branches[repo] = data;
         }).done(function () {
@@ -148,12 +148,12 @@ $(document).ready(function () {
         const repo = $('#repoSelect').val();
 
         var url = "/compare?unit=weight&ignore_errors=true&threshold=10&method=asymptotic";
-        url += "&repo=" + repo;
-        url += "&old=" + $('#firstSelect').val();
-        url += "&new=" + $('#secondSelect').val();
+        url += "&repo=" + encodeURIComponent(repo);
+        url += "&old=" + encodeURIComponent($('#firstSelect').val());
+        url += "&new=" + encodeURIComponent($('#secondSelect').val());
 
         if (repo in path_pattern_presets) {
-            url += "&path_pattern=" + path_pattern_presets[repo];
+            url += "&path_pattern=" + encodeURIComponent(path_pattern_presets[repo]);
         } else {
             // Show an alert
             alert("No path pattern for '" + repo + "'");
-- 
2.43.0


From ffb64b1efe25a69cf2987d34befd463ddb5aa52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:09 +0000
Subject: [PATCH 25/26] fix: offer repositories on the start page under the
 name they are registered with

---
 web/templates/root.stpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/templates/root.stpl b/web/templates/root.stpl
index b28a510..e95058e 100644
--- a/web/templates/root.stpl
+++ b/web/templates/root.stpl
@@ -43,7 +43,7 @@
 										<p>Please select a repository. There are <var><%= repos.len() %></var> available.</p>
 										<select class="form-control js-example-basic-single" id="repoSelect" style="width: 100%;">
 											<% for repo in repos { %>
-												<option value="<%= repo.to_lowercase() %>"><%= repo %></option>
+												<option value="<%= repo %>"><%= repo %></option>
 											<% } %>
 										</select>
 									</div>
-- 
2.43.0


From fbaf6ea5109aa3a138bf88bcaa06b96d1133d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 26/26] fix: only take the organization from origins at
 github.com

---
 web/src/git.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/src/git.rs b/web/src/git.rs
index 7e6e839..2fcb750 100644
--- a/web/src/git.rs
+++ b/web/src/git.rs
@@ -15,7 +15,7 @@ pub fn get_origin_org(repo: &Path) -> Result<String, String> {
 	if !output.status.success() {
 		return Err(format!("Failed to get origin url: {}", String::from_utf8_lossy(&output.stderr)))
 	}
-	let regex = Regex::new(r"^https://github.com/([^/]+)/").unwrap();
+	let regex = Regex::new(r"^https://github\.com/([^/]+)/").unwrap();
 	regex
 		.captures(&String::from_utf8_lossy(&output.stdout))
 		.map_err(|e| format!("Failed to parse origin url: {}", e))?
-- 
2.43.0

