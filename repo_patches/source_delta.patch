From a6dcf35f6da8d17e97facd2858f4b1f4f73548b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 01/10] fix: F1 of a query without relevant documents is 0, not
 NaN

---
 src/metrics/f1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/f1.rs b/src/metrics/f1.rs
index 73d29de..80fb74d 100644
--- a/src/metrics/f1.rs
+++ b/src/metrics/f1.rs
@@ -19,9 +19,13 @@ where
     if k == 0 {
         return 0.0;
     }
+    let n_rels = trues.values().filter(|&&rel| rel >= rel_lvl).count();
+    if n_rels == 0 {
+        return 0.0;
+    }
     let hits = compute_hits(trues, sorted_preds, k, rel_lvl);
     let precision = hits / k as f64;
-    let recall = hits / trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    let recall = hits / n_rels as f64;
     if precision + recall == 0.0 {
         0.0
     } else {
-- 
2.43.0


From 553e614da1edd20ddc44b12226c73ba42a184c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 02/10] fix: Bpref of a query without judged non-relevant
 documents is not NaN

---
 src/metrics/bpref.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics/bpref.rs b/src/metrics/bpref.rs
index a8143bc..c2f0c62 100644
--- a/src/metrics/bpref.rs
+++ b/src/metrics/bpref.rs
@@ -22,7 +22,13 @@ where
     for pred in sorted_preds {
         if let Some(&rel) = trues.get(&pred.doc_id) {
             if rel >= rel_lvl {
-                bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                // As in trec_eval, without any judged non-relevant document above,
+                // the relevant document contributes 1 (there may be none at all).
+                bpref += if n_non_rels_so_far > 0.0 {
+                    1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels)
+                } else {
+                    1.0
+                };
             } else {
                 n_non_rels_so_far += 1.0;
             }
-- 
2.43.0


From 4acdd7b11f6898ebbe7a14e290cd5e555305546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 03/10] fix: the Burges gain does not turn negative for scores
 of 2^31 or more

---
 src/metrics/ndcg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/ndcg.rs b/src/metrics/ndcg.rs
index a39b754..a553035 100644
--- a/src/metrics/ndcg.rs
+++ b/src/metrics/ndcg.rs
@@ -13,7 +13,7 @@ pub enum DcgWeighting {
 fn weighted_score(rel: TrueScore, weighting: DcgWeighting) -> f64 {
     match weighting {
         DcgWeighting::Jarvelin => rel as f64,
-        DcgWeighting::Burges => 2.0_f64.powi(rel as i32) - 1.0,
+        DcgWeighting::Burges => 2.0_f64.powi(i32::try_from(rel).unwrap_or(i32::MAX)) - 1.0,
     }
 }
 
-- 
2.43.0


From 1f0b73571704556c09ddff0ef5c41b3db5ce7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 04/10] fix: tuples_from_maps rejects an empty list of maps
 instead of panicking

---
 src/statistical_tests.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/statistical_tests.rs b/src/statistical_tests.rs
index 2148335..d46551f 100644
--- a/src/statistical_tests.rs
+++ b/src/statistical_tests.rs
@@ -82,13 +82,18 @@ where
 ///
 /// # Errors
 ///
-/// * [`ElinorError::InvalidArgument`] if maps have different sets of keys.
+/// * [`ElinorError::InvalidArgument`] if maps have different sets of keys or no map is given.
 pub fn tuples_from_maps<'a, I, K>(maps: I) -> Result<Vec<Vec<f64>>>
 where
     I: IntoIterator<Item = &'a BTreeMap<K, f64>>,
     K: Clone + Eq + Ord + std::fmt::Display + 'a,
 {
     let maps = maps.into_iter().collect::<Vec<_>>();
+    if maps.is_empty() {
+        return Err(ElinorError::InvalidArgument(
+            "The input must have at least one map.".to_string(),
+        ));
+    }
     for i in 1..maps.len() {
         if maps[0].len() != maps[i].len() {
             return Err(ElinorError::InvalidArgument(format!(
-- 
2.43.0


From e4b34225b760f246885b24301906ad0c5b67254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 05/10] fix: elinor-convert fails when its output cannot be
 written completely

---
 elinor-cli/src/bin/convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index 0ba7231..ea005ca 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -66,5 +66,6 @@ fn main() -> Result<()> {
             }
         }
     }
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 47739ab59baad3eceee140183b0d1b4effa30788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 06/10] fix: elinor-compare fails when a pretty table cannot be
 written completely

---
 elinor-cli/src/bin/compare.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index e58f489..722e568 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -114,7 +114,7 @@ fn main() -> Result<()> {
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, args.print_mode);
+        print_dataframe(&df, args.print_mode)?;
     }
 
     // If there is only one input CSV file, just print the means.
@@ -128,7 +128,7 @@ fn main() -> Result<()> {
                 Series::new("Score".into(), values),
             ];
             let df = DataFrame::new(columns)?;
-            print_dataframe(&df, args.print_mode);
+            print_dataframe(&df, args.print_mode)?;
         }
         return Ok(());
     }
@@ -151,7 +151,7 @@ fn main() -> Result<()> {
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, args.print_mode);
+        print_dataframe(&df, args.print_mode)?;
     }
 
     if dfs.len() == 2 {
@@ -238,7 +238,7 @@ fn compare_two_systems(
             columns.push(Series::new(format!("System_{}", i + 1).into(), values));
         }
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     let mut df_metrics = vec![];
@@ -316,7 +316,7 @@ fn compare_two_systems(
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     println!("\n# Two-sided paired Bootstrap test (n_resamples = {n_resamples})");
@@ -343,7 +343,7 @@ fn compare_two_systems(
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     println!("\n# Fisher's randomized test (n_iters = {n_iters})");
@@ -373,7 +373,7 @@ fn compare_two_systems(
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     Ok(())
@@ -459,7 +459,7 @@ fn compare_multiple_systems(
             Series::new("95% MOE".into(), vec![moe95; dfs.len()]),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
 
         println!("## Two-way ANOVA without replication");
         let columns = vec![
@@ -509,7 +509,7 @@ fn compare_multiple_systems(
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
 
         println!("## Effect sizes for Tukey HSD test");
         let hsd_stat = TukeyHsdTest::from_tupled_samples(tupled_scores.iter(), dfs.len())?;
@@ -527,7 +527,7 @@ fn compare_multiple_systems(
             columns.push(Series::new(format!("System_{}", i).into(), values));
         }
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
 
         println!("## p-values for randomized Tukey HSD test (n_iters = {n_iters})");
         let rthsd_stat = rthsd_tester.test(tupled_scores)?;
@@ -545,21 +545,23 @@ fn compare_multiple_systems(
             columns.push(Series::new(format!("System_{}", i).into(), values));
         }
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     Ok(())
 }
 
-fn print_dataframe(df: &DataFrame, print_mode: PrintMode) {
+fn print_dataframe(df: &DataFrame, print_mode: PrintMode) -> Result<()> {
     match print_mode {
         PrintMode::Pretty => {
-            df_to_prettytable(df).printstd();
+            // Unlike printstd(), it does not ignore errors.
+            df_to_prettytable(df).print_tty(false)?;
         }
         PrintMode::Raw => {
             print_df_in_tsv(df);
         }
     }
+    Ok(())
 }
 
 fn df_to_prettytable(df: &DataFrame) -> prettytable::Table {
-- 
2.43.0


From 62f96098a1f16a253be11785f82e84ca6fb15cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 07/10] fix: elinor-compare reads topic ids as text and
 integer-valued scores as numbers

---
 elinor-cli/src/bin/compare.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 722e568..8a4ab5c 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -70,9 +70,20 @@ fn main() -> Result<()> {
     for input_csv in &args.input_csvs {
         let df = CsvReadOptions::default()
             .with_parse_options(csv_parse_options.clone())
+            // Read all columns as strings: topic ids are not numbers.
+            .with_infer_schema_length(Some(0))
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
-        dfs.push(df);
+        let columns = df
+            .get_columns()
+            .iter()
+            .enumerate()
+            .map(|(i, column)| match i {
+                0 => Ok(column.clone()),
+                _ => column.strict_cast(&DataType::Float64),
+            })
+            .collect::<PolarsResult<Vec<_>>>()?;
+        dfs.push(DataFrame::new(columns)?);
     }
 
     // Get the header name of the first column.
-- 
2.43.0


From 33602a6ea8a2fa1315017663ba2469500ce32ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 08/10] fix: elinor-compare rejects repeated topics and files
 with different topics

---
 elinor-cli/src/bin/compare.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 8a4ab5c..7c22173 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -104,6 +104,20 @@ fn main() -> Result<()> {
     }
     let topic_header = topic_headers[0].as_str();
 
+    // Scores are paired by topic.
+    if dfs.len() > 1 {
+        let topics = dfs
+            .iter()
+            .map(|df| df.get_columns()[0].sort(SortOptions::default()))
+            .collect::<PolarsResult<Vec<_>>>()?;
+        if topics[0].n_unique()? != topics[0].len() {
+            return Err(anyhow::anyhow!("The topics in a file must be unique."));
+        }
+        if topics.iter().any(|t| !t.equals(&topics[0])) {
+            return Err(anyhow::anyhow!("The topics in the files must be the same."));
+        }
+    }
+
     println!("# Basic statistics");
     {
         let columns = vec![
-- 
2.43.0


From 4f6c6ecb06ac6d650bd2a7fea7ac0281387d96f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 09/10] fix: reject score files with missing scores in
 elinor-compare

An empty cell or a row with too few cells was read as a missing value and left out of the means of a single file.
---
 elinor-cli/src/bin/compare.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 7c22173..f6d82a5 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -83,6 +83,9 @@ fn main() -> Result<()> {
                 _ => column.strict_cast(&DataType::Float64),
             })
             .collect::<PolarsResult<Vec<_>>>()?;
+        if columns.iter().skip(1).any(|column| column.null_count() > 0) {
+            return Err(anyhow::anyhow!("A score is missing in {input_csv:?}."));
+        }
         dfs.push(DataFrame::new(columns)?);
     }
 
-- 
2.43.0


From 16f8b04823ae0c37cb5c9221703d07cd7c8aaeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 10/10] fix: elinor-convert rejects scores that JSON cannot
 express instead of writing null

---
 elinor-cli/src/bin/convert.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index ea005ca..0f52259 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -4,6 +4,7 @@ use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
 
+use anyhow::bail;
 use anyhow::Result;
 use clap::Parser;
 use elinor::trec;
@@ -61,6 +62,14 @@ fn main() -> Result<()> {
             let pred_rels = trec::parse_pred_rels_in_trec(lines)?;
             let pred_records = pred_rels.into_records();
             for record in pred_records {
+                if !record.score.is_finite() {
+                    bail!(
+                        "JSON cannot express the score {} of query_id={}, doc_id={}.",
+                        record.score,
+                        record.query_id,
+                        record.doc_id
+                    );
+                }
                 serde_json::to_writer(&mut writer, &record)?;
                 writer.write_all(b"\n")?;
             }
-- 
2.43.0

