From 740b94c229bd3e21d0ab8e45c08ff0dd9b4b5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:25 +0000
Subject: [PATCH 01/27] fix: balances count inferred amounts and leave envelope
 postings out

---
 src/ledger/mod.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f9821de..2a2cae4 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -224,31 +224,23 @@ impl Ledger {
         // read: for each posting in the ledger, add its amount to its account in totals_map
         for entry in &self.entries {
             for posting in entry.get_postings() {
-                let posting_amount = posting.get_amount();
+                // envelope postings don't move any real money
+                if posting.is_envelope() {
+                    continue;
+                }
+
                 let posting_account = posting.get_account();
+                let posting_amount = match posting.get_amount() {
+                    Some(a) => a.clone(),
+                    None => entry.get_blank_amount()?.unwrap_or_else(Amount::zero),
+                };
+
                 // if the account key exists, just add to it. if it doesn't exist, insert a new
                 // key with the amount
                 if let Some(pool) = totals_map.get_mut(posting_account) {
-                    if let Some(a) = posting_amount {
-                        *pool += a.clone();
-                    } else {
-                        match entry.get_blank_amount() {
-                            Ok(Some(b)) => {
-                                *pool += b;
-                            }
-                            Err(e) => return Err(SilverfoxError::from(e)),
-                            _ => {}
-                        }
-                    }
+                    *pool += posting_amount;
                 } else {
-                    // if the posting amount exists, set an AmountPool from the amount as the
-                    // key's value. otherwise, use an AmountPool from a zero Amount.
-                    if let Some(a) = posting_amount {
-                        totals_map.insert(posting_account.to_owned(), AmountPool::from(a.clone()));
-                    } else {
-                        totals_map
-                            .insert(posting_account.to_owned(), AmountPool::from(Amount::zero()));
-                    }
+                    totals_map.insert(posting_account.to_owned(), AmountPool::from(posting_amount));
                 }
             }
         }
-- 
2.43.0


From e3264ae8f06c64f7b580cd33f0d581fc87365439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:42 +0000
Subject: [PATCH 02/27] fix: envelope postings don't count towards an entry's
 blank amount

---
 src/entry.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 76b36fd..6205c46 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -222,7 +222,7 @@ impl Entry {
                 // if any of the native amounts are None, the calculation fails and this function
                 // returns an error
                 let mut blank_amount = Amount::zero();
-                for posting in &self.postings {
+                for posting in self.postings.iter().filter(|p| p.is_classic()) {
                     if let Some(v) = posting.get_original_native_value() {
                         blank_amount.mag -= v
                     } else {
@@ -242,22 +242,13 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             } else {
                 // for each posting, subtract that posting's amount from the blank amount (as long as
                 // `posting` doesn't have a blank amount)
-                let mut iter = self.postings.iter();
+                let mut iter = self.postings.iter().filter(|p| p.is_classic());
 
                 // get starting blank amount by finding the first non-blank amount and then
-                // negating it
-                let mut blank_amount = if let Some(p) = iter.find(|p| p.get_amount().is_some()) {
-                    if let Some(a) = p.get_amount() {
-                        -a.clone()
-                    } else {
-                        // shouldn't be reachable, since preceding closure asserts this amount is
-                        // not blank
-                        unreachable!()
-                    }
-                } else {
-                    // shouldn't be reachable, since there'd better be at least one non-blank
-                    // amount
-                    unreachable!()
+                // negating it. if the blank posting is the only one, there's nothing to balance
+                let mut blank_amount = match iter.find_map(|p| p.get_amount()) {
+                    Some(a) => -a.clone(),
+                    None => Amount::zero(),
                 };
 
                 // subtract the rest of the postings
@@ -282,7 +273,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     fn validate(&self, context: &str) -> Result<(), ValidationError> {
         let mut blank_amounts = 0;
         let mut symbol_set = HashSet::new();
-        for posting in &self.postings {
+        for posting in self.postings.iter().filter(|p| p.is_classic()) {
             // does amount exist?
             if let Some(a) = posting.get_amount() {
                 // if so, add its symbol to the set if it exists
@@ -373,8 +364,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
         if self.postings.is_empty() {
             false
         } else {
-            let mut iter = self.postings.iter();
-            let symbol_to_match = if let Some(p) = iter.find(|&p| p.get_amount().is_some()) {
+            let mut iter = self.postings.iter().filter(|p| p.is_classic());
+            let symbol_to_match = if let Some(p) = iter.find(|p| p.get_amount().is_some()) {
                 if let Some(a) = p.get_amount() {
                     a.symbol.clone()
                 } else {
-- 
2.43.0


From 33487bb0f4ae252f97b6d35d9ec308583f0f9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:42 +0000
Subject: [PATCH 03/27] fix: envelope postings don't show up in the register's
 amounts

---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 6205c46..e8263e5 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -414,7 +414,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             let mut negative_names = HashSet::new();
             let mut focused_amount = AmountPool::new();
 
-            for p in &self.postings {
+            for p in self.postings.iter().filter(|p| p.is_classic()) {
                 let name = p.get_account();
                 let amount = if let Some(a) = p.get_amount() {
                     a.clone()
-- 
2.43.0


From 67ec91bf72c77028a666c43812d309cc587b2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:43 +0000
Subject: [PATCH 04/27] fix: report entry headers without a status or with
 reversed brackets instead of panicking

---
 src/entry.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index e8263e5..b71c8b0 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -177,12 +177,20 @@ impl Entry {
         };
 
         // parse status
-        let status = header_tokens[1].parse::<EntryStatus>()?;
+        let status = match header_tokens.get(1) {
+            Some(s) => s.parse::<EntryStatus>()?,
+            None => {
+                return Err(ParseError {
+                    message: Some("silverfox requires statuses on entries, but this entry doesn't have one".to_string()),
+                    context: Some(clean_header.to_string()),
+                });
+            }
+        };
 
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
         let (description, payee) = if let Some(i) = description_and_payee.find('[') {
-            if let Some(j) = description_and_payee.rfind(']') {
+            if let Some(j) = description_and_payee.rfind(']').filter(|&j| j > i) {
                 // both brackets exist, so take everything before the opening bracket as the
                 // description and everything in the brackets as the payee
                 // yeah, this means anything after the closing bracket won't be included :/
-- 
2.43.0


From f48383996bb045909ed327aa182f2cf2ad556da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:44 +0000
Subject: [PATCH 05/27] fix: allow blank lines, comment lines and tabs in
 envelope definitions

---
 src/envelope.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index d53cfd5..90481d8 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -452,11 +452,15 @@ impl Envelope {
         for line in body.lines() {
             let trimmed_line = utils::remove_comments(line).trim();
             let line_split = trimmed_line.split_whitespace().collect::<Vec<&str>>();
-            let key = line_split[0];
+
+            // skip lines that are blank or only have a comment
+            let Some(&key) = line_split.first() else {
+                continue;
+            };
 
             // get the index of the first space (because that's where the values begins)
 
-            let Some(idx) = trimmed_line.find(' ') else {
+            let Some(idx) = trimmed_line.find(char::is_whitespace) else {
                 let message = format!(
                     "the property `{}` to an envelope (`{}` in {}) is blank",
                     line_split[0], self.name, account_name
-- 
2.43.0


From 26ce96b2d7de6143937baeb3c6908a404c2b4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:09 +0000
Subject: [PATCH 06/27] fix: ignore comments and extra whitespace in envelope
 headers

---
 src/envelope.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 90481d8..96dce7d 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -393,14 +393,18 @@ impl Envelope {
     /// Returns the starting struct of an Envelope. The string passed in can include ledger
     /// comments.
     fn from_header(
-        mut header: &str,
+        raw_header: &str,
         date_format: &str,
         account_name: &str,
     ) -> Result<Self, ParseError> {
-        let tokens = utils::remove_comments(header)
+        let tokens = utils::remove_comments(raw_header)
             .split_whitespace()
             .collect::<Vec<&str>>();
 
+        // neither comments nor the amount of whitespace between words mean anything
+        let clean_header = tokens.join(" ");
+        let mut header = clean_header.as_str();
+
         if tokens.len() < 2 {
             return Err(ParseError {
                 context: Some(header.to_string()),
-- 
2.43.0


From 3d1ac3decfae80c4e6d6e2e050f1a1c5b465657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:10 +0000
Subject: [PATCH 07/27] fix: keep the day of the month when computing last due
 dates, and yearly due dates past the first year

---
 src/envelope.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 96dce7d..2dd08f2 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -211,9 +211,20 @@ impl Frequency {
             match self {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
-                Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
-                Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
+                Self::Monthly(day) => {
+                    // the next date might've been cut short by its month, so use the original day
+                    let last = Self::subtract_months(next_date, 1);
+                    Some(Self::date_with_clamped_day(last.year(), last.month(), *day))
+                }
+                Self::Bimonthly(d) => {
+                    let last = Self::subtract_months(next_date, 2);
+                    Some(Self::date_with_clamped_day(last.year(), last.month(), d.day()))
+                }
+                Self::Annually(d) => Some(Self::date_with_clamped_day(
+                    next_date.year() - 1,
+                    d.month(),
+                    d.day(),
+                )),
                 _ => None,
             }
         } else {
@@ -236,7 +247,15 @@ impl Frequency {
             new_year -= 1;
         }
 
-        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap()
+        Self::date_with_clamped_day(new_year, new_month0 as u32 + 1, date.day())
+    }
+
+    /// Returns the date with the year, month, and day provided, or the last date of that month if
+    /// the month is too short for the day.
+    fn date_with_clamped_day(year: i32, month: u32, day: u32) -> NaiveDate {
+        NaiveDate::from_ymd_opt(year, month, day).unwrap_or_else(|| {
+            Self::get_last_date_of_month(NaiveDate::from_ymd_opt(year, month, 1).unwrap())
+        })
     }
 
     // this function is pretty long, so we should probably break it into smaller functions
@@ -306,7 +325,14 @@ impl Frequency {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
-                    starting_date.with_year(starting_date.year() + 1)
+                    // this year's date, if it's still to come; otherwise, next year's
+                    let (month, day) = (starting_date.month(), starting_date.day());
+                    let this_year = Self::date_with_clamped_day(today.year(), month, day);
+                    if this_year > today {
+                        Some(this_year)
+                    } else {
+                        Some(Self::date_with_clamped_day(today.year() + 1, month, day))
+                    }
                 }
             }
         }
-- 
2.43.0


From 1cac460738d2fbd0534619a671e30c855d30c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:11 +0000
Subject: [PATCH 08/27] fix: the next due date is the first scheduled day after
 today

---
 src/envelope.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 2dd08f2..409c134 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -286,6 +286,10 @@ impl Frequency {
                 // the same weekday as `w` itself
 
                 // if starting date is after today, use that
+                if *starting_date > today {
+                    return Some(*starting_date);
+                }
+
                 let duration_passed = today.signed_duration_since(*starting_date);
                 let periods_passed = duration_passed.num_weeks() / 2;
                 let next = *starting_date + chrono::Duration::weeks((periods_passed + 1) * 2);
@@ -301,7 +305,7 @@ impl Frequency {
                     // brute force method until we find something better to do...
                     let day_of_month = starting_date.day();
                     let mut date = *starting_date;
-                    while date < today {
+                    while date <= today {
                         let month0_plus_two = date.month0() + 2;
                         let new_year = date.year() + month0_plus_two as i32 / 12;
                         let new_month = (month0_plus_two % 12) + 1; // + 1 so it's one-based
@@ -900,13 +904,9 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             return self.freq.get_next_due_date();
         };
 
-        let freq_next_date = if let Some(d) = self.freq.get_next_due_date() {
-            d
-        } else {
-            return Some(starting_date);
-        };
-
-        Some(starting_date.max(freq_next_date))
+        self.freq
+            .get_next_due_date()
+            .map(|freq_next_date| starting_date.max(freq_next_date))
     }
 
     pub fn get_freq(&self) -> &Frequency {
-- 
2.43.0


From 9eaebf8770c836221c9c638a813f27a0a67faf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:39 +0000
Subject: [PATCH 09/27] fix: infer refunds as money put back and count foreign
 amounts at their native worth

---
 src/envelope.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 409c134..e9dd79a 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -738,6 +738,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     });
                 } else if let Some(m) = posting.get_original_native_value() {
                     amount_to_add.mag = m;
+                    amount_to_add.symbol = None;
                 } else {
                     return Err(ProcessingError::default()
                                                                     .set_message(
@@ -759,6 +760,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         // the minimum of the absolute values of auto_postings_sum and self_account_postings_sum
         let abs_min_mag = auto_postings_sum
             .mag
+            .abs()
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-- 
2.43.0


From 5ce514bee80dbe418a08d07786ea57e55acded94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:40 +0000
Subject: [PATCH 10/27] fix: report envelope postings in the wrong currency
 instead of panicking

---
 src/envelope.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index e9dd79a..c4a09ca 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -645,14 +645,13 @@ impl Envelope {
     /// and amounts), as well as the envelope's last_entry_date
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         if entry.has_envelope_posting() {
-            self.process_manual_postings(entry);
-            Ok(())
+            self.process_manual_postings(entry)
         } else {
             self.infer(entry)
         }
     }
 
-    fn process_manual_postings(&mut self, entry: &Entry) {
+    fn process_manual_postings(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         // manual envelopes
         for posting in entry.get_envelope_postings() {
             // process each envelope posting in the entry
@@ -666,10 +665,22 @@ impl Envelope {
 
                     let amount = envelope_posting.get_amount();
 
+                    if amount.symbol != self.amount.symbol {
+                        let message = format!(
+                            "the envelope `{}` in `{}` doesn't hold the currency of this posting",
+                            self.name, self.account
+                        );
+                        return Err(ProcessingError::default()
+                            .set_message(&message)
+                            .set_context(&entry.as_full_string()));
+                    }
+
                     self.apply_amount(amount, *entry.get_date());
                 }
             }
         }
+
+        Ok(())
     }
 
     fn infer(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
-- 
2.43.0


From 191d060d41a7a896e11bb23bcee04085a9121419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:41 +0000
Subject: [PATCH 11/27] fix: remember an envelope's latest transaction wherever
 it is in the journal

---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index c4a09ca..41058b5 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -818,7 +818,10 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = date;
+        // entries aren't necessarily in order of date, and some might be in the future
+        if date <= Local::now().date_naive() {
+            self.last_transaction_date = self.last_transaction_date.max(date);
+        }
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From 83c0e317c756b12f32c5ccbf7a3835ba592a7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:45 +0000
Subject: [PATCH 12/27] fix: append new entries in one piece, and only if they
 can be read back

---
 src/ledger/mod.rs | 67 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 2a2cae4..979062e 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -181,19 +181,50 @@ impl Ledger {
         Ok(())
     }
 
-    /// Appends the entry to the file of the Ledger, then internally adds the Entry itself to the
-    /// Ledger.
-    fn append_entry(&mut self, entry: Entry) -> Result<(), SilverfoxError> {
-        let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {
-            Ok(f) => f,
-            Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
-        };
-
-        if let Err(e) = write!(file, "\n{}", entry.as_parsable(&self.date_format)) {
-            return Err(SilverfoxError::Basic(format!("{e}")));
+    /// Adds the entries to the Ledger, then appends them to the file of the Ledger in one piece.
+    /// Nothing is written if any of the entries can't be added, or couldn't be read back from the
+    /// file later.
+    fn append_entries(&mut self, entries: Vec<Entry>) -> Result<(), SilverfoxError> {
+        let mut text = String::new();
+
+        for entry in entries {
+            let parsable = entry.as_parsable(&self.date_format);
+            let reread = Entry::parse(
+                &parsable,
+                &self.date_format,
+                self.decimal_symbol,
+                &self.accounts.keys().collect(),
+            )?;
+
+            let expected = entry.as_full_string();
+            if !(reread.as_full_string().split_whitespace()).eq(expected.split_whitespace()) {
+                return Err(SilverfoxError::from(ValidationError {
+                    message: Some(
+                        "this entry can't be added because it would change when read back from your journal"
+                            .to_string(),
+                    ),
+                    context: Some(expected),
+                }));
+            }
+
+            self.add_entry(reread)?;
+
+            text.push('\n');
+            text.push_str(&parsable);
         }
 
-        self.add_entry(entry)
+        let file_error = |e| SilverfoxError::file_error(&self.file_path, e);
+        let mut file = fs::OpenOptions::new()
+            .append(true)
+            .open(&self.file_path)
+            .map_err(file_error)?;
+        let original_len = file.metadata().map_err(file_error)?.len();
+
+        file.write_all(text.as_bytes()).map_err(|e| {
+            // don't leave parts of entries behind
+            file.set_len(original_len).unwrap_or(());
+            file_error(e)
+        })
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
@@ -286,7 +317,7 @@ impl Ledger {
             Some(String::from("automatically generated by silverfox")),
         );
 
-        self.append_entry(entry)
+        self.append_entries(vec![entry])
     }
 
     pub fn import_csv(
@@ -302,16 +333,12 @@ impl Ledger {
             CsvImporter::from_file(csv_file, account_set)
         }?;
 
-        for result in imp {
-            match result {
-                Ok(e) => {
-                    self.append_entry(e)?;
-                }
-                Err(e) => return Err(e),
-            }
+        let entries = imp.collect::<Result<Vec<Entry>, SilverfoxError>>()?;
+        if entries.is_empty() {
+            return Ok(());
         }
 
-        Ok(())
+        self.append_entries(entries)
     }
 
     /// Display a register of all transactions from `begin_date` (inclusive) to `end_date` (also
-- 
2.43.0


From 3d76c8a51b5d6ed8a2e270c5bd57d9f026a4aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:47 +0000
Subject: [PATCH 13/27] fix: return to the previous directory after reading a
 file

---
 src/ledger/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 979062e..cf6ddc2 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -58,9 +58,17 @@ impl Ledger {
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
 
+        let previous_dir = std::env::current_dir();
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
-        self.add_from_str(&s)
+        let result = self.add_from_str(&s);
+
+        // change back, so that other relative paths keep their meaning
+        if let Ok(d) = previous_dir {
+            std::env::set_current_dir(d).unwrap_or(());
+        }
+
+        result
     }
 
     /// Adds to the ledger from the contents parsed from the string
-- 
2.43.0


From f47f100997126effbb8e2df8fda93d293a14223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:48 +0000
Subject: [PATCH 14/27] fix: report journals that include themselves instead of
 overflowing the stack

---
 src/ledger/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index cf6ddc2..6d3a28b 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -23,6 +23,9 @@ pub struct Ledger {
     accounts: HashMap<String, Account>,
     default_currency: String,
     decimal_symbol: char,
+
+    /// The files that are being read at the moment, to notice files that include themselves
+    open_files: Vec<PathBuf>,
 }
 
 impl Ledger {
@@ -35,6 +38,7 @@ impl Ledger {
             accounts: HashMap::new(),
             default_currency: String::new(),
             decimal_symbol: '.',
+            open_files: Vec::new(),
         }
     }
 
@@ -55,6 +59,16 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
+        let full_path = fs::canonicalize(file_path)
+            .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
+        if self.open_files.contains(&full_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!("`{}` includes itself", file_path.display())),
+                context: None,
+            }));
+        }
+        self.open_files.push(full_path);
+
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
 
@@ -62,6 +76,7 @@ impl Ledger {
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
         let result = self.add_from_str(&s);
+        self.open_files.pop();
 
         // change back, so that other relative paths keep their meaning
         if let Ok(d) = previous_dir {
-- 
2.43.0


From dda0f4ac4d02d75da36128f8cfb164a74f5eda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:49 +0000
Subject: [PATCH 15/27] fix: report rules files that include themselves instead
 of overflowing the stack

---
 src/importer.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5db8033..5ea7bf0 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -96,6 +96,9 @@ struct Rules {
     skip: i32,
     status: String,
     subrules: Vec<Subrules>,
+
+    /// The rules files that are being read at the moment, to notice files that include themselves
+    open_files: Vec<PathBuf>,
 }
 
 impl Default for Rules {
@@ -116,6 +119,7 @@ impl Default for Rules {
             skip: 1,
             status: String::from("~"),
             subrules: Default::default(),
+            open_files: Default::default(),
         }
     }
 }
@@ -134,7 +138,20 @@ impl Rules {
         let s = fs::read_to_string(rules_file)
             .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
 
-        self.add_from_str(&s)
+        let full_path = fs::canonicalize(rules_file)
+            .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
+        if self.open_files.contains(&full_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!("`{}` includes itself", rules_file.display())),
+                context: None,
+            }));
+        }
+
+        self.open_files.push(full_path);
+        self.add_from_str(&s)?;
+        self.open_files.pop();
+
+        Ok(())
     }
 
     fn add_from_str(&mut self, s: &str) -> Result<(), SilverfoxError> {
-- 
2.43.0


From 6087fc901e969d9e02e3e2380029e1f764e6ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:50 +0000
Subject: [PATCH 16/27] fix: report unusual import rules instead of panicking

---
 src/importer.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5ea7bf0..c3d04d3 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -213,9 +213,9 @@ impl Rules {
 
             if line.starts_with("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
-                if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+                if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(&line[i + 1..]))
+                        s.patterns.push(String::from(pattern))
                     } else {
                         unreachable!()
                     }
@@ -236,9 +236,8 @@ impl Rules {
     fn add_from_line(&mut self, mut line: &str) -> Result<(), SilverfoxError> {
         line = line.trim_start();
 
-        let split_index = if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
-            i
-        } else {
+        // the first token is the rule name, and the rest of the line is the value
+        let Some((rule_name, rule_value)) = line.split_once(char::is_whitespace) else {
             return Err(SilverfoxError::from(ParseError {
                 message: Some(format!(
                     "this rule has no value. use `-` if you want to discard a value:\n\n{} -",
@@ -248,13 +247,7 @@ impl Rules {
             }));
         };
 
-        // the first token is the rule name
-        let rule_name = &line[..split_index];
-
-        // the rest of the line is the value
-        let rule_value = String::from(&line[split_index + 1..])
-            .trim_start()
-            .to_string();
+        let rule_value = rule_value.trim_start().to_string();
 
         if rule_value.trim() == "-" {
             // resets a value
@@ -308,15 +301,16 @@ impl Rules {
                 "date_format" => self.date_format = rule_value,
                 "date" => self.date_str = rule_value,
                 "decimal_symbol" | "decimal" => {
-                    if rule_value.len() > 1 {
+                    let mut chars = rule_value.trim_end().chars();
+                    if let (Some(c), None) = (chars.next(), chars.next()) {
+                        self.decimal_symbol = c;
+                    } else {
                         return Err(SilverfoxError::from(ParseError {
                             message: Some(
                                 "decimal_symbol should be a single character".to_string(),
                             ),
                             context: Some(line.to_string()),
                         }));
-                    } else {
-                        self.decimal_symbol = rule_value.chars().next().unwrap();
                     }
                 }
                 "description" => self.description = rule_value,
-- 
2.43.0


From 75adda8f170cd2458f03dc3bb530f462e6f457ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:09 +0000
Subject: [PATCH 17/27] fix: report errors of the register instead of panicking

---
 src/flags.rs      | 2 +-
 src/ledger/mod.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index eae16d7..1059aa4 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -92,7 +92,7 @@ impl CommandFlags {
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None),
+            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None)?,
             Subcommand::Import => {
                 if let Some(c) = &self.csv_file {
                     return ledger.import_csv(c, self.rules_file.as_ref());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 6d3a28b..a0bc3a7 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -372,7 +372,7 @@ impl Ledger {
         begin_date: Option<NaiveDate>,
         end_date: Option<NaiveDate>,
         account_match: Option<String>,
-    ) {
+    ) -> Result<(), SilverfoxError> {
         Register::display(
             &self.entries,
             &self.date_format,
@@ -380,7 +380,6 @@ impl Ledger {
             end_date,
             account_match,
         )
-        .unwrap();
     }
 }
 
-- 
2.43.0


From df4d082703b1dd5183c57901ccdce353ee1e0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:40 +0000
Subject: [PATCH 18/27] fix: refuse envelope postings to accounts that aren't
 defined

---
 src/posting.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/posting.rs b/src/posting.rs
index 86ec071..2b00565 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -29,26 +29,28 @@ impl EnvelopePosting {
     pub fn parse(
         line: &str,
         decimal_symbol: char,
-        _accounts: &HashSet<&String>,
-    ) -> Result<Self, ParseError> {
+        accounts: &HashSet<&String>,
+    ) -> Result<Self, SilverfoxError> {
         let mut tokens = line.split_whitespace().skip(1);
 
         let account_name = if let Some(a) = tokens.next() {
             String::from(a)
         } else {
-            return Err(ParseError {
+            return Err(SilverfoxError::from(ParseError {
                 message: Some("probably missing an account name".to_string()),
                 context: Some(line.to_string()),
-            });
+            }));
         };
 
+        validate_account(&account_name, accounts)?;
+
         let envelope_name = if let Some(e) = tokens.next() {
             String::from(e)
         } else {
-            return Err(ParseError {
+            return Err(SilverfoxError::from(ParseError {
                 message: Some("probably missing an envelope name".to_string()),
                 context: Some(line.to_string()),
-            });
+            }));
         };
 
         // hopefully collects the remainder of the tokens, and not all of the beginning
@@ -331,15 +333,7 @@ impl ClassicPosting {
     }
 
     fn validate(&self, accounts: &HashSet<&String>) -> Result<(), ValidationError> {
-        if !accounts.contains(&self.account) {
-            let message = format!(
-                "the account `{}` is not defined in your journal",
-                self.account
-            );
-            Err(ValidationError::default().set_message(message.as_str()))
-        } else {
-            Ok(())
-        }
+        validate_account(&self.account, accounts)
     }
 
     pub fn get_original_native_value(&self) -> Option<f64> {
@@ -422,6 +416,15 @@ impl fmt::Display for Cost {
     }
 }
 
+fn validate_account(account: &String, accounts: &HashSet<&String>) -> Result<(), ValidationError> {
+    if !accounts.contains(account) {
+        let message = format!("the account `{account}` is not defined in your journal");
+        Err(ValidationError::default().set_message(message.as_str()))
+    } else {
+        Ok(())
+    }
+}
+
 fn extract_amount<P>(
     amount_tokens: &[&str],
     decimal_symbol: char,
-- 
2.43.0


From 9e844c4b6c2743a6f66493678f15966459de2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 19/27] fix: refuse entries that don't balance

---
 src/entry.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index b71c8b0..558012e 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -307,6 +307,25 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             return Err(ValidationError::default().set_message("silverfox can't infer the amount of a blank posting when other postings have mixed currencies").set_context(context));
         }
 
+        // if all amounts are known and in one currency, they have to balance (allowing for what
+        // floating point arithmetic can't represent)
+        if blank_amounts == 0 && !self.has_mixed_currencies() {
+            let mut sum = 0.0;
+            let mut size = 0.0;
+            for posting in self.postings.iter().filter(|p| p.is_classic()) {
+                if let Some(a) = posting.get_amount() {
+                    sum += a.mag;
+                    size += a.mag.abs();
+                }
+            }
+
+            if sum.abs() > 5e-9 + size * 1e-12 {
+                return Err(ValidationError::default()
+                    .set_message("the amounts of this entry don't add up to zero")
+                    .set_context(context));
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From a2ebd24c97e5da6464b8e508abc636135b54fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:52 +0000
Subject: [PATCH 20/27] fix: refuse date formats that can't be written instead
 of panicking

---
 src/ledger/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index a0bc3a7..5bfba82 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -9,6 +9,7 @@ use chrono::{Local, NaiveDate};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fmt::Formatter;
+use std::fmt::Write as _;
 use std::fs;
 use std::io::prelude::*;
 use std::path::{Path, PathBuf};
@@ -155,6 +156,15 @@ impl Ledger {
 
     fn set_date_format(&mut self, date_format: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(d) = date_format {
+            // dates have to be written in this format, too
+            let mut sample = String::new();
+            if write!(sample, "{}", NaiveDate::default().format(d)).is_err() {
+                return Err(SilverfoxError::from(ParseError {
+                    context: None,
+                    message: Some(format!("dates can't be written in the format `{d}`")),
+                }));
+            }
+
             self.date_format = d.into();
             Ok(())
         } else {
-- 
2.43.0


From c6868fe182fdeb6d9a803636fd7247af9fd6b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:08 +0000
Subject: [PATCH 21/27] fix: enforce balance assertions

---
 src/account.rs | 46 ++++++++++++++++++++++++++++++++++------------
 src/posting.rs |  8 ++++++++
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index e783319..a791b10 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -1,4 +1,4 @@
-use crate::amount::AmountPool;
+use crate::amount::{Amount, AmountPool};
 use crate::entry::Entry;
 use crate::envelope::{Envelope, EnvelopeType};
 use crate::errors::*;
@@ -145,17 +145,14 @@ impl Account {
 
         for posting in entry.get_postings() {
             if *posting.get_account() == self.name && !posting.is_envelope() {
-                if let Some(a) = posting.get_amount() {
-                    self.real_value += a;
-                } else {
-                    match entry.get_blank_amount() {
-                        Ok(o) => {
-                            if let Some(a) = o {
-                                self.real_value += a;
-                            }
-                        }
-                        Err(e) => return Err(e),
-                    }
+                let amount = match posting.get_amount() {
+                    Some(a) => a.clone(),
+                    None => entry.get_blank_amount()?.unwrap_or_else(Amount::zero),
+                };
+                self.real_value += &amount;
+
+                if let Some(asserted) = posting.get_balance_assertion() {
+                    self.assert_balance(&amount.symbol, asserted, entry)?;
                 }
             }
         }
@@ -163,6 +160,31 @@ impl Account {
         Ok(())
     }
 
+    /// Checks that the balance of this Account in the given currency is the one asserted (allowing
+    /// for what floating point arithmetic can't represent).
+    fn assert_balance(
+        &self,
+        symbol: &Option<String>,
+        asserted: &Amount,
+        entry: &Entry,
+    ) -> Result<(), ProcessingError> {
+        let balance = self.real_value.only(symbol).mag;
+        let same_symbol = asserted.symbol.is_none() || asserted.symbol == *symbol;
+        if same_symbol && (balance - asserted.mag).abs() <= 5e-9 + balance.abs() * 1e-12 {
+            return Ok(());
+        }
+
+        let message = format!(
+            "the balance of `{}` was asserted to be {}, but it's {}",
+            self.name,
+            asserted,
+            self.real_value.only(symbol)
+        );
+        Err(ProcessingError::default()
+            .set_message(&message)
+            .set_context(&entry.as_full_string()))
+    }
+
     pub fn display_envelopes(&self) {
         // if no envelopes to display, quit
         if self.expense_envelopes.is_empty() && self.goal_envelopes.is_empty() {
diff --git a/src/posting.rs b/src/posting.rs
index 2b00565..3df21ae 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -158,6 +158,14 @@ impl Posting {
         }
     }
 
+    /// Returns the Posting's balance assertion, if it has one
+    pub fn get_balance_assertion(&self) -> Option<&Amount> {
+        match self {
+            Self::Envelope(_) => None, // not applicable to envelope postings
+            Self::Classic(c) => c.balance_assertion.as_ref(),
+        }
+    }
+
     pub fn get_original_native_value(&self) -> Option<f64> {
         match self {
             Self::Envelope(_) => None, // not applicable to envelope postings
-- 
2.43.0


From f39161e57d332db3f23209fafbd0a043894365ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:31 +0000
Subject: [PATCH 22/27] fix: combine the declared currency with amounts that
 have no symbol

---
 src/account.rs    | 11 +++++++++++
 src/amount.rs     |  7 +++++++
 src/entry.rs      | 21 +++++++++++++++++++++
 src/envelope.rs   |  7 +++++++
 src/ledger/mod.rs | 13 +++++++++----
 src/posting.rs    | 18 ++++++++++++++++++
 6 files changed, 73 insertions(+), 4 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index a791b10..1dacfcc 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -108,6 +108,17 @@ impl Account {
         &self.name
     }
 
+    /// Makes amounts native if their symbol is the one of the native currency.
+    pub fn combine_native(&mut self, native_symbol: &str) {
+        for envelope in self
+            .expense_envelopes
+            .iter_mut()
+            .chain(self.goal_envelopes.iter_mut())
+        {
+            envelope.combine_native(native_symbol);
+        }
+    }
+
     pub fn add_envelope(&mut self, envelope: Envelope) -> Result<(), ValidationError> {
         let envelope_collection = match envelope.get_type() {
             EnvelopeType::Expense => &mut self.expense_envelopes,
diff --git a/src/amount.rs b/src/amount.rs
index bba4973..59ec909 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -70,6 +70,13 @@ impl Amount {
         }
     }
 
+    /// Makes this amount native if its symbol is the one of the native currency.
+    pub fn combine_native(&mut self, native_symbol: &str) {
+        if self.symbol.as_deref() == Some(native_symbol) {
+            self.symbol = None;
+        }
+    }
+
     /// Returns true if the char not a magnitude character, dot, or comma.
     fn is_symbol_char(c: char, decimal_symbol: char) -> bool {
         !is_mag_char(c, decimal_symbol) && c != '.' && c != ','
diff --git a/src/entry.rs b/src/entry.rs
index 558012e..2c249ec 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -106,6 +106,18 @@ impl Entry {
         date_format: &str,
         decimal_symbol: char,
         accounts: &HashSet<&String>,
+    ) -> Result<Self, SilverfoxError> {
+        Self::parse_with_native_symbol(chunk, date_format, decimal_symbol, accounts, "")
+    }
+
+    /// Parses an entry in which amounts with the `native_symbol` are the same as amounts without
+    /// any symbol.
+    pub fn parse_with_native_symbol(
+        chunk: &str,
+        date_format: &str,
+        decimal_symbol: char,
+        accounts: &HashSet<&String>,
+        native_symbol: &str,
     ) -> Result<Self, SilverfoxError> {
         let trimmed_chunk = chunk.trim();
         if trimmed_chunk.is_empty() {
@@ -144,12 +156,21 @@ impl Entry {
             }
         }
 
+        entry.combine_native(native_symbol);
+
         // validate this entry
         entry.validate(chunk)?;
 
         Ok(entry)
     }
 
+    /// Makes amounts native if their symbol is the one of the native currency.
+    pub fn combine_native(&mut self, native_symbol: &str) {
+        for posting in self.postings.iter_mut() {
+            posting.combine_native(native_symbol);
+        }
+    }
+
     fn parse_header(header: &str, date_format: &str) -> Result<Self, ParseError> {
         let clean_header = utils::remove_comments(header);
         let header_tokens = clean_header.split_whitespace().collect::<Vec<&str>>();
diff --git a/src/envelope.rs b/src/envelope.rs
index 41058b5..ae70c2e 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -416,6 +416,13 @@ impl Envelope {
         Ok(envelope)
     }
 
+    /// Makes amounts native if their symbol is the one of the native currency.
+    pub fn combine_native(&mut self, native_symbol: &str) {
+        self.amount.combine_native(native_symbol);
+        self.next_amount.combine_native(native_symbol);
+        self.now_amount.combine_native(native_symbol);
+    }
+
     pub fn get_name(&self) -> &str {
         &self.name
     }
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 5bfba82..a926355 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -189,11 +189,12 @@ impl Ledger {
     }
 
     fn parse_entry(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
-        match Entry::parse(
+        match Entry::parse_with_native_symbol(
             chunk,
             &self.date_format,
             self.decimal_symbol,
             &self.accounts.keys().collect(),
+            &self.default_currency,
         ) {
             Ok(entry) => self.add_entry(entry),
             Err(e) => Err(e),
@@ -220,13 +221,16 @@ impl Ledger {
     fn append_entries(&mut self, entries: Vec<Entry>) -> Result<(), SilverfoxError> {
         let mut text = String::new();
 
-        for entry in entries {
+        for mut entry in entries {
+            entry.combine_native(&self.default_currency);
+
             let parsable = entry.as_parsable(&self.date_format);
-            let reread = Entry::parse(
+            let reread = Entry::parse_with_native_symbol(
                 &parsable,
                 &self.date_format,
                 self.decimal_symbol,
                 &self.accounts.keys().collect(),
+                &self.default_currency,
             )?;
 
             let expected = entry.as_full_string();
@@ -261,7 +265,8 @@ impl Ledger {
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
-        let a = Account::parse(chunk, self.decimal_symbol, &self.date_format)?;
+        let mut a = Account::parse(chunk, self.decimal_symbol, &self.date_format)?;
+        a.combine_native(&self.default_currency);
         self.accounts.insert(a.get_name().to_string(), a);
 
         Ok(())
diff --git a/src/posting.rs b/src/posting.rs
index 3df21ae..2e49dc2 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -158,6 +158,24 @@ impl Posting {
         }
     }
 
+    /// Makes amounts native if their symbol is the one of the native currency.
+    pub fn combine_native(&mut self, native_symbol: &str) {
+        match self {
+            Self::Envelope(e) => e.amount.combine_native(native_symbol),
+            Self::Classic(c) => {
+                let cost = match &mut c.cost_assertion {
+                    Some(Cost::TotalCost(a)) | Some(Cost::UnitCost(a)) => Some(a),
+                    None => None,
+                };
+                for amount in [c.amount.as_mut(), cost, c.balance_assertion.as_mut()] {
+                    if let Some(a) = amount {
+                        a.combine_native(native_symbol);
+                    }
+                }
+            }
+        }
+    }
+
     /// Returns the Posting's balance assertion, if it has one
     pub fn get_balance_assertion(&self) -> Option<&Amount> {
         match self {
-- 
2.43.0


From 6ab7c445e831c9aaee813143bf3f52a0f97964ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:44 +0000
Subject: [PATCH 23/27] fix: refuse an expense and a goal of the same name in
 one account

---
 src/account.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 1dacfcc..06a0cdb 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -120,14 +120,18 @@ impl Account {
     }
 
     pub fn add_envelope(&mut self, envelope: Envelope) -> Result<(), ValidationError> {
+        // postings only name the envelope and not its type, so names have to differ across types
+        let envelope_exists = self
+            .expense_envelopes
+            .iter()
+            .chain(self.goal_envelopes.iter())
+            .any(|e| e.get_name() == envelope.get_name());
+
         let envelope_collection = match envelope.get_type() {
             EnvelopeType::Expense => &mut self.expense_envelopes,
             EnvelopeType::Goal => &mut self.goal_envelopes,
         };
 
-        let envelope_exists = envelope_collection
-            .iter()
-            .any(|e| e.get_name() == envelope.get_name());
         if envelope_exists {
             Err(ValidationError {
                 message: Some(format!(
-- 
2.43.0


From 059643afefbf8db970e53fc0a900de316362cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:45 +0000
Subject: [PATCH 24/27] fix: refuse a second definition of an account

---
 src/ledger/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index a926355..00d67ed 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -267,6 +267,15 @@ impl Ledger {
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
         let mut a = Account::parse(chunk, self.decimal_symbol, &self.date_format)?;
         a.combine_native(&self.default_currency);
+
+        // defining it again would discard what's known about the account already
+        if self.accounts.contains_key(a.get_name()) {
+            return Err(SilverfoxError::from(ValidationError {
+                message: Some(format!("the account `{}` is defined twice", a.get_name())),
+                context: Some(chunk.to_string()),
+            }));
+        }
+
         self.accounts.insert(a.get_name().to_string(), a);
 
         Ok(())
-- 
2.43.0


From d194967cd45a832a0847875832418177e06ca362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:27 +0000
Subject: [PATCH 25/27] fix: write entries at the beginning of their line,
 whatever the date format pads

---
 src/entry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 2c249ec..c8ad87e 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -537,7 +537,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     }
 
     pub fn as_parsable(&self, date_format: &str) -> String {
-        let date = self.date.format(date_format);
+        // an entry has to start at the very beginning of its line, so padding can't be kept
+        let date = self.date.format(date_format).to_string();
+        let date = date.trim_start();
 
         let mut s = String::new();
 
-- 
2.43.0


From 75054abfbfee0cc206d6067674f5e2cf1d2d7000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:34 +0000
Subject: [PATCH 26/27] fix: don't write automatic moves that round to zero

---
 src/amount.rs     | 2 +-
 src/ledger/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 59ec909..d588eeb 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -82,7 +82,7 @@ impl Amount {
         !is_mag_char(c, decimal_symbol) && c != '.' && c != ','
     }
 
-    fn rounded_mag(&self) -> f64 {
+    pub fn rounded_mag(&self) -> f64 {
         (self.mag * 100_000_000.0).round() / 100_000_000.0
     }
 }
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 00d67ed..9c88133 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -344,7 +344,7 @@ impl Ledger {
         // remove zero-magnitude postings, they're useless
         postings.retain(|p| {
             if let Some(a) = p.get_amount() {
-                a.mag != 0.0
+                a.rounded_mag() != 0.0
             } else {
                 false
             }
-- 
2.43.0


From bcfc17e6a53147228c3a02a1b3b6d55f05d6ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:07 +0000
Subject: [PATCH 27/27] fix: ignore spaces after the value of an import rule

---
 src/importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index c3d04d3..cba4950 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -247,7 +247,7 @@ impl Rules {
             }));
         };
 
-        let rule_value = rule_value.trim_start().to_string();
+        let rule_value = rule_value.trim().to_string();
 
         if rule_value.trim() == "-" {
             // resets a value
-- 
2.43.0

