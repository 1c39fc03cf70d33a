From dd13f4e881defe0be14457e7e85cc6f3d9899333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 001/100] fix: product of Pauli zero with a phase is zero,
 without a sign

---
 cpp/lib_moment/scenarios/pauli/pauli_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
index c20ff0e..8983759 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
@@ -194,8 +194,8 @@ namespace Moment::Pauli {
 
         // First, if RHS has no operators:
         if (rhs.empty()) {
-            if (rhs.zero()) {
-                // RHS is zero, so product is zero
+            if (rhs.zero() || lhs.zero()) {
+                // Either factor is zero, so product is zero (zero carries no sign)
                 return OperatorSequence::Zero(*this);
             } else {
                 // RHS is +1, +i, -1, or -i, so copy LHS with sign change.
-- 
2.43.0


From 5ace7e3d13ee7e905c17d7f82ee3490fc98cb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 002/100] fix: reducing a signed identity keeps its sign

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 52f50f8..4ded910 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -192,7 +192,7 @@ namespace Moment::Algebraic {
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
         if (input.empty()) {
-            return HashedSequence{input.zero()};
+            return input;
         } else if (this->monomialRules.empty()) {
             return input;
         }
-- 
2.43.0


From e2c67c0d33a0c08c02608ecab9dbc9e38bbde0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 003/100] fix: reduce operator rules against each other until
 none changes

---
 .../scenarios/algebraic/operator_rulebook.cpp         | 11 +++++++++++
 .../scenarios/algebraic/operator_rulebook.h           |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 4ded910..b1b182f 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -424,6 +424,17 @@ namespace Moment::Algebraic {
 
 
     size_t OperatorRulebook::reduce_ruleset(RuleLogger * logger) {
+        // Reducing one rule can make an earlier rule reducible, so repeat until nothing changes
+        size_t total_reduced = 0;
+        size_t reduced_in_pass = 0;
+        do {
+            reduced_in_pass = this->do_reduce_ruleset(logger);
+            total_reduced += reduced_in_pass;
+        } while (reduced_in_pass > 0);
+        return total_reduced;
+    }
+
+    size_t OperatorRulebook::do_reduce_ruleset(RuleLogger * logger) {
         size_t number_reduced = 0;
 
         auto rule_iter = this->monomialRules.begin();
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
index 95c709c..cd9a667 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
@@ -267,6 +267,12 @@ namespace Moment::Algebraic {
          */
         void recalculate_magnitude() noexcept;
 
+        /**
+         * Single pass over rules, reducing each by the others.
+         * @return The number of rules changed or removed by this pass.
+         */
+         size_t do_reduce_ruleset(RuleLogger * logger);
+
         /**
          * Register a new rule.
          */
-- 
2.43.0


From 5873cada61225973d6933796d89aff725c55a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 004/100] fix: conjugate of a word in a non-Hermitian algebraic
 context conjugates its sign

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 522f266..742c8b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -159,7 +159,7 @@ namespace Moment::Algebraic {
             return OperatorSequence::Zero(*this);
         }
 
-        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this};
+        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this, Moment::conjugate(seq.get_sign())};
     }
 
 
-- 
2.43.0


From e756c2465ede503c644e6c6d800ead5351c1a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 005/100] fix: a rule equating a word with a phase times itself
 sets it to zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rule.cpp     | 6 ++++--
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index cd31409..a0e877e 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -74,11 +74,13 @@ namespace Moment::Algebraic {
               delta{static_cast<ptrdiff_t>(rawRHS.size()) - static_cast<ptrdiff_t>(rawLHS.size())} {
 
         // Move negation to RHS
-        this->rawRHS.set_sign(difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
+        this->rawRHS.set_sign(this->map_to_zero ? SequenceSignType::Positive
+                                                : difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
         // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash()) && !this->rawRHS.negated();
+        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash())
+                            && (this->rawRHS.get_sign() == SequenceSignType::Positive);
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index b1b182f..5a8e82a 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -61,6 +61,11 @@ namespace Moment::Algebraic {
             return 0;
         }
 
+        // If LHS equals itself times a non-trivial phase, it must be zero
+        if (rule.rawLHS.hash() == rule.rawRHS.hash()) {
+            return this->do_add_rule(OperatorRule{rule.LHS(), HashedSequence(true)}, logger);
+        }
+
         // Check if rule LHS already exists
         auto hashLHS = rule.rawLHS.hash();
         auto preexistingIter = this->monomialRules.find(hashLHS);
@@ -377,7 +382,7 @@ namespace Moment::Algebraic {
         const SequenceSignType relative_sign = difference(lhs.get_sign(), rhs.get_sign());
 
         // Special reduction if rule implies something is zero:
-        if ((lhs.hash() == rhs.hash()) && (relative_sign == SequenceSignType::Negative)) {
+        if ((lhs.hash() == rhs.hash()) && (relative_sign != SequenceSignType::Positive)) {
             lhs.set_sign(SequenceSignType::Positive);
             return OperatorRule{std::move(lhs), HashedSequence(true)};
         }
-- 
2.43.0


From 7c6ebe1cdfaa891d106d6f4117d3110d54ab6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 006/100] fix: completion considers every overlap of operator
 rules, including of a rule with itself

---
 .../scenarios/algebraic/operator_rule.cpp     | 27 ++++--
 .../scenarios/algebraic/operator_rule.h       | 11 +++
 .../scenarios/algebraic/operator_rulebook.cpp | 82 +++++++++----------
 3 files changed, 69 insertions(+), 51 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index a0e877e..3680c98 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -165,14 +165,26 @@ namespace Moment::Algebraic {
             return std::nullopt;
         }
 
+        return this->combine(other, this->rawLHS.size() - static_cast<size_t>(overlap_size), pc);
+    }
+
+    std::optional<OperatorRule>
+    OperatorRule::combine(const OperatorRule &other, const size_t offset, const AlgebraicPrecontext& pc) const {
+        // Do left-hand-sides agree, where they meet?
+        if ((offset >= this->rawLHS.size()) || other.rawLHS.empty()) {
+            return std::nullopt;
+        }
+        const auto overlap_size = static_cast<ptrdiff_t>(std::min(this->rawLHS.size() - offset, other.rawLHS.size()));
+        const auto overlap_begin = this->rawLHS.begin() + static_cast<ptrdiff_t>(offset);
+        if (!std::equal(overlap_begin, overlap_begin + overlap_size, other.rawLHS.begin())) {
+            return std::nullopt;
+        }
+
         // Next, make merged string from both rules' LHS
         sequence_storage_t joined_string;
-        joined_string.reserve(static_cast<ptrdiff_t>(this->rawLHS.size() + other.rawLHS.size())
-                              - overlap_size);
-        std::copy(this->rawLHS.begin(), this->rawLHS.end() - static_cast<ptrdiff_t>(overlap_size),
-                  std::back_inserter(joined_string));
-        std::copy(other.rawLHS.begin(), other.rawLHS.end(),
-                  std::back_inserter(joined_string));
+        joined_string.reserve(this->rawLHS.size() + other.rawLHS.size() - static_cast<size_t>(overlap_size));
+        std::copy(this->rawLHS.begin(), this->rawLHS.end(), std::back_inserter(joined_string));
+        std::copy(other.rawLHS.begin() + overlap_size, other.rawLHS.end(), std::back_inserter(joined_string));
 
         // Apply this rule to joint string
         auto rawViaThis = this->apply_match_with_hint(joined_string, joined_string.begin());
@@ -180,8 +192,7 @@ namespace Moment::Algebraic {
 
         // Apply other rule to joint string
         auto rawViaOther = other.apply_match_with_hint(joined_string,
-                                                       joined_string.cend()
-                                                        - static_cast<ptrdiff_t>(other.rawLHS.size()));
+                                                       joined_string.cbegin() + static_cast<ptrdiff_t>(offset));
         auto rawHashOther = other.implies_zero() ? 0 : pc.hash(rawViaOther);
 
         // Negative if only one rule involves negation (and we are not setting to zero).
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.h b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
index 740b8b2..85aa342 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
@@ -78,6 +78,17 @@ namespace Moment::Algebraic {
         [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
                                                           const AlgebraicPrecontext& precontext) const;
 
+        /**
+         * Forms a new rule from the place where the left-hand-side of other begins at an offset within the
+         * left-hand-side of this rule (i.e. either this overlaps with other, or other is contained within this).
+         * @param other The rule to combine this with.
+         * @param offset The position in this left-hand-side where other begins.
+         * @param precontext The hash function, for generating new rule.
+         * @return The new rule, if left-hand-sides agree where they meet, empty otherwise.
+         */
+        [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other, size_t offset,
+                                                          const AlgebraicPrecontext& precontext) const;
+
         /**
          * True, if this rule directly implies the supplied other rule.
          */
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 5a8e82a..4358485 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -493,26 +493,24 @@ namespace Moment::Algebraic {
             auto &ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto &ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
-
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
+                // Try every way the rules' left-hand-sides can meet (but a rule always coincides with itself)
+                for (size_t offset = (iterA == iterB) ? 1 : 0; offset < ruleA.LHS().size(); ++offset) {
+                    // Can we form a rule by combining?
+                    auto maybe_combined_rule = ruleA.combine(ruleB, offset, this->precontext);
+                    if (!maybe_combined_rule.has_value()) {
+                        continue;
+                    }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
+                    // Reduce new rule
+                    auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
 
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
+                    // Is the new rule trivial?
+                    if (combined_reduced_rule.trivial()) {
+                        continue;
+                    }
+                    // Not complete: a non-trivial rule was found
+                    return false;
                 }
-                // Not complete: a non-trivial rule was found
-                return false;
             }
         }
         // Complete: no non-trivial rules were found.
@@ -529,37 +527,35 @@ namespace Moment::Algebraic {
             auto& ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto& ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
-
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
+                // Try every way the rules' left-hand-sides can meet (but a rule always coincides with itself)
+                for (size_t offset = (iterA == iterB) ? 1 : 0; offset < ruleA.LHS().size(); ++offset) {
+                    // Can we form a rule by combining?
+                    auto maybe_combined_rule = ruleA.combine(ruleB, offset, this->precontext);
+                    if (!maybe_combined_rule.has_value()) {
+                        continue;
+                    }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
+                    // Reduce new rule
+                    auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
 
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
+                    // Is the new rule trivial?
+                    if (combined_reduced_rule.trivial()) {
+                        continue;
+                    }
 
-                // Non-trivial, add it to rule set
-                if (logger) {
-                    logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
-                }
-                size_t rule_hash = combined_reduced_rule.LHS().hash();
-                this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
+                    // Non-trivial, add it to rule set
+                    if (logger) {
+                        logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
+                    }
+                    size_t rule_hash = combined_reduced_rule.LHS().hash();
+                    this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
 
-                // Reduce ruleset
-                this->reduce_ruleset(logger);
+                    // Reduce ruleset
+                    this->reduce_ruleset(logger);
 
-                // Signal a rule was added
-                return true;
+                    // Signal a rule was added
+                    return true;
+                }
             }
         }
 
-- 
2.43.0


From ef8f409ea6f2c7deb12d90e7f6d327fd393becc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 007/100] fix: conjugating a ruleset does not skip its first
 rule

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 4358485..00aed45 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -592,6 +592,7 @@ namespace Moment::Algebraic {
                 // A new rule was added, iter is de facto invalidated, so restart at beginning of set...
                 rule_iter = this->rules().begin();
                 ++added;
+                continue;
             }
             // No new rule, try next rule in set...
             ++rule_iter;
-- 
2.43.0


From d8159fab65e134eca72badf9bdd0cf68518eba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 008/100] fix: a word reduced in place to zero has no sign

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 00aed45..2794cfc 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -246,8 +246,7 @@ namespace Moment::Algebraic {
                 input.set_sign(sign_type);
                 break;
             case RawReductionResult::SetToZero:
-                input.raw().clear();
-                input.rehash(0);
+                input.set_to_zero();
                 break;
         }
         return result;
-- 
2.43.0


From 9b30dfc411e86bdddcf52f0b1c5f7c220c5a7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 009/100] fix: product of factor lists involving zero is just
 zero

---
 cpp/lib_moment/scenarios/inflation/factor_table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 6212088..f743ac6 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -368,6 +368,7 @@ namespace Moment::Inflation {
         // If "0" is somehow a factor of either left or right, the product is zero
         assert(!output.empty());
         if (output[0] == 0) [[unlikely]] {
+            output.clear();
             output.emplace_back(0);
             return;
         }
-- 
2.43.0


From 256f8d1f71380a12a1b23577dc7dbaf23e9ddbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 010/100] fix: observable number one past the end is out of
 range

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 72a0bf8..f697b47 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -474,7 +474,7 @@ namespace Moment::Inflation {
         output.reserve(input.size());
         size_t index = 0;
         for (const auto& ov : input) {
-            if (ov.observable > this->inflated_observables.size()) {
+            if (ov.observable >= this->inflated_observables.size()) {
                 std::stringstream errSS;
                 errSS << "Observable \"" << ov.observable << "\" at index " << index << " out of range.";
                 throw errors::bad_observable{index, errSS.str()};
-- 
2.43.0


From abc5cfb3daa46131b8695a7ab6322a0b086cec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 011/100] fix: representative moment in inflation scenario
 keeps its sign

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index f697b47..8b9af3c 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -417,10 +417,10 @@ namespace Moment::Inflation {
 
         // If source-relabelling causes change in operator order, there could be further simplifications:
         if (!std::is_sorted(permuted_operators.cbegin(), permuted_operators.cend())) {
-            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this}); // recurse..!
+            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this, input.get_sign()}); // recurse..!
         }
 
-        return OperatorSequence{std::move(permuted_operators), *this};
+        return OperatorSequence{std::move(permuted_operators), *this, input.get_sign()};
     }
 
 
-- 
2.43.0


From 2314fb7b8868fb565564f38bfea7161b12bd18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 012/100] fix: hash of a long presorted sequence is taken after
 its operators are moved in

---
 cpp/lib_moment/dictionary/operator_sequence.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.cpp b/cpp/lib_moment/dictionary/operator_sequence.cpp
index c51557b..e93fd8d 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.cpp
+++ b/cpp/lib_moment/dictionary/operator_sequence.cpp
@@ -41,8 +41,9 @@ namespace Moment {
                                        sequence_storage_t operators,
                                        const Context &context,
                                        const SequenceSignType sign_type) noexcept
-        : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
-
+        : HashedSequence{std::move(operators), 0, sign_type}, context{&context} {
+        // Hash calculated after move, as arguments may be evaluated in any order.
+        this->the_hash = context.hash(this->operators);
     }
 
 
-- 
2.43.0


From 7ddd55c613f2d1655c03a8c13203924f56daa364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 013/100] fix: longest hashable string does not overflow the
 hash

---
 cpp/lib_moment/shortlex_hasher.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/shortlex_hasher.h b/cpp/lib_moment/shortlex_hasher.h
index e650b0d..6a4ce13 100644
--- a/cpp/lib_moment/shortlex_hasher.h
+++ b/cpp/lib_moment/shortlex_hasher.h
@@ -68,9 +68,16 @@ namespace Moment {
                 // Hash is basically just string length for radix 1.
                 return std::numeric_limits<size_t>::max() - this->offset;
             }
-            return static_cast<size_t>(
-                    static_cast<double>(std::numeric_limits<size_t>::digits) / std::log2(this->radix)
-            );
+            if (this->radix == 0) {
+                return 0; // No operators, so only the empty string.
+            }
+            // Largest length for which the hash of the last string of that length does not overflow.
+            const hash_t limit = (std::numeric_limits<hash_t>::max() - this->offset) / this->radix;
+            size_t length = 0;
+            for (hash_t last = 0; last < limit; last = (last + 1) * this->radix) {
+                ++length;
+            }
+            return length;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 6556ba003f897429d4679c7aae4a286236ac5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 014/100] fix: a word list made by another thread meanwhile is
 found by its own entry

---
 cpp/lib_moment/dictionary/dictionary.cpp            | 4 ++--
 cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.cpp b/cpp/lib_moment/dictionary/dictionary.cpp
index fae13fe..f56c76b 100644
--- a/cpp/lib_moment/dictionary/dictionary.cpp
+++ b/cpp/lib_moment/dictionary/dictionary.cpp
@@ -51,8 +51,8 @@ namespace Moment {
         std::atomic_thread_fence(std::memory_order_acquire);
         auto reattempt_offset_iter = this->npa_level_to_offset.find(npa_level);
         if (reattempt_offset_iter != this->npa_level_to_offset.cend()) {
-            const ptrdiff_t offset = offset_iter->second;
-            assert(offset >= this->osgs.size());
+            const ptrdiff_t offset = reattempt_offset_iter->second;
+            assert(offset < this->osgs.size());
             return this->osgs[offset]; // Discard pointless creation...!
         }
 
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
index d1d4872..dbe0f6b 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
@@ -41,7 +41,7 @@ namespace Moment::Pauli {
         auto recheck_key = this->nn_indices.find(index);
         if (recheck_key != this->nn_indices.cend()) {
             // We were beaten in a race to create OSG, so discard work and return existing OSG.
-            const auto osg_offset = find_key->second;
+            const auto osg_offset = recheck_key->second;
             assert(osg_offset < this->osgs.size());
             return this->osgs[osg_offset]; // ~write_lock, ~new_osg
         }
-- 
2.43.0


From 4318d2bef94f9171cf28f4f29aa514cddfc8bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 015/100] fix: word lists handed out by a dictionary stay valid
 when it grows

---
 cpp/lib_moment/dictionary/dictionary.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.h b/cpp/lib_moment/dictionary/dictionary.h
index 5af507d..3c7f491 100644
--- a/cpp/lib_moment/dictionary/dictionary.h
+++ b/cpp/lib_moment/dictionary/dictionary.h
@@ -14,6 +14,7 @@
 #include "multithreading/maintains_mutex.h"
 
 #include <atomic>
+#include <deque>
 #include <map>
 #include <vector>
 
@@ -28,8 +29,8 @@ namespace Moment {
      */
     class Dictionary : protected MaintainsMutex {
     protected:
-        /** List of operator sequences */
-        mutable std::vector<OSGPair> osgs;
+        /** List of operator sequences. References to elements are handed out, so must survive growth. */
+        mutable std::deque<OSGPair> osgs;
 
         /** Key, linking NPA hierarchy level (e.g. moment matrix level) to generator offset */
         mutable std::map<size_t, size_t> npa_level_to_offset;
-- 
2.43.0


From c89edbc28f9db851800cbeb673e86625651bfca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 016/100] fix: phase between a word and its symbol's word is
 kept

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 15 ++++++++-------
 cpp/lib_moment/matrix/value_matrix.cpp            |  1 +
 cpp/lib_moment/symbolic/polynomial_factory.cpp    | 13 ++++++++++---
 cpp/lib_moment/symbolic/symbol.h                  | 14 ++++++++++++++
 cpp/lib_moment/symbolic/symbol_table.cpp          |  3 ++-
 5 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2c8e1c4..a0f12ad 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -202,7 +202,6 @@ namespace Moment {
 
                     const size_t hash = elem.hash();
 
-                    const auto monomial_sign = to_scalar(elem.get_sign());
 
                     auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
                     if (symbol_id == std::numeric_limits<ptrdiff_t>::max()) {
@@ -212,6 +211,7 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    const auto monomial_sign = to_scalar(unique_elem.relative_sign(elem.get_sign(), conjugated));
 
                     if constexpr (has_prefactor) {
                         symbolic_representation[iter.Offset()] = Monomial{unique_elem.Id(), prefactor * monomial_sign,
@@ -257,10 +257,6 @@ namespace Moment {
                 for (size_t offset = 0; offset < osm.ElementCount; ++offset) {
                     const auto& elem = osm[offset];
 
-                    auto elem_factor = to_scalar(elem.get_sign());
-                    if constexpr (has_prefactor) {
-                        elem_factor *= this->prefactor;
-                    }
                     const size_t hash = elem.hash();
 
                     auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
@@ -272,6 +268,10 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    auto elem_factor = to_scalar(unique_elem.relative_sign(elem.get_sign(), conjugated));
+                    if constexpr (has_prefactor) {
+                        elem_factor *= this->prefactor;
+                    }
 
                     symbolic_representation[offset] = Monomial{unique_elem.Id(), elem_factor, conjugated};
                 }
@@ -554,7 +554,6 @@ namespace Moment {
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
-                const auto mono_factor = prefactor * to_scalar(elem.get_sign());
                 const size_t hash = elem.hash();
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -565,6 +564,8 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                const auto mono_factor = prefactor
+                                            * to_scalar(unique_elem.relative_sign(elem.get_sign(), conjugated));
 
                 this->bundle.sm_data_ptr[offset] = Monomial{unique_elem.Id(),
                                                             mono_factor,
@@ -590,7 +591,6 @@ namespace Moment {
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
                 const size_t hash = elem.hash();
-                const auto monomial_sign = to_scalar(elem.get_sign());
 
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -601,6 +601,7 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                const auto monomial_sign = to_scalar(unique_elem.relative_sign(elem.get_sign(), conjugated));
 
                 // Write entry
                 write_ptr[offset] = Monomial{unique_elem.Id(), prefactor * monomial_sign, conjugated};
diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 783fef0..4c83f0e 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -169,6 +169,7 @@ namespace Moment {
             // Find existing symbol
             auto existing = symbol_table.where(lhs);
             if (existing.found()) {
+                weight *= to_scalar(existing->relative_sign(lhs.get_sign(), existing.is_conjugated));
                 return Monomial{existing.symbol->Id(), weight, existing.is_conjugated};
             }
 
diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 1dd0772..a08a16b 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -47,6 +47,12 @@ namespace Moment {
     }
 
     namespace {
+        /** Weight of term, accounting for any phase between its operator sequence and that of the symbol. */
+        [[nodiscard]] inline std::complex<double>
+        symbol_weight(const SymbolLookupResult& search, const auto& term) {
+            return term.weight * to_scalar(search->relative_sign(term.sequence.get_sign(), search.is_conjugated));
+        }
+
         [[nodiscard]] inline Polynomial::storage_t
         make_storage_data_from_raw(const SymbolTable& symbols, const RawPolynomial& raw) {
             Polynomial::storage_t output_storage;
@@ -57,7 +63,7 @@ namespace Moment {
                     throw errors::unregistered_operator_sequence{elem.sequence.formatted_string(), elem.sequence.hash()};
                 }
                 assert(search.symbol != nullptr); // ^- above should throw if this is true.
-                output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                output_storage.emplace_back(search->Id(), symbol_weight(search, elem), search.is_conjugated);
             }
             return output_storage;
         }
@@ -73,10 +79,11 @@ namespace Moment {
                     const symbol_name_t inserted_id = symbols.merge_in(OperatorSequence{elem.sequence});
                     auto search_again = symbols.where(elem.sequence); // Search again, could be alised, or conjugated.
                     assert(search_again.found());
-                    output_storage.emplace_back(search_again->Id(), elem.weight, search_again.is_conjugated);
+                    output_storage.emplace_back(search_again->Id(), symbol_weight(search_again, elem),
+                                                search_again.is_conjugated);
                 } else {
                     assert(search.symbol != nullptr);
-                    output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                    output_storage.emplace_back(search->Id(), symbol_weight(search, elem), search.is_conjugated);
                 }
             }
             return output_storage;
diff --git a/cpp/lib_moment/symbolic/symbol.h b/cpp/lib_moment/symbolic/symbol.h
index eed34eb..15560a7 100644
--- a/cpp/lib_moment/symbolic/symbol.h
+++ b/cpp/lib_moment/symbolic/symbol.h
@@ -91,6 +91,20 @@ namespace Moment {
             return this->hermitian ? opSeq.value() : this->conjSeq.value();
         }
 
+        /**
+         * The phase by which an operator sequence differs from the one associated with this entry.
+         * @param sign The sign of the sequence.
+         * @param is_conjugated True, if the sequence is associated with this entry's complex conjugate.
+         */
+        [[nodiscard]] constexpr SequenceSignType
+        relative_sign(const SequenceSignType sign, const bool is_conjugated) const noexcept {
+            if (!this->opSeq.has_value()) {
+                return sign;
+            }
+            const auto& reference = is_conjugated ? this->sequence_conj() : this->sequence();
+            return difference(reference.get_sign(), sign);
+        }
+
         /**
          * Does the operator sequence represent its Hermitian conjugate?
          * If true, the element will correspond to a real symbol (cf. complex if not) in the NPA matrix.
diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7e87051..c701fd3 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -286,7 +286,8 @@ namespace Moment {
             return Monomial{0};
         }
 
-        return Monomial{this->unique_sequences[id].id, conj};
+        const auto& symbol = this->unique_sequences[id];
+        return Monomial{symbol.id, to_scalar(symbol.relative_sign(seq.get_sign(), conj)), conj};
     }
 
 
-- 
2.43.0


From 2994dc115102df9bcf1a979185e624539f521aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 017/100] fix: filling a symbol table no longer marks
 anti-hermitian words as hermitian

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index c701fd3..7b34009 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -325,10 +325,10 @@ namespace Moment {
             const size_t seq_hash = op_seq.hash();
             const size_t conj_hash = conj_seq.hash();
 
-            if (seq_hash == conj_hash) {
+            if ((seq_hash == conj_hash) && (op_seq.get_sign() == conj_seq.get_sign())) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq}));
-            } else if (seq_hash < conj_hash) {
+            } else if (seq_hash <= conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
             }
-- 
2.43.0


From 7de518c151ae6da0665842b30d9cd3ca918b8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 018/100] fix: Polynomial::is_conjugate compares factors and
 conjugation of complex symbols

---
 cpp/lib_moment/symbolic/polynomial.cpp | 43 +-------------------------
 1 file changed, 1 insertion(+), 42 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a4191f2..798d1e7 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -365,48 +365,7 @@ namespace Moment {
     }
 
     bool Polynomial::is_conjugate(const SymbolTable& symbols, const Polynomial &other) const noexcept {
-        if (this->data.size() != other.data.size()) {
-            return false;
-        }
-        for (size_t index = 0, iMax = this->data.size(); index < iMax; ++index) {
-            const auto& lhs_elem = this->data[index];
-            const auto& rhs_elem = other.data[index];
-
-            if (lhs_elem.id != rhs_elem.id) {
-                return false;
-            }
-            assert(lhs_elem.id < symbols.size());
-            const auto& symbolInfo = symbols[lhs_elem.id];
-
-            // Zero is zero.
-            if (lhs_elem.id == 0) {
-                continue;
-            }
-            // Nothing else is zero.
-            assert(!(symbolInfo.is_antihermitian() && symbolInfo.is_hermitian()));
-
-            if (symbolInfo.is_hermitian()) {
-                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
-                    return false;
-                }
-                // no need to compare conjugation, symbol is real.
-            } else if (symbolInfo.is_antihermitian()) {
-                // Symbol is purely imaginary; so either A = -A, or A = A*.
-                if (lhs_elem.factor == std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated == rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else if (lhs_elem.factor == -std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated != rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else {
-                    return false;
-                }
-            }
-        }
-
-        return true;
+        return this->conjugate(symbols).approximately_equals(other.fix_cc(symbols));
     }
 
     Polynomial Polynomial::Real(const PolynomialFactory &factory) const {
-- 
2.43.0


From ca59953598c8d2f87b6a47aa6872dc76cb32487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 019/100] fix: Polynomial::real_or_imaginary_if_close honours
 the tolerance

---
 cpp/lib_moment/symbolic/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index 798d1e7..d6e84ca 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -101,7 +101,7 @@ namespace Moment {
 
     void Polynomial::real_or_imaginary_if_close(double zero_tolerance) noexcept {
         for (auto& elem : this->data) {
-            Moment::real_or_imaginary_if_close(elem.factor);
+            Moment::real_or_imaginary_if_close(elem.factor, zero_tolerance);
         }
     }
 
-- 
2.43.0


From a4edd430e278948cc563c598bcc05634502c3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 020/100] fix: maximum degree of a polynomial with symbols that
 have no word no longer loops forever

---
 cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
index de4df98..0b3a76d 100644
--- a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
+++ b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
@@ -48,6 +48,7 @@ namespace Moment {
             if (symbol.has_sequence()) {
                 return symbol.sequence().size();
             }
+            ++rev_iter;
         }
 
         // Nothing found; 0 degree
-- 
2.43.0


From f697984ac767ba26325386e8f0e0da2b88ecc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 021/100] fix: sums with a monomial that is zero have no zero
 term

---
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index a08a16b..76455fd 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -101,6 +101,14 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Monomial& lhs, const Monomial& rhs) const {
+        // Zeros do not appear as terms
+        if ((lhs.id == 0) || approximately_zero(lhs.factor, this->zero_tolerance)) {
+            return Polynomial{rhs, this->zero_tolerance};
+        }
+        if ((rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return Polynomial{lhs, this->zero_tolerance};
+        }
+
         // "Monomial"-like sum
         if ((lhs.id == rhs.id) && (lhs.conjugated == rhs.conjugated)) {
             std::complex<double> factor = lhs.factor + rhs.factor;
@@ -120,6 +128,11 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& rhs) const {
+        // Zeros do not appear as terms
+        if ((rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return lhs;
+        }
+
         Polynomial output;
         output.data.reserve(lhs.size()+1);
 
-- 
2.43.0


From 5806aa01f73d55a6c55e5592cfac8cf7bfa7e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 022/100] fix: complex basis vector from real and imaginary
 parts weighs the real part by one

---
 cpp/lib_moment/symbolic/polynomial_to_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.h b/cpp/lib_moment/symbolic/polynomial_to_basis.h
index 58877b6..f268fd8 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.h
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.h
@@ -54,7 +54,7 @@ namespace Moment {
 
         ComplexBasisVector() = default;
         explicit ComplexBasisVector(const RealAndImaginaryBasisVector& expr) {
-            this->real = (std::complex<double>{0.0, 1.0} * expr.real_part.real)
+            this->real = (std::complex<double>{1.0, 0.0} * expr.real_part.real)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.real;
             this->imaginary = (std::complex<double>{1.0, 0.0} * expr.real_part.imaginary)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.imaginary;
-- 
2.43.0


From 722d73b160b2288d81a77f98a358ff6731ff90f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 023/100] fix: imaginary part of a basis vector has the
 imaginary factors of hermitian elements

---
 cpp/lib_moment/symbolic/polynomial_to_basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
index fdd2ab2..feb8450 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
@@ -230,7 +230,7 @@ namespace Moment {
                     // Im(Z) can be non-zero
                     if constexpr(export_imaginary) {
                         if (!approximately_zero(bz_factor_ax, zero_tolerance)) {
-                            imaginary_output.real.insert(basis_X_real) = az_factor_ax;
+                            imaginary_output.real.insert(basis_X_real) = bz_factor_ax;
                         }
                     }
 
-- 
2.43.0


From 580d31bc2a7931ddba49c47fde3b15fc39c458c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 024/100] fix: basis mask of a monomial includes the first
 basis element

---
 cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
index cc0a373..2f19e21 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
@@ -99,10 +99,10 @@ namespace Moment {
         }
         auto& symbol_info = this->symbols[monomial.id];
         auto [re_basis_index, im_basis_index] = symbol_info.basis_key();
-        if (re_basis_index > 0) {
+        if (re_basis_index >= 0) {
             real_mask.set(re_basis_index);
         }
-        if (im_basis_index > 0) {
+        if (im_basis_index >= 0) {
             imaginary_mask.set(im_basis_index);
         }
     }
-- 
2.43.0


From 56c547c899e54d3dd91ce3968bd616131944c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 025/100] fix: injecting a second moment rule for a symbol does
 not change the rulebook's properties

The rule is not added, but is_monomial() and is_hermitian() were updated as if it were.
---
 cpp/lib_moment/symbolic/rules/moment_rulebook.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 9f6999e..d0fb88e 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -97,6 +97,11 @@ namespace Moment {
         assert (id < this->symbols.size());
 
         // If non-monomial rule is directly injected, rulebook becomes non-monomial.
+        // If symbol already has a rule, the new one is not added (and so cannot change the rulebook's properties)
+        if (this->rules.contains(id)) {
+            return false;
+        }
+
         if (!msr.RHS().is_monomial()) {
             this->monomial_rules = false;
         }
-- 
2.43.0


From 19afac915c09a4f87e9a8f7709ff4d955fa6b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 026/100] fix: rewrite matrix of a moment rulebook yields
 vectors that satisfy all rules

When a rule fixes only a combination of the real and the imaginary part of a symbol, one part is replaced by the other.
Rows of other rules still referred to the replaced part, so the rewritten vector broke those rules.
---
 .../symbolic/rules/moment_rulebook_to_basis.cpp   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
index a82aa51..58689bb 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
@@ -15,6 +15,8 @@
 
 #include "../symbol_table.h"
 
+#include <limits>
+
 namespace Moment {
 
     MomentRulebookToBasis::MomentRulebookToBasis(const PolynomialFactory& factory,
@@ -42,6 +44,9 @@ namespace Moment {
         PolynomialToBasisVec to_basis{this->symbols, this->zero_tolerance};
         std::vector<Eigen::Triplet<double>> triplets;
 
+        // Number of partial rules, whose symbols are only constrained in combination of real and imaginary part.
+        size_t oblique_rules = 0;
+
         for (const auto& [symbol_id, rule] : rulebook) {
             assert(symbol_id < this->symbols.size());
             const auto& lhs_info = this->symbols[symbol_id];
@@ -66,6 +71,7 @@ namespace Moment {
 
                     // We will leave one of a or b unconstrained, in a manner to ensure numeric stability;
                     // Particularly, 1/cos(d) and 1/sin(d) range from 1 to sqrt(2), and tan(d)/cot(d) range from 0 to 1.
+                    ++oblique_rules;
                     const bool mostly_real = abs(cos_delta) >= abs(sin_delta);
 
                     // Copy rule RHS, removing last two terms, then rotate to real part
@@ -126,6 +132,15 @@ namespace Moment {
         // Construct matrix
         output_t output{num_elems, num_elems};
         output.setFromTriplets(triplets.begin(), triplets.end());
+
+        // The right-hand side of other rules can depend on the element replaced by an oblique rule.
+        // Hence, substitute repeatedly until these elements no longer appear.
+        if (export_mode == ExportMode::Rewrite) {
+            for (size_t depth = 1; depth <= oblique_rules; depth *= 2) {
+                output = output_t{output * output};
+                output.prune(1.0, this->zero_tolerance * std::numeric_limits<double>::epsilon());
+            }
+        }
         return output;
     }
 
-- 
2.43.0


From d0dbf564839a577cdfdf7b7e0baf1f713f9a1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 027/100] fix: localizing matrices of words with different
 signs are different matrices

---
 .../matrix_system/indices/localizing_matrix_index.h         | 6 +++++-
 cpp/lib_moment/scenarios/pauli/indices/monomial_index.h     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
index 5404846..a516864 100644
--- a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
+++ b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
@@ -41,7 +41,11 @@ namespace Moment {
             }
 
             // Then by sequence hash...
-            return (this->WordHash < rhs.WordHash);
+            if (this->WordHash != rhs.WordHash) {
+                return this->WordHash < rhs.WordHash;
+            }
+            // Hash does not include sign
+            return this->Word.get_sign() < rhs.Word.get_sign();
         }
 
         /**
diff --git a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
index f38185c..f357901 100644
--- a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
+++ b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
@@ -62,7 +62,11 @@ namespace Moment::Pauli {
             }
 
             // Tie-break on word hash
-            return this->WordHash < pmmi.WordHash;
+            if (this->WordHash != pmmi.WordHash) {
+                return this->WordHash < pmmi.WordHash;
+            }
+            // Hash does not include sign
+            return this->Word.get_sign() < pmmi.Word.get_sign();
         }
 
         [[nodiscard]] operator ::Moment::LocalizingMatrixIndex() const {
-- 
2.43.0


From 3b0157824b3bb00e5de51586e21b7e58de5a703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 028/100] fix: matrices of unregistered words in scenarios with
 aliases

---
 cpp/lib_moment/matrix/composite_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/composite_matrix.h b/cpp/lib_moment/matrix/composite_matrix.h
index 6993ff2..a3d8009 100644
--- a/cpp/lib_moment/matrix/composite_matrix.h
+++ b/cpp/lib_moment/matrix/composite_matrix.h
@@ -259,7 +259,7 @@ namespace Moment {
             }
 
             // Make approximate and true index
-            auto aliased_polynomial = poly_factory.construct(raw_polynomial);
+            auto aliased_polynomial = poly_factory.register_and_construct(symbols, raw_polynomial);
             return std::make_unique<ImplType>(context, symbols, system.polynomial_factory(),
                                               polynomial_index_t{std::move(osg_index), std::move(aliased_polynomial)},
                                               std::move(constituents),
-- 
2.43.0


From 1e000734075c75dd211d26102bb3107a0dba45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 029/100] fix: product of Hermitian matrix with complex number
 is not Hermitian

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 34 +++++++++++++++++++++++
 cpp/lib_moment/matrix/monomial_matrix.h   |  3 ++
 2 files changed, 37 insertions(+)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 9bd2d78..4fe823e 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -67,10 +67,44 @@ namespace Moment {
         } else if (this->unaliased_op_mat) { // Otherwise, properties from unaliased matrix
             this->unaliased_op_mat->set_properties(*this);
         }
+
+        // A prefactor that is complex (or zero) can make the matrix differ in Hermiticity from its operators
+        if (!approximately_real(prefactor) || approximately_zero(prefactor)) {
+            this->hermitian = test_hermicity(symbols, *this->sym_exp_matrix);
+        }
     }
 
     MonomialMatrix::~MonomialMatrix() noexcept = default;
 
+    bool MonomialMatrix::test_hermicity(const SymbolTable& table, const SquareMatrix<Monomial>& matrix) {
+        for (size_t row = 0; row < matrix.dimension; ++row) {
+            for (size_t col = row; col < matrix.dimension; ++col) {
+                const auto& upper = matrix(std::array<size_t, 2>{row, col});
+                const auto& lower = matrix(std::array<size_t, 2>{col, row});
+                if (upper.id != lower.id) {
+                    return false;
+                }
+                if (upper.id == 0) {
+                    continue;
+                }
+                auto lower_conj_factor = std::conj(lower.factor);
+                bool lower_conjugated = !lower.conjugated;
+                const auto& symbol = table[lower.id];
+                if (symbol.is_hermitian() || symbol.is_antihermitian()) {
+                    lower_conjugated = lower.conjugated;
+                    if (!symbol.is_hermitian()) {
+                        lower_conj_factor = -lower_conj_factor;
+                    }
+                }
+                if ((upper.conjugated != lower_conjugated)
+                        || !approximately_equal(upper.factor, lower_conj_factor)) {
+                    return false;
+                }
+            }
+        }
+        return true;
+    }
+
     void MonomialMatrix::renumerate_bases(const SymbolTable &symbols, double zero_tolerance) {
         for (auto& symbol : *this->sym_exp_matrix) {
             // Make conjugation status canonical:~
diff --git a/cpp/lib_moment/matrix/monomial_matrix.h b/cpp/lib_moment/matrix/monomial_matrix.h
index cba0674..f0c07bb 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.h
+++ b/cpp/lib_moment/matrix/monomial_matrix.h
@@ -149,6 +149,9 @@ namespace Moment {
          */
         void identify_symbols_and_basis_indices();
 
+        /** True, if matrix of monomials is equal to its conjugate transpose. */
+        [[nodiscard]] static bool test_hermicity(const SymbolTable& symbols, const SquareMatrix<Monomial>& matrix);
+
     public:
        /**
         * Constructs a matrix of all zeros.
-- 
2.43.0


From e5117f5be4aeb656e12d49d0b3bc83e5b81e8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 030/100] fix: hermiticity of a matrix of values times an
 operator with a complex weight

---
 cpp/lib_moment/matrix/value_matrix.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 4c83f0e..8a3bb23 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -206,17 +206,7 @@ namespace Moment {
             auto mat_data_ptr = std::make_unique<SquareMatrix<Monomial>>(this->dimension, std::move(matrix_data));
 
             // Deduce if Hermitian
-            const bool new_matrix_hermitian = [&]() {
-                if (this->hermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::Hermitian);
-                } else if (this->antihermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::AntiHermitian);
-                } else {
-                    return false;
-                }
-            }();
+            const bool new_matrix_hermitian = test_hermicity(symbol_table, *mat_data_ptr);
 
             // Create new matrix
             return std::make_unique<MonomialMatrix>(this->context, symbol_table, poly_factory.zero_tolerance,
-- 
2.43.0


From 637138ad66e4920a7f54732ad9d6b809f5641d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 031/100] fix: matrices of values can be multiplied by symbols

---
 cpp/lib_moment/matrix/value_matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/lib_moment/matrix/value_matrix.h b/cpp/lib_moment/matrix/value_matrix.h
index dae4acd..c618791 100644
--- a/cpp/lib_moment/matrix/value_matrix.h
+++ b/cpp/lib_moment/matrix/value_matrix.h
@@ -41,6 +41,8 @@ namespace Moment {
                     Eigen::SparseMatrix<std::complex<double>>& data,
                     std::optional<std::string> description = std::nullopt);
 
+        /** Values can always be multiplied, no operator matrix is required. */
+        void throw_error_if_cannot_multiply() const override { }
 
         std::unique_ptr<SymbolicMatrix>
         pre_multiply(const OperatorSequence& lhs, std::complex<double> weight, const PolynomialFactory& poly_factory,
-- 
2.43.0


From e185fb27808b018d7c90c04ae60bd9457735f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 032/100] fix: sparse matrix with elements only above the
 diagonal is not Hermitian

---
 cpp/lib_moment/utilities/eigen_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 69e994b..6c01ebf 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -78,7 +78,7 @@ namespace Moment {
 
         for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
             for  (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
-                if (inner_iter.row() > outer) {
+                if (inner_iter.row() != outer) {
                     if (!approximately_equal(data.coeff(inner_iter.col(), inner_iter.row()),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -103,7 +103,7 @@ namespace Moment {
                     if (!approximately_real(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else {
                     if (!approximately_equal(std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -145,7 +145,7 @@ namespace Moment {
                     if (!approximately_imaginary(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else {
                     if (!approximately_equal(-std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
-- 
2.43.0


From 24b4665716dcbd9380d47b65a193b1aa1e3d0c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 033/100] fix: real antisymmetric matrices of values are
 anti-Hermitian

---
 cpp/lib_moment/matrix/value_matrix.cpp   |  8 ++------
 cpp/lib_moment/utilities/eigen_utils.cpp |  9 +++++++++
 cpp/lib_moment/utilities/eigen_utils.h   | 16 ++++++----------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 8a3bb23..b7d1fb5 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -87,9 +87,7 @@ namespace Moment {
         }
 
         // Since matrix is real, it can only be anti-Hermitian if it is zero.
-        if (is_zero(data)) {
-            this->antihermitian = true;
-        }
+        this->antihermitian = is_antihermitian(data, zero_tolerance);
 
     }
 
@@ -128,9 +126,7 @@ namespace Moment {
         }
 
         // Since matrix is real, it can only be anti-Hermitian if it is zero.
-        if (is_zero(data)) {
-            this->antihermitian = true;
-        }
+        this->antihermitian = is_antihermitian(data, zero_tolerance);
 
     }
 
diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 6c01ebf..ee70edc 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -114,6 +114,15 @@ namespace Moment {
         return true;
     }
 
+    bool is_antihermitian(const Eigen::MatrixXd& data, double zero_tolerance) noexcept {
+        return is_antihermitian(Eigen::MatrixXcd{data.cast<std::complex<double>>()}, zero_tolerance);
+    }
+
+    bool is_antihermitian(const Eigen::SparseMatrix<double>& data, double zero_tolerance) noexcept {
+        const Eigen::SparseMatrix<std::complex<double>> as_complex = data.cast<std::complex<double>>();
+        return is_antihermitian(as_complex, zero_tolerance);
+    }
+
     bool is_antihermitian(const Eigen::MatrixXcd& data, double zero_tolerance) noexcept {
         if (data.rows() != data.cols()) {
             return false;
diff --git a/cpp/lib_moment/utilities/eigen_utils.h b/cpp/lib_moment/utilities/eigen_utils.h
index 739802f..d4509b3 100644
--- a/cpp/lib_moment/utilities/eigen_utils.h
+++ b/cpp/lib_moment/utilities/eigen_utils.h
@@ -67,12 +67,10 @@ namespace Moment {
 
      /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
-     * For real-valued matrices, equivalent to testing if matrix is zero.
+     * For real-valued matrices, equivalent to testing if matrix is antisymmetric.
      */
-    [[nodiscard]] inline bool is_antihermitian(const Eigen::MatrixXd& data,
-                                    double zero_tolerance = 1.0) noexcept {
-        return is_zero(data, zero_tolerance);
-    }
+    [[nodiscard]] bool is_antihermitian(const Eigen::MatrixXd& data,
+                                        double zero_tolerance = 1.0) noexcept;
 
     /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
@@ -82,12 +80,10 @@ namespace Moment {
 
     /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
-     * For real-valued matrices, equivalent to testing if matrix is zero.
+     * For real-valued matrices, equivalent to testing if matrix is antisymmetric.
      */
-    [[nodiscard]] inline bool is_antihermitian(const Eigen::SparseMatrix<double>& data,
-                                        double zero_tolerance = 1.0) noexcept {
-        return is_zero(data, zero_tolerance);
-    }
+    [[nodiscard]] bool is_antihermitian(const Eigen::SparseMatrix<double>& data,
+                                        double zero_tolerance = 1.0) noexcept;
 
     /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
-- 
2.43.0


From ed91dcd29f7f2b5ad955f15e31459068de49b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 034/100] fix: copies of matrices that have no operators

---
 cpp/lib_moment/matrix/monomial_matrix.cpp   | 22 ++++++++++++---------
 cpp/lib_moment/matrix/polynomial_matrix.cpp | 10 ++++++++++
 cpp/lib_moment/matrix/polynomial_matrix.h   |  2 ++
 cpp/lib_moment/matrix/value_matrix.cpp      | 10 ++++++++++
 cpp/lib_moment/matrix/value_matrix.h        |  2 ++
 5 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 4fe823e..1f4b55c 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -202,15 +202,19 @@ namespace Moment {
                                                                               std::move(cloned_symbol_data));
 
         // Make copy of the matrix
-        std::unique_ptr<MonomialMatrix> copied_matrix =
-                std::make_unique<MonomialMatrix>(symbol_table,
-                                                this->has_unaliased_operator_matrix()
-                                                    ? this->unaliased_operator_matrix().clone(policy)
-                                                    : nullptr,
-                                                context.can_have_aliases() && this->has_aliased_operator_matrix()
-                                                     ? this->aliased_operator_matrix().clone(policy)
-                                                     : nullptr,
-                                                 std::move(cloned_symbol_matrix));
+        std::unique_ptr<MonomialMatrix> copied_matrix;
+        if (this->has_unaliased_operator_matrix()) {
+            copied_matrix = std::make_unique<MonomialMatrix>(symbol_table,
+                                                             this->unaliased_operator_matrix().clone(policy),
+                                                             context.can_have_aliases()
+                                                             && this->has_aliased_operator_matrix()
+                                                                 ? this->aliased_operator_matrix().clone(policy)
+                                                                 : nullptr,
+                                                             std::move(cloned_symbol_matrix));
+        } else {
+            copied_matrix = std::make_unique<MonomialMatrix>(context, symbol_table, 1.0,
+                                                             std::move(cloned_symbol_matrix), this->hermitian);
+        }
 
         // Copy other matrix properties:
         this->copy_properties_onto_clone(*copied_matrix);
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 364ad3b..92ee441 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -147,6 +147,16 @@ namespace Moment {
     /**
      * Force renumbering of matrix bases keys
      */
+    std::unique_ptr<SymbolicMatrix> PolynomialMatrix::clone(Multithreading::MultiThreadPolicy /* policy */) const {
+        auto cloned_data = std::make_unique<MatrixData>(
+            this->dimension, MatrixData::StorageType(this->sym_exp_matrix->begin(), this->sym_exp_matrix->end())
+        );
+        auto copied_matrix = std::make_unique<PolynomialMatrix>(this->context, this->symbol_table, 1.0,
+                                                                std::move(cloned_data));
+        this->copy_properties_onto_clone(*copied_matrix);
+        return copied_matrix;
+    }
+
     void PolynomialMatrix::renumerate_bases(const SymbolTable& symbols, double zero_tolerance) {
         for (auto& polynomial : *this->sym_exp_matrix) {
             polynomial.fix_cc_in_place(symbols, true, zero_tolerance);
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.h b/cpp/lib_moment/matrix/polynomial_matrix.h
index d8ab5ff..8f09ff3 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.h
+++ b/cpp/lib_moment/matrix/polynomial_matrix.h
@@ -122,6 +122,8 @@ namespace Moment {
         std::unique_ptr<PolynomialMatrix> add(const Polynomial& rhs, const PolynomialFactory& poly_factory,
                                               Multithreading::MultiThreadPolicy policy) const override;
 
+        std::unique_ptr<SymbolicMatrix> clone(Multithreading::MultiThreadPolicy policy) const override;
+
     protected:
         /**
          * Create dense basis.
diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index b7d1fb5..eb93a08 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -152,6 +152,16 @@ namespace Moment {
         }
     }
 
+    std::unique_ptr<SymbolicMatrix> ValueMatrix::clone(Multithreading::MultiThreadPolicy /* policy */) const {
+        const auto size = static_cast<Eigen::Index>(this->dimension);
+        Eigen::MatrixXcd values(size, size);
+        std::transform(this->SymbolMatrix().begin(), this->SymbolMatrix().end(), values.data(),
+                       [](const Monomial& elem) { return elem.factor; });
+        auto copied_matrix = std::make_unique<ValueMatrix>(this->context, this->symbol_table, 1.0, values);
+        this->copy_properties_onto_clone(*copied_matrix);
+        return copied_matrix;
+    }
+
     namespace {
         Monomial monomialize(const OperatorSequence& lhs, std::complex<double> weight, SymbolTable& symbol_table) {
             // Rotate to real, if necessary
diff --git a/cpp/lib_moment/matrix/value_matrix.h b/cpp/lib_moment/matrix/value_matrix.h
index c618791..2ad592d 100644
--- a/cpp/lib_moment/matrix/value_matrix.h
+++ b/cpp/lib_moment/matrix/value_matrix.h
@@ -41,6 +41,8 @@ namespace Moment {
                     Eigen::SparseMatrix<std::complex<double>>& data,
                     std::optional<std::string> description = std::nullopt);
 
+        std::unique_ptr<SymbolicMatrix> clone(Multithreading::MultiThreadPolicy policy) const override;
+
         /** Values can always be multiplied, no operator matrix is required. */
         void throw_error_if_cannot_multiply() const override { }
 
-- 
2.43.0


From 675bd7a511dab87fe9eda7371188b296ab155530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 035/100] fix: product of matrix and symbol used the conjugate
 of the symbol

---
 cpp/lib_moment/matrix/symbolic_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/symbolic_matrix.cpp b/cpp/lib_moment/matrix/symbolic_matrix.cpp
index 320de12..ca75e00 100644
--- a/cpp/lib_moment/matrix/symbolic_matrix.cpp
+++ b/cpp/lib_moment/matrix/symbolic_matrix.cpp
@@ -156,8 +156,8 @@ namespace Moment {
             // Resolve monomial into operator sequence using symbol table
             assert(mono.id >= 0 && mono.id < symbol_registry.size());
             assert(symbol_registry[mono.id].has_sequence());
-            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence()
-                                                      : symbol_registry[mono.id].sequence_conj();
+            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence_conj()
+                                                      : symbol_registry[mono.id].sequence();
 
             // Invoke operator sequence multiplication
             if constexpr (premultiply) {
-- 
2.43.0


From ab860bccfe13f29d1a0d71d9a3e81c00ca1e3dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 036/100] fix: zero words counted in the weight of a polynomial
 that multiplies values

---
 cpp/lib_moment/matrix/value_matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index eb93a08..b4adbb2 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -243,7 +243,9 @@ namespace Moment {
             if (lhs.is_scalar()) {
                 std::complex<double> cumulative_weight = 0;
                 for (const auto& elem : lhs) {
-                    cumulative_weight += elem.weight;
+                    if (!elem.sequence.zero()) {
+                        cumulative_weight += elem.weight * to_scalar(elem.sequence.get_sign());
+                    }
                 }
                 return ValueMatrix::pre_multiply(OperatorSequence::Identity(this->context), cumulative_weight,
                                                  poly_factory, symbol_table, policy);
-- 
2.43.0


From 0dd124725bca099521ddf7062e6c85cb67f9a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 037/100] fix: matrix that is Hermitian only after substitution
 was not said to be Hermitian

---
 cpp/lib_moment/matrix/substituted_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/matrix/substituted_matrix.cpp b/cpp/lib_moment/matrix/substituted_matrix.cpp
index 61ef4e2..756e09d 100644
--- a/cpp/lib_moment/matrix/substituted_matrix.cpp
+++ b/cpp/lib_moment/matrix/substituted_matrix.cpp
@@ -60,6 +60,11 @@ namespace Moment {
            SubstitutedMatrix{the_source, msrb} {
 
         this->description = this->make_name();
+
+        // Rules can also make a matrix Hermitian (or leave it so, if non-Hermitian rules do not apply to it)
+        if (!this->hermitian) {
+            this->hermitian = test_hermicity(symbols, *this->sym_exp_matrix);
+        }
     }
 
     std::unique_ptr<SquareMatrix<Monomial>>
-- 
2.43.0


From c4bd83eb5f45218d9d8a372ab7a2ef67faa58915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 038/100] fix: test of whether a matrix of polynomials is
 Hermitian ignored tolerance off the diagonal

---
 cpp/lib_moment/matrix/polynomial_matrix.cpp | 2 +-
 cpp/lib_moment/symbolic/polynomial.cpp      | 5 +++--
 cpp/lib_moment/symbolic/polynomial.h        | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 92ee441..e9c09c5 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -31,7 +31,7 @@ namespace Moment {
                 for (size_t col = row + 1; col < matrix.dimension; ++col) {
                     const auto &upper = matrix(std::array<size_t,2>{row, col});
                     const auto &lower = matrix(std::array<size_t,2>{col, row});
-                    if (!upper.is_conjugate(table, lower)) {
+                    if (!upper.is_conjugate(table, lower, tolerance)) {
                         return false;
                     }
                 }
diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index d6e84ca..de72aaf 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -364,8 +364,9 @@ namespace Moment {
         return true;
     }
 
-    bool Polynomial::is_conjugate(const SymbolTable& symbols, const Polynomial &other) const noexcept {
-        return this->conjugate(symbols).approximately_equals(other.fix_cc(symbols));
+    bool Polynomial::is_conjugate(const SymbolTable& symbols, const Polynomial &other,
+                                  const double eps_multiplier) const noexcept {
+        return this->conjugate(symbols).approximately_equals(other.fix_cc(symbols), eps_multiplier);
     }
 
     Polynomial Polynomial::Real(const PolynomialFactory &factory) const {
diff --git a/cpp/lib_moment/symbolic/polynomial.h b/cpp/lib_moment/symbolic/polynomial.h
index 1b72364..5a5e5ba 100644
--- a/cpp/lib_moment/symbolic/polynomial.h
+++ b/cpp/lib_moment/symbolic/polynomial.h
@@ -354,7 +354,8 @@ namespace Moment {
          * @param other Polynomial to compare against.
          * @return True if this and other are Hermitian conjugates of each other.
          */
-        [[nodiscard]] bool is_conjugate(const SymbolTable& symbols, const Polynomial& other) const noexcept;
+        [[nodiscard]] bool is_conjugate(const SymbolTable& symbols, const Polynomial& other,
+                                        double eps_multiplier = 1.0) const noexcept;
 
         /**
          * Named constructor for polynomial zero.
-- 
2.43.0


From 56d3595b1440747dc62d3bd343a39fc0305e57eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 039/100] fix: substituted matrix that is Hermitian within
 tolerance

---
 cpp/lib_moment/matrix/monomial_matrix.cpp    | 5 +++--
 cpp/lib_moment/matrix/monomial_matrix.h      | 3 ++-
 cpp/lib_moment/matrix/substituted_matrix.cpp | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 1f4b55c..5ec0ba7 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -76,7 +76,8 @@ namespace Moment {
 
     MonomialMatrix::~MonomialMatrix() noexcept = default;
 
-    bool MonomialMatrix::test_hermicity(const SymbolTable& table, const SquareMatrix<Monomial>& matrix) {
+    bool MonomialMatrix::test_hermicity(const SymbolTable& table, const SquareMatrix<Monomial>& matrix,
+                                         const double tolerance) {
         for (size_t row = 0; row < matrix.dimension; ++row) {
             for (size_t col = row; col < matrix.dimension; ++col) {
                 const auto& upper = matrix(std::array<size_t, 2>{row, col});
@@ -97,7 +98,7 @@ namespace Moment {
                     }
                 }
                 if ((upper.conjugated != lower_conjugated)
-                        || !approximately_equal(upper.factor, lower_conj_factor)) {
+                        || !approximately_equal(upper.factor, lower_conj_factor, tolerance)) {
                     return false;
                 }
             }
diff --git a/cpp/lib_moment/matrix/monomial_matrix.h b/cpp/lib_moment/matrix/monomial_matrix.h
index f0c07bb..16a6cd2 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.h
+++ b/cpp/lib_moment/matrix/monomial_matrix.h
@@ -150,7 +150,8 @@ namespace Moment {
         void identify_symbols_and_basis_indices();
 
         /** True, if matrix of monomials is equal to its conjugate transpose. */
-        [[nodiscard]] static bool test_hermicity(const SymbolTable& symbols, const SquareMatrix<Monomial>& matrix);
+        [[nodiscard]] static bool test_hermicity(const SymbolTable& symbols, const SquareMatrix<Monomial>& matrix,
+                                                 double tolerance = 1.0);
 
     public:
        /**
diff --git a/cpp/lib_moment/matrix/substituted_matrix.cpp b/cpp/lib_moment/matrix/substituted_matrix.cpp
index 756e09d..ce7294a 100644
--- a/cpp/lib_moment/matrix/substituted_matrix.cpp
+++ b/cpp/lib_moment/matrix/substituted_matrix.cpp
@@ -63,7 +63,7 @@ namespace Moment {
 
         // Rules can also make a matrix Hermitian (or leave it so, if non-Hermitian rules do not apply to it)
         if (!this->hermitian) {
-            this->hermitian = test_hermicity(symbols, *this->sym_exp_matrix);
+            this->hermitian = test_hermicity(symbols, *this->sym_exp_matrix, msrb.factory.zero_tolerance);
         }
     }
 
-- 
2.43.0


From 6e4de12e50657941f40b7694a9df24eb522a9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 040/100] fix: multithreaded extension found no symbol for
 factors that begin a longer list of factors

---
 .../multithreading/temporary_symbols_and_factors.cpp        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
index 7be6692..5b24abd 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
@@ -43,8 +43,10 @@ namespace Moment::Multithreading {
         // Can we directly find node?
         auto [hint_tree, hint_factors] = this->index_tree.find_node_or_return_hint(joint_factors);
         if (hint_factors.empty()) {
-            assert (hint_tree->value().has_value());
-            return hint_tree->value().value();
+            // Node might merely lie on the path to a longer list of factors, and have no value of its own (yet)
+            if (auto maybe_val = hint_tree->value(); maybe_val.has_value()) {
+                return maybe_val.value();
+            }
         }
 
         // Did not find, so we have to upgrade our lock
-- 
2.43.0


From ecb594e063e0ee8ac7fd3aa8cd3eef3913a5462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 041/100] fix: multithreaded extension by a symbol that is out
 of range is refused

---
 .../scenarios/inflation/extended_matrix.cpp    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index a4055a5..6de2ada 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -61,15 +61,6 @@ namespace Moment::Inflation {
                                            const MomentMatrix& moment_matrix,
                                            const std::span<const symbol_name_t> extension_scalars) {
 
-            // Check scalars are in range
-            for (const auto scalar : extension_scalars) {
-                if ((scalar >= symbols.size()) || (scalar < 0)) {
-                    std::stringstream errSS;
-                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
-                    throw std::logic_error{errSS.str()};
-                }
-            }
-
             // Create matrix, with source matrix as upper block
             const size_t padding = extension_scalars.size();
             auto extended_matrix = source.SymbolMatrix().pad(padding, Monomial{0});
@@ -164,6 +155,15 @@ namespace Moment::Inflation {
             }
 
             // Get target dimension
+            // Check scalars are in range
+            for (const auto scalar : extension_scalars) {
+                if ((scalar >= symbols.size()) || (scalar < 0)) {
+                    std::stringstream errSS;
+                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
+                    throw std::logic_error{errSS.str()};
+                }
+            }
+
             const size_t target_dimension = source.Dimension() + extension_scalars.size();
             const bool should_multithread
                 = Multithreading::should_multithread_matrix_creation(mt_policy, target_dimension * target_dimension);
-- 
2.43.0


From 0d11a5a20426d187f2c031385df3cf71b9aed5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 042/100] fix: errors raised while transforming a matrix in
 several threads are passed on

---
 .../multithreading/matrix_transformation_worker.h     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpp/lib_moment/multithreading/matrix_transformation_worker.h b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
index 67c4ea7..293e359 100644
--- a/cpp/lib_moment/multithreading/matrix_transformation_worker.h
+++ b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
@@ -99,11 +99,12 @@ namespace Moment::Multithreading {
         // Wait for all threads to finish...
         for (auto &worker: workers) {
             worker.join();
-            // If worker had an exception, propagate it to main thread:
-            if constexpr(!noexcept(the_functor)) {
-                if (worker.exception) {
-                    std::rethrow_exception(worker.exception);
-                }
+        }
+
+        // If any worker had an exception, propagate it to main thread (once no worker is running):
+        for (auto &worker: workers) {
+            if (worker.exception) {
+                std::rethrow_exception(worker.exception);
             }
         }
     }
-- 
2.43.0


From 171e2045a02c67563b290ee3eae9613e745b6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 043/100] fix: extension of matrices by several symbols read
 freed memory

---
 cpp/lib_moment/scenarios/inflation/extended_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index 6de2ada..660b3ad 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -103,7 +103,7 @@ namespace Moment::Inflation {
 
             // Make bottom-right block
             for (size_t i = 0, iMax = extension_scalars.size(); i < iMax; ++i) {
-                const auto& row_factors = factors[extension_scalars[i]].canonical.symbols;
+                const auto row_factors = factors[extension_scalars[i]].canonical.symbols; // copy: table may be reallocated
                 auto diag_fac_id = combine_and_register_factors(symbols, factors, row_factors, row_factors);
                 const std::array<size_t,2> diag_index{old_dimension+i, old_dimension+i};
                 extended_matrix(diag_index) = Monomial{diag_fac_id};
-- 
2.43.0


From 1b3b4a80bf4e57b68ce15365c89cee13bc81bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 044/100] fix: multithreaded localizing matrix of an
 anti-Hermitian word

---
 cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h b/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
index 568d655..41f314f 100644
--- a/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
+++ b/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
@@ -35,7 +35,8 @@ namespace Moment {
 
         /** Localizing matrices are Hermitian if their word is Hermitian. */
         [[nodiscard]] static inline bool should_be_hermitian(const LocalizingMatrixIndex& lmi) {
-            return !is_imaginary(lmi.Word.get_sign()) && (lmi.Word.hash() == lmi.Word.conjugate().hash());
+            const auto conjugate = lmi.Word.conjugate();
+            return (lmi.Word.hash() == conjugate.hash()) && (lmi.Word.get_sign() == conjugate.get_sign());
         }
 
         /** Localizing matrices always have a prefactor of +1. */
-- 
2.43.0


From 9a6af622288fc3092e24251a4324a34a03f3a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 045/100] fix: threads making a Hermitian matrix wrote the same
 elements

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index a0f12ad..d32f0a9 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -584,7 +584,7 @@ namespace Moment {
         const auto prefactor = this->bundle.prefactor;
 
         for (size_t col_idx = worker_id; col_idx < row_length; col_idx += max_workers) {
-            for (size_t row_idx = 0; row_idx < row_length; ++row_idx) {
+            for (size_t row_idx = col_idx; row_idx < row_length; ++row_idx) {
 
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const size_t trans_offset = (row_idx * row_length) + col_idx;
-- 
2.43.0


From 9bd7d50ce93131622eba3063631f0d7c7a5d2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 046/100] fix: deletion of the matrix after the last one

---
 cpp/lib_moment/matrix_system/matrix_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 98b0ee9..37aa9cb 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -93,7 +93,7 @@ namespace Moment {
     bool MatrixSystem::delete_matrix(const MaintainsMutex::WriteLock& lock, ptrdiff_t index) noexcept {
         assert(this->is_locked_write_lock(lock));
         // No deletion for bad index
-        if ((index < 0) || (index > this->matrices.size())) {
+        if ((index < 0) || (index >= this->matrices.size())) {
             return false;
         }
         // No deletion for missing matrix
-- 
2.43.0


From b5aa98f888c15ebf38888cfe703217be33afdda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 047/100] fix: copy of an index for an extended matrix refers
 to the list of the original

---
 .../inflation/extended_matrix_indices.h        | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix_indices.h b/cpp/lib_moment/scenarios/inflation/extended_matrix_indices.h
index cb60511..8c69bb2 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix_indices.h
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix_indices.h
@@ -46,6 +46,24 @@ namespace Moment::Inflation {
         ExtendedMatrixIndex(size_t mm_level, const std::set<symbol_name_t>& list_as_set)
             : ExtendedMatrixIndex{mm_level, set_to_vector(list_as_set)} { }
 
+        /** Copy index; a list that is stored is copied with it. */
+        ExtendedMatrixIndex(const ExtendedMatrixIndex& rhs)
+            : moment_matrix_level{rhs.moment_matrix_level}, internal_extension_list{rhs.internal_extension_list},
+              extension_list{rhs.extension_list} {
+            if (this->internal_extension_list.has_value()) {
+                this->extension_list = this->internal_extension_list.value();
+            }
+        }
+
+        ExtendedMatrixIndex& operator=(const ExtendedMatrixIndex& rhs) {
+            this->moment_matrix_level = rhs.moment_matrix_level;
+            this->internal_extension_list = rhs.internal_extension_list;
+            this->extension_list = this->internal_extension_list.has_value()
+                                       ? std::span<const symbol_name_t>{this->internal_extension_list.value()}
+                                       : rhs.extension_list;
+            return *this;
+        }
+
         [[nodiscard]] constexpr bool stores_list() const noexcept {
             return internal_extension_list.has_value();
         }
-- 
2.43.0


From ab19c44c69ea4cbbdd612805499a4453f4765bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 048/100] fix: matrices were not extended correctly after
 symbols were added directly to the symbol table

---
 cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 814272c..4e67cf5 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -57,6 +57,9 @@ namespace Moment::Inflation {
         if (!source.is_monomial()) [[unlikely]] {
             throw std::logic_error{"Cannot extend non-monomial moment matrices."};
         }
+
+        // Symbols may also have been registered directly with the table (e.g. while reading a polynomial)
+        this->factors->on_new_symbols_added();
         auto& monomial_source = dynamic_cast<MonomialMatrix&>(source);
 
         return std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
-- 
2.43.0


From 017eedf1d8762e366085c394ef86c349023b1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 049/100] fix: measurement just past the last one was not
 refused by tensors

---
 cpp/lib_moment/probability/collins_gisin.cpp              | 4 ++--
 .../scenarios/inflation/inflation_collins_gisin.cpp       | 6 +++---
 .../scenarios/inflation/inflation_probability_tensor.cpp  | 8 ++++----
 .../scenarios/locality/locality_collins_gisin.cpp         | 6 +++---
 .../scenarios/locality/locality_probability_tensor.cpp    | 8 ++++----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index ea3e06d..835031e 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -169,7 +169,7 @@ namespace Moment {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
 
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex > this->gmIndex.size()) {
+            if (mmtIndex >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex];
@@ -191,7 +191,7 @@ namespace Moment {
 
         for (size_t n = 0; n < mmtIndices.size(); ++n) {
 
-            if (mmtIndices[n] > this->gmIndex.size()) {
+            if (mmtIndices[n] >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndices[n]];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index af0f746..83e64c7 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -92,7 +92,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -112,7 +112,7 @@ namespace Moment::Inflation {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -125,7 +125,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: fixedOutcomes) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index 729fa5a..e5a3baf 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -48,7 +48,7 @@ namespace Moment::Inflation {
         for (const auto& mmtIndex : mmtIndices) {
 
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
 
@@ -69,7 +69,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (const auto& mmtIndex : freeMeasurements) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -81,7 +81,7 @@ namespace Moment::Inflation {
 
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -100,7 +100,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (index[global_index] != 0) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 79a1f20..6b361f2 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -69,7 +69,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -88,7 +88,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -100,7 +100,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index d43db38..e75aa85 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -52,7 +52,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex  upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -73,7 +73,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : freeMeasurements) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -85,7 +85,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -104,7 +104,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
-- 
2.43.0


From 36ecee03a0b101ee32451e2d40c7076f6b96599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 050/100] fix: concurrent refresh could replace a Collins-Gisin
 tensor that is in use

---
 cpp/lib_moment/probability/maintains_tensors.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/probability/maintains_tensors.cpp b/cpp/lib_moment/probability/maintains_tensors.cpp
index 4bc2c32..475c890 100644
--- a/cpp/lib_moment/probability/maintains_tensors.cpp
+++ b/cpp/lib_moment/probability/maintains_tensors.cpp
@@ -42,7 +42,9 @@ namespace Moment  {
             read_lock.unlock();
 
             auto write_lock = this->get_write_lock();
-            this->collinsGisin = this->makeCollinsGisin();
+            if (!this->collinsGisin) { // Another thread might have got here first!
+                this->collinsGisin = this->makeCollinsGisin();
+            }
             const bool has_all_symbols = this->collinsGisin->HasAllSymbols();
             write_lock.unlock();
 
-- 
2.43.0


From 5b3ff8dda248cb1cb237d579f5c08337bb22f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 051/100] fix: outcomes which do not exist were read from the
 next measurement in tensors

---
 cpp/lib_moment/probability/collins_gisin.cpp                | 3 +++
 .../scenarios/inflation/inflation_collins_gisin.cpp         | 3 +++
 .../scenarios/inflation/inflation_probability_tensor.cpp    | 6 ++++++
 .../scenarios/locality/locality_collins_gisin.cpp           | 3 +++
 .../scenarios/locality/locality_probability_tensor.cpp      | 6 ++++++
 5 files changed, 21 insertions(+)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index 835031e..271bf4f 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -199,6 +199,9 @@ namespace Moment {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
             if (fixedOutcomes[n] >= 0) {
+                if (static_cast<size_t>(fixedOutcomes[n]) >= gmInfo.length) {
+                    throw errors::BadCGError("Outcome index out of bounds.");
+                }
                 lower_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n];
                 upper_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n] + 1;
             } else {
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index 83e64c7..0ae6dac 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -133,6 +133,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadCGError("Two measurements from same party cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) >= gmInfo.length)) {
+                throw Moment::errors::BadCGError("Outcome index out of bounds.");
+            }
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
         }
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index e5a3baf..3582371 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -88,6 +88,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) + 1 >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Outcome index out of bounds.");
+            }
             lower_bounds[global_index] = 1 + mmtIndex.outcome;
             upper_bounds[global_index] = 2 + mmtIndex.outcome;
         }
@@ -107,6 +110,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) + 1 >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Outcome index out of bounds.");
+            }
             index[global_index] = 1 + mmtIndex.outcome;
         }
         return this->elem_no_checks(index);
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 6b361f2..2530ecf 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -108,6 +108,9 @@ namespace Moment::Locality {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
 
+            if (mmtIndex.outcome >= gmInfo.length) {
+                throw errors::BadCGError("Outcome index out of bounds.");
+            }
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
         }
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index e75aa85..0787653 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -93,6 +93,9 @@ namespace Moment::Locality {
                 throw errors::BadPTError("Two measurements from same party cannot be specified.");
             }
 
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Outcome index out of bounds.");
+            }
             lower_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
             upper_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome + 1;
         }
@@ -111,6 +114,9 @@ namespace Moment::Locality {
             if (index[gmEntry.party] != 0) {
                 throw errors::BadPTError("Two outcomes from same party cannot be specified.");
             }
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Outcome index out of bounds.");
+            }
             index[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
         }
 
-- 
2.43.0


From 7b17a4fb32b226d648817495941abc20277ceb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 052/100] fix: factors of product symbols were not counted as
 appearances

---
 .../scenarios/inflation/factor_table.cpp          | 15 ++++++++++++---
 cpp/lib_moment/scenarios/inflation/factor_table.h |  3 +++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index f743ac6..0703492 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -129,7 +129,13 @@ namespace Moment::Inflation {
         }
 
         // Count factors
-        for (size_t entry_index = next_id; entry_index < extra_symbols; ++entry_index) {
+        this->count_appearances(next_id);
+
+        return extra_symbols - next_id;
+    }
+
+    void FactorTable::count_appearances(const size_t first_entry) {
+        for (size_t entry_index = first_entry; entry_index < this->entries.size(); ++entry_index) {
             const auto& factor_entry = this->entries[entry_index];
             // Non-trivial factors?
             if (factor_entry.canonical.symbols.size() > 1) {
@@ -139,8 +145,6 @@ namespace Moment::Inflation {
                 }
             }
         }
-
-        return extra_symbols - next_id;
     }
 
     void FactorTable::register_new(symbol_name_t id, std::vector<symbol_name_t> factors) {
@@ -157,6 +161,9 @@ namespace Moment::Inflation {
 
         // Create index
         index_tree.add(new_entry.canonical.symbols, new_entry.id);
+
+        // Tally up appearances as factors
+        this->count_appearances(this->entries.size() - 1);
     }
 
     void FactorTable::register_new(std::vector<std::unique_ptr<std::vector<symbol_name_t>>>&& definitions,
@@ -180,6 +187,8 @@ namespace Moment::Inflation {
 
         index_tree.merge_in(std::move(indices));
 
+        // Tally up appearances as factors
+        this->count_appearances(this->entries.size() - definitions.size());
 
     }
 
diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.h b/cpp/lib_moment/scenarios/inflation/factor_table.h
index 11d175a..a409ca6 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.h
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.h
@@ -182,6 +182,9 @@ namespace Moment {
         private:
             size_t check_for_new_factors();
 
+            /** Increment the tally of every symbol that is a factor of the supplied entry, or a later one. */
+            void count_appearances(size_t first_entry);
+
         };
     }
 }
\ No newline at end of file
-- 
2.43.0


From b8eab1100da5fccaa7fcfec2d570ba30a85d815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 053/100] fix: rulebooks were not expanded to product symbols
 made by extended matrices

---
 .../scenarios/inflation/inflation_matrix_system.cpp      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 4e67cf5..997c2cb 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -62,10 +62,17 @@ namespace Moment::Inflation {
         this->factors->on_new_symbols_added();
         auto& monomial_source = dynamic_cast<MonomialMatrix&>(source);
 
-        return std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
+        const size_t prev_symbol_count = this->Symbols().size();
+        auto ptr = std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
                                                 this->polynomial_factory().zero_tolerance,
                                                 monomial_source, index.extension_list,
                                                 mt_policy);
+        // Products of symbols might need additional rules
+        const size_t new_symbol_count = this->Symbols().size();
+        if (new_symbol_count > prev_symbol_count) {
+            this->on_new_symbols_registered(lock, prev_symbol_count, new_symbol_count);
+        }
+        return ptr;
     }
 
     std::set<symbol_name_t> InflationMatrixSystem::suggest_extensions(const class MonomialMatrix& matrix) const {
-- 
2.43.0


From ae9513cc6b352e584181018fe6a5fd30364f61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 054/100] fix: expanding rules to products required products of
 only some of the factors to be known

---
 .../scenarios/inflation/factor_table.cpp      | 30 +++++++++++++++++++
 .../scenarios/inflation/factor_table.h        |  9 ++++++
 .../inflation/inflation_matrix_system.cpp     | 16 ++++------
 3 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 0703492..027bfe3 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -354,6 +354,36 @@ namespace Moment::Inflation {
 
 
 
+    Polynomial FactorTable::try_multiply(const PolynomialFactory& factory,
+                                         const std::vector<Polynomial>& multiplicands) const {
+        // Expand out, deferring look-up so that only symbols for complete products are required
+        std::vector<std::pair<std::vector<symbol_name_t>, std::complex<double>>> terms;
+        terms.emplace_back(std::vector<symbol_name_t>{}, 1.0);
+        for (const auto& poly : multiplicands) {
+            decltype(terms) next_terms;
+            next_terms.reserve(terms.size() * poly.size());
+            for (const auto& [symbol_ids, factor] : terms) {
+                for (const auto& expr : poly) {
+                    if (expr.conjugated) {
+                        std::stringstream badSS;
+                        badSS << expr;
+                        throw errors::unknown_symbol{badSS.str()};
+                    }
+                    auto& next_term = next_terms.emplace_back(symbol_ids, factor * expr.factor);
+                    next_term.first.emplace_back(expr.id);
+                }
+            }
+            terms = std::move(next_terms);
+        }
+
+        Polynomial::storage_t output;
+        output.reserve(terms.size());
+        for (auto& [symbol_ids, factor] : terms) {
+            output.emplace_back(this->try_multiply(std::move(symbol_ids)), factor, false);
+        }
+        return factory(std::move(output));
+    }
+
     void FactorTable::combine_symbolic_factors(std::vector<symbol_name_t>& output,
                                           const std::vector<symbol_name_t>& left,
                                           const std::vector<symbol_name_t>& right) {
diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.h b/cpp/lib_moment/scenarios/inflation/factor_table.h
index a409ca6..3f5284f 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.h
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.h
@@ -150,6 +150,15 @@ namespace Moment {
             Polynomial try_multiply(const PolynomialFactory& factory,
                                     const Polynomial& lhs, const Polynomial& rhs) const;
 
+            /**
+             * Attempt to multiply many symbolic expressions. Only the complete products need to be known symbols.
+             * @param factory Polynomial factory.
+             * @param multiplicands The (non-empty) list of polynomials to multiply together.
+             * @throws errors::unknown_symbol If product is not registered as a known symbol.
+             */
+            [[nodiscard]] Polynomial try_multiply(const PolynomialFactory& factory,
+                                                  const std::vector<Polynomial>& multiplicands) const;
+
             /**
              * Attempt to multiply symbolic expressions.
              * If parameter is not sorted, or contains zeros/ones, the behaviour is undefined.
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 997c2cb..6eb862c 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -161,20 +161,16 @@ namespace Moment::Inflation {
             }
 
             // Multiply together all substitutions
-            auto get_as_poly = [&](size_t index) {
+            std::vector<Polynomial> substitutions;
+            substitutions.reserve(symbol_length);
+            for (size_t index = 0; index < symbol_length; ++index) {
                 if (match_iterators[index] != rulebook.end()) {
-                    return match_iterators[index]->second.RHS();
+                    substitutions.emplace_back(match_iterators[index]->second.RHS());
                 } else {
-                    return Polynomial{Monomial{symbol.canonical.symbols[index], 1.0, false}};
+                    substitutions.emplace_back(Monomial{symbol.canonical.symbols[index], 1.0, false});
                 }
-            };
-            Polynomial product = get_as_poly(0);
-            for (size_t idx=1; idx < symbol_length; ++idx) {
-                if (product.empty()) {
-                    break;
-                }
-                product = this->factors->try_multiply(poly_factory, product, get_as_poly(idx));
             }
+            Polynomial product = this->factors->try_multiply(poly_factory, substitutions);
 
             poly_factory.append(product, {Monomial{symbol.id, -1.0, false}});
 
-- 
2.43.0


From ea4968ddda6c61f33e4c69bf8744c4c772a56534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 055/100] fix: rulebooks were left in expansion mode when empty
 or when expansion failed

---
 .../scenarios/inflation/inflation_matrix_system.cpp   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 6eb862c..b3ec906 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -123,10 +123,16 @@ namespace Moment::Inflation {
         assert(&rulebook.factory == &this->polynomial_factory());
 
         // Do not expand rulebook if it does not permit it, or if it is empty
-        if (!rulebook.enable_expansion() || rulebook.empty()) {
+        if (rulebook.empty() || !rulebook.enable_expansion()) {
             return 0;
         }
 
+        // Expansion mode is turned off on return, or if products are missing
+        struct ExpansionGuard {
+            MomentRulebook& target;
+            ~ExpansionGuard() noexcept { target.disable_expansion(); }
+        } guard{rulebook};
+
         const ptrdiff_t initial_rule_count = rulebook.size();
         const auto& poly_factory = rulebook.factory;
 
@@ -184,9 +190,6 @@ namespace Moment::Inflation {
         // Compile rules
         ptrdiff_t final_rule_count = rulebook.complete();
 
-        // Turn off rulebook's expansion mode
-        rulebook.disable_expansion();
-
         // How many rules?
         return final_rule_count - initial_rule_count;
     }
-- 
2.43.0


From 24b4ea47ece76159d843ee8be47c3fc93ed8c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 056/100] fix: mapping a conjugated monomial between symbol
 tables conjugated its factor too

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 5a4371c..a226ad2 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -214,10 +214,10 @@ namespace Moment::Derived {
         Polynomial output = (*this)(symbol.id);
 
         // Apply transformations (using target symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->target_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
@@ -284,10 +284,10 @@ namespace Moment::Derived {
         Polynomial output = this->inverse(symbol.id);
 
         // Apply transformations (using origin symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->origin_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
-- 
2.43.0


From 76d8c4605f9a7b9d20e304a2364ed7f3420bc01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 057/100] fix: requesting a moment matrix in a derived system
 failed an assertion if it had been derived from its source before

---
 .../scenarios/derived/derived_matrix_system.cpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
index 2a6f7b2..95bc859 100644
--- a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
@@ -245,8 +245,8 @@ namespace Moment::Derived {
 
         auto base_offset = this->base_system().MomentMatrix.find_index(level);
         assert(base_offset >= 0);
-        auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
-        assert(actual_offset == sym_offset);
+        [[maybe_unused]] auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
+        assert(actual_offset >= 0); // not necessarily sym_offset: base matrix could have been transformed before.
 
     }
 
@@ -255,8 +255,8 @@ namespace Moment::Derived {
                                                        const SymbolicMatrix& lm) {
         auto base_offset = this->base_system().LocalizingMatrix.find_index(lmi);
         assert(base_offset >= 0);
-        auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
-        assert(actual_offset == sym_offset);
+        [[maybe_unused]] auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
+        assert(actual_offset >= 0); // not necessarily sym_offset: base matrix could have been transformed before.
     }
 
     void DerivedMatrixSystem::on_new_polynomial_localizing_matrix(const WriteLock& write_lock,
@@ -264,8 +264,8 @@ namespace Moment::Derived {
                                                                   const PolynomialMatrix& plm) {
         auto base_offset = this->base_system().PolynomialLocalizingMatrix.find_index(lmi);
         assert(base_offset >= 0);
-        auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
-        assert(actual_offset == sym_offset);
+        [[maybe_unused]] auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
+        assert(actual_offset >= 0); // not necessarily sym_offset: base matrix could have been transformed before.
     }
 
     void DerivedMatrixSystem::on_new_derived_matrix(const WriteLock& write_lock,
-- 
2.43.0


From fdc92ad0561df7b3205a9eff17f875d17981242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 058/100] fix: symbols of words longer than those covered by a
 symbol table map were mapped to zero

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 10 +++++++++-
 cpp/lib_moment/scenarios/derived/symbol_table_map.h   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index a226ad2..47f1775 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -105,6 +105,14 @@ namespace Moment::Derived {
         this->map[0] = Polynomial{};      // 0 -> 0 always.
         this->map[1] = Polynomial::Scalar(1.0); // 1 -> 1 always.
 
+        // Only symbols of words in the map's domain are mapped:
+        this->is_mapped.assign(origin_symbols.size(), false);
+        this->is_mapped[0] = true;
+        this->is_mapped[1] = true;
+        for (const auto symbol_id : osg_to_symbols) {
+            this->is_mapped[symbol_id] = true;
+        }
+
         // Create scalars remap:
         for (auto [row_id, scalar] : this->core->constants) {
             auto [symbol_id, conjugated] = origin_symbols.OSGIndex(row_id);
@@ -199,7 +207,7 @@ namespace Moment::Derived {
 
     const Polynomial& SymbolTableMap::operator()(symbol_name_t symbol_id) const {
         // Bounds check
-        if ((symbol_id < 0) || (symbol_id >= this->map.size())) {
+        if ((symbol_id < 0) || (symbol_id >= this->map.size()) || !this->is_mapped[symbol_id]) {
             std::stringstream ss;
             ss << "Symbol " << symbol_id << " not defined in implied map.";
             throw errors::bad_map{ss.str()};
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.h b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
index 6a8fdd0..8e0ea3f 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.h
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
@@ -44,6 +44,7 @@ namespace Moment {
 
             std::vector<Polynomial> map;
             std::vector<Polynomial> inverse_map;
+            std::vector<bool> is_mapped; // Symbols of words longer than the map covers have no image.
             bool _is_monomial_map = false;
 
         private:
-- 
2.43.0


From b25ddf047370d34713e65c3e1229565468a03ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 059/100] fix: representations of symmetries on words ignored
 the sign of products of operators

---
 .../symmetrized/representation_mapper.cpp     | 49 ++++++++++++-------
 .../symmetrized/representation_mapper.h       |  3 ++
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
index 763e65d..2f0d658 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
@@ -20,6 +20,8 @@
 #include <unsupported/Eigen/KroneckerProduct>
 
 #include <stdexcept>
+#include <tuple>
+#include <utility>
 
 namespace Moment::Symmetrized {
 
@@ -30,10 +32,18 @@ namespace Moment::Symmetrized {
             return osg.size();
         }
 
-        std::vector<size_t> vector_remap(const Context& context,
-                                         const size_t lhs_word_length,
-                                         const size_t rhs_word_length,
-                                         const size_t target_word_length) {
+        double real_sign(const SequenceSignType sign) {
+            if (is_imaginary(sign)) {
+                return 0.0;
+            }
+            return is_negative(sign) ? -1.0 : 1.0;
+        }
+
+        std::pair<std::vector<size_t>, std::vector<double>>
+        vector_remap(const Context& context,
+                     const size_t lhs_word_length,
+                     const size_t rhs_word_length,
+                     const size_t target_word_length) {
             assert(lhs_word_length + rhs_word_length == target_word_length);
             assert(lhs_word_length >= rhs_word_length);
 
@@ -51,6 +61,7 @@ namespace Moment::Symmetrized {
             }
 
             std::vector<size_t> output;
+            std::vector<double> signs;
 
             // Now, get parents OSGs.
             const auto& lhs_osg = context.operator_sequence_generator(lhs_word_length);
@@ -62,27 +73,29 @@ namespace Moment::Symmetrized {
                     const auto remap_iter = hash_to_index.find(combined.hash());
                     assert(remap_iter != hash_to_index.cend());
                     output.emplace_back(remap_iter->second);
+                    signs.emplace_back(real_sign(combined.get_sign()));
                 }
             }
 
-            return output;
+            return {std::move(output), std::move(signs)};
         }
 
 
         /**
          * Matrix to sum rows
          */
-        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, const std::vector<double>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
             RepresentationMapper::lhs_mat_t output(static_cast<int>(remapped_dim), static_cast<int>(raw_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
 
             size_t raw_index = 0;
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && (signs[raw_index] != 0.0)) {
                     triplets.emplace_back(static_cast<int>(mapped_index - 1),   // row
                                           static_cast<int>(raw_index), // col
-                                          1.0);
+                                          signs[raw_index]);
                 }
                 ++raw_index;
             }
@@ -96,7 +109,8 @@ namespace Moment::Symmetrized {
         /**
          * Matrix to skip columns
          */
-        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, const std::vector<double>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
             RepresentationMapper::rhs_mat_t output(static_cast<int>(raw_dim), static_cast<int>(remapped_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
@@ -106,11 +120,11 @@ namespace Moment::Symmetrized {
             size_t true_index = 0;
 
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && (signs[true_index] != 0.0)) {
                     if (!done_map.test(mapped_index-1)) {
                         triplets.emplace_back(static_cast<int>(true_index),   // row
                                               static_cast<int>(mapped_index-1), // col
-                                              1.0);
+                                              signs[true_index]);
 
                         done_map.set(mapped_index-1);
                     }
@@ -137,6 +151,7 @@ namespace Moment::Symmetrized {
         // Remap is identity
         this->remap.resize(this->raw_dim);
         std::iota(this->remap.begin(), this->remap.end(), 1);
+        this->signs.assign(this->raw_dim, 1.0);
     }
 
     RepresentationMapper::RepresentationMapper(const Context &context,
@@ -158,13 +173,13 @@ namespace Moment::Symmetrized {
         this->remapped_dim = osg.size();
 
         // Make vector remap
-        this->remap = vector_remap(context,
-                                   parent_A.target_word_length,
-                                   parent_B.target_word_length,
-                                   this->target_word_length);
+        std::tie(this->remap, this->signs) = vector_remap(context,
+                                                          parent_A.target_word_length,
+                                                          parent_B.target_word_length,
+                                                          this->target_word_length);
 
-        this->lhs = make_lhs(this->remap, this->raw_dim, this->remapped_dim);
-        this->rhs = make_rhs(this->remap, this->raw_dim, this->remapped_dim);
+        this->lhs = make_lhs(this->remap, this->signs, this->raw_dim, this->remapped_dim);
+        this->rhs = make_rhs(this->remap, this->signs, this->raw_dim, this->remapped_dim);
     }
 
     repmat_t RepresentationMapper::operator()(const repmat_t &matrix) const {
diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
index e891703..d821966 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
@@ -40,6 +40,9 @@ namespace Moment::Symmetrized {
 
         std::vector<size_t> remap;
 
+        /** Signs of the remapped products: +1 or -1, or 0 if the product is imaginary (has no part in a real representation). */
+        std::vector<double> signs;
+
         lhs_mat_t lhs;
         rhs_mat_t rhs;
 
-- 
2.43.0


From d0e235401445d11d3e76d266fb09d6fc038f9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 060/100] fix: symbol table maps ignored the signs of words
 relative to their symbols

---
 cpp/lib_moment/dictionary/dictionary_map.cpp  | 16 ++++-
 cpp/lib_moment/dictionary/dictionary_map.h    |  8 +++
 .../scenarios/derived/symbol_table_map.cpp    | 65 ++++++++++++-------
 3 files changed, 65 insertions(+), 24 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary_map.cpp b/cpp/lib_moment/dictionary/dictionary_map.cpp
index ed282a7..d883bc1 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.cpp
+++ b/cpp/lib_moment/dictionary/dictionary_map.cpp
@@ -20,6 +20,7 @@ namespace Moment {
         : context{context}, symbols{symbols}, symbol_map_max_length{0} {
         // Initially, all we know is that index 0 of generator maps to symbol 1 (e).
         this->symbol_map.emplace_back(1);
+        this->symbol_signs.emplace_back(SequenceSignType::Positive);
     }
 
     bool DictionaryMap::update_if_necessary(size_t desired_length) {
@@ -40,12 +41,13 @@ namespace Moment {
         const auto start_index = this->symbol_map.size();
 
         this->symbol_map.reserve(target_size);
+        this->symbol_signs.reserve(target_size);
         for (auto iter = promised_osg.begin() + static_cast<ptrdiff_t>(start_index); iter != promised_osg.end(); ++iter) {
             const auto& seq = *iter;
             const auto datum = symbols.where(seq);
             assert(datum.found());
-            const bool isConjugated = (seq != datum->sequence());
-            this->symbol_map.emplace_back((isConjugated ? -1 : 1) * datum->Id());
+            this->symbol_map.emplace_back((datum.is_conjugated ? -1 : 1) * datum->Id());
+            this->symbol_signs.emplace_back(datum->relative_sign(seq.get_sign(), datum.is_conjugated));
         }
 
         assert(this->symbol_map.size() == promised_osg.size());
@@ -73,4 +75,14 @@ namespace Moment {
         }
         return {val, false};
     }
+
+    SequenceSignType DictionaryMap::sign(size_t index) const {
+        std::shared_lock read_lock = this->get_read_lock();
+        if (index >= this->symbol_signs.size()) {
+            std::stringstream errSS;
+            errSS << "Symbol at index " << index << " not yet defined.";
+            throw std::range_error{errSS.str()};
+        }
+        return this->symbol_signs[index];
+    }
 }
\ No newline at end of file
diff --git a/cpp/lib_moment/dictionary/dictionary_map.h b/cpp/lib_moment/dictionary/dictionary_map.h
index 7be4e51..e5d3acc 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.h
+++ b/cpp/lib_moment/dictionary/dictionary_map.h
@@ -10,6 +10,7 @@
 #pragma once
 
 #include "integer_types.h"
+#include "sequence_sign_type.h"
 
 #include "multithreading/maintains_mutex.h"
 
@@ -32,6 +33,7 @@ namespace Moment {
         const SymbolTable& symbols;
         std::atomic<size_t> symbol_map_max_length;
         std::vector<symbol_name_t> symbol_map;
+        std::vector<SequenceSignType> symbol_signs;
 
     public:
         explicit DictionaryMap(const Context& context, const SymbolTable& symbols);
@@ -61,6 +63,12 @@ namespace Moment {
          * @return Pair, first: symbol id, second: true if symbol is conjugated.
          */
         std::pair<symbol_name_t, bool> operator()(size_t index) const;
+
+        /**
+         * The sign of the word from the operator sequence generator, relative to its (conjugated) symbol.
+         * @param index The index an operator sequence generator
+         */
+        [[nodiscard]] SequenceSignType sign(size_t index) const;
     };
 
 }
\ No newline at end of file
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 47f1775..70c1e52 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -27,20 +27,38 @@ namespace Moment::Derived {
 
     namespace {
 
-        std::pair<std::vector<symbol_name_t>, DynamicBitset<size_t>>
-        unzip_indices(const SymbolTable& origin_symbols, size_t matrix_size) {
-            auto output = std::make_pair(std::vector<symbol_name_t>(),  DynamicBitset<size_t>{matrix_size, false});
-            output.first.reserve(matrix_size);
-
-            for (size_t i = 0; i < matrix_size; ++i) {
-                auto [symbol_id, conjugate] = origin_symbols.OSGIndex(i);
-                output.first.emplace_back(symbol_id);
-                if (conjugate) {
-                    output.second.set(i);
+        /**
+         * How the words of the operator sequence generator are written as symbols.
+         */
+        struct unzipped_indices {
+            /** The symbol of each word. */
+            std::vector<symbol_name_t> symbols;
+
+            /** True, if the word is the conjugate of its symbol. */
+            DynamicBitset<size_t> conjugates;
+
+            /** True, if another word determines the mapping of the symbol (i.e. for conjugates and aliases). */
+            DynamicBitset<size_t> skipped;
+
+            explicit unzipped_indices(const SymbolTable& origin_symbols, const size_t matrix_size)
+                : conjugates{matrix_size, false}, skipped{matrix_size, false} {
+                this->symbols.reserve(matrix_size);
+                std::vector<bool> seen(origin_symbols.size(), false);
+
+                for (size_t i = 0; i < matrix_size; ++i) {
+                    auto [symbol_id, conjugate] = origin_symbols.OSGIndex(i);
+                    this->symbols.emplace_back(symbol_id);
+                    if (conjugate) {
+                        this->conjugates.set(i);
+                        this->skipped.set(i);
+                    } else if (seen[symbol_id]) {
+                        this->skipped.set(i);
+                    } else {
+                        seen[symbol_id] = true;
+                    }
                 }
             }
-            return output;
-        }
+        };
     }
 
 
@@ -62,8 +80,8 @@ namespace Moment::Derived {
             throw errors::bad_map{"Map cannot be constructed without a SolvedMapCore."};
         }
 
-        auto [osg_to_sym, conjugates] = unzip_indices(this->origin_symbols, this->core->initial_size);
-        this->construct_map(osg_to_sym, conjugates);
+        const unzipped_indices osg{this->origin_symbols, this->core->initial_size};
+        this->construct_map(osg.symbols, osg.conjugates);
         this->populate_target_symbols();
     }
 
@@ -71,11 +89,11 @@ namespace Moment::Derived {
                                    const MapCoreProcessor& processor, const Eigen::MatrixXd& src)
         : origin_symbols{origin}, target_symbols{target} {
 
-        auto [osg_to_sym, conjugates] = unzip_indices(this->origin_symbols, src.cols());
+        const unzipped_indices osg{this->origin_symbols, static_cast<size_t>(src.cols())};
 
-        this->core = std::make_unique<DenseMapCore>(conjugates, src);
+        this->core = std::make_unique<DenseMapCore>(osg.skipped, src);
         this->core_solution = core->accept(processor);
-        this->construct_map(osg_to_sym, conjugates);
+        this->construct_map(osg.symbols, osg.conjugates);
         this->populate_target_symbols();
     }
 
@@ -83,11 +101,11 @@ namespace Moment::Derived {
                                    const MapCoreProcessor& processor, const Eigen::SparseMatrix<double>& src)
         : origin_symbols{origin}, target_symbols{target} {
 
-        auto [osg_to_sym, conjugates] = unzip_indices(this->origin_symbols, src.cols());
+        const unzipped_indices osg{this->origin_symbols, static_cast<size_t>(src.cols())};
 
-        this->core = std::make_unique<DenseMapCore>(conjugates, src);
+        this->core = std::make_unique<DenseMapCore>(osg.skipped, src);
         this->core_solution = core->accept(processor);
-        this->construct_map(osg_to_sym, conjugates);
+        this->construct_map(osg.symbols, osg.conjugates);
         this->populate_target_symbols();
     }
 
@@ -117,7 +135,7 @@ namespace Moment::Derived {
         for (auto [row_id, scalar] : this->core->constants) {
             auto [symbol_id, conjugated] = origin_symbols.OSGIndex(row_id);
             assert(!conjugated);
-            this->map[symbol_id] = Polynomial::Scalar(scalar);
+            this->map[symbol_id] = Polynomial::Scalar(scalar * to_scalar(conjugate(origin_symbols.OSGIndex.sign(row_id))));
         }
 
         const auto& raw_map = this->core_solution->dense_map;
@@ -149,6 +167,7 @@ namespace Moment::Derived {
 
             // Create mapping
             this->map[source_symbol] = Polynomial{std::move(from_x_to_y)};
+            this->map[source_symbol] *= to_scalar(conjugate(origin_symbols.OSGIndex.sign(non_trivial_idx)));
             ++core_col_id;
         }
 
@@ -170,7 +189,9 @@ namespace Moment::Derived {
                 const double value = raw_inv_map(im_row_id, im_col_id);
                 if (abs(value) != 0.0) {
                     // Map: Core index -> osg index -> symbol table ID
-                    from_y_to_x.emplace_back(osg_to_symbols[non_trivial_idx], value, osg_conjugate[non_trivial_idx]);
+                    from_y_to_x.emplace_back(osg_to_symbols[non_trivial_idx],
+                                             value * to_scalar(origin_symbols.OSGIndex.sign(non_trivial_idx)),
+                                             osg_conjugate[non_trivial_idx]);
                 }
                 ++ im_col_id;
             }
-- 
2.43.0


From a213c63b13a7522be246a6458ee12155fca8d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 061/100] fix: importing matrices misjudged what complex
 factors imply for symbols

---
 .../imported/imported_matrix_system.cpp       | 79 +++++++++++--------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
index 240b35f..9509ccf 100644
--- a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
@@ -21,12 +21,46 @@
 namespace Moment::Imported {
 
     namespace {
+        /** The element is real, so flag what this implies for its symbol. */
+        void require_real(const Monomial& element,
+                          DynamicBitset<uint64_t>& can_be_real, DynamicBitset<uint64_t>& can_be_imaginary) {
+            if (element.id == 0) {
+                return;
+            }
+            if (element.factor.real() != 0.0) {
+                can_be_imaginary.unset(element.id);
+            }
+            if (element.factor.imag() != 0.0) {
+                can_be_real.unset(element.id);
+            }
+        }
+
+        /** It holds that f a = g a (or, f a = g a*), so flag what this implies for symbol a. */
+        void require_equal(const symbol_name_t id, const std::complex<double> f, const std::complex<double> g,
+                           const bool conjugated,
+                           DynamicBitset<uint64_t>& can_be_real, DynamicBitset<uint64_t>& can_be_imaginary) {
+            if (id == 0) {
+                return;
+            }
+            if (!conjugated) {
+                if (f != g) { // e.g. a = -a -> a is zero
+                    can_be_real.unset(id);
+                    can_be_imaginary.unset(id);
+                } // else a = a, no constraints
+                return;
+            }
+            if (f != -g) { // not a = -a* -> a is not imaginary
+                can_be_imaginary.unset(id);
+            }
+            if (f != g) { // not a = a* -> a is not real
+                can_be_real.unset(id);
+            }
+        }
+
         void checkIMSymmetric(const SquareMatrix<Monomial>& input,
                             DynamicBitset<uint64_t>& can_be_real,
                             DynamicBitset<uint64_t>& can_be_imaginary) {
             for (size_t i = 0; i < input.dimension; ++i) {
-                const auto& diagonal = input(std::array<size_t,2>{i, i});
-
                 for (size_t j = i+1; j < input.dimension; ++j) {
                     auto& upper = input(std::array<size_t,2>{i, j});
                     auto& lower = input(std::array<size_t,2>{j, i});
@@ -37,19 +71,8 @@ namespace Moment::Imported {
 
                         throw errors::bad_import_matrix{errSS.str()};
                     }
-                    const bool conj_eq = upper.conjugated == lower.conjugated;
-                    const bool neg_eq = upper.factor == lower.factor;
-
-                    if (conj_eq) {
-                        if (!neg_eq) { // a = -a -> a is zero
-                            can_be_real.unset(upper.id);
-                            can_be_imaginary.unset(upper.id);
-                        } // else a = a, no constraints
-                    } else if (neg_eq) { // a = a* -> a is real
-                        can_be_imaginary.unset(upper.id);
-                    } else { // a = -a* -> a is imaginary
-                        can_be_real.unset(upper.id);
-                    }
+                    require_equal(upper.id, upper.factor, lower.factor, upper.conjugated != lower.conjugated,
+                                  can_be_real, can_be_imaginary);
                 }
             }
         }
@@ -60,7 +83,7 @@ namespace Moment::Imported {
             for (size_t i = 0; i < input.dimension; ++i) {
                 const auto& diagonal = input(std::array<size_t,2>{i, i});
                 // Diagonal elements are always real;
-                can_be_imaginary.unset(diagonal.id);
+                require_real(diagonal, can_be_real, can_be_imaginary);
 
                 for (size_t j = i + 1; j < input.dimension; ++j) {
                     auto& upper = input(std::array<size_t,2>{i, j});
@@ -73,19 +96,9 @@ namespace Moment::Imported {
 
                         throw errors::bad_import_matrix{errSS.str()};
                     }
-                    const bool conj_eq = upper.conjugated != lower.conjugated; // <- account for Hermiticity
-                    const bool neg_eq = upper.factor == lower.factor;
-
-                    if (!conj_eq) {
-                        if (neg_eq) { // a* = a -> a = -a* -> a is real
-                            can_be_imaginary.unset(upper.id);
-                        } else { // else a* = -a -> a = -a* -> a is imaginary
-                            can_be_real.unset(upper.id);
-                        }
-                    } else if (!neg_eq) { // a = -a -> a is zero
-                        can_be_real.unset(upper.id);
-                        can_be_imaginary.unset(upper.id);
-                    } // else, a* = a*, no constraints
+                    require_equal(upper.id, upper.factor, std::conj(lower.factor), // <- account for Hermiticity
+                                  upper.conjugated == lower.conjugated,
+                                  can_be_real, can_be_imaginary);
 
                     // In real-only context, no symbol mentioned can be imaginary
                     if (!can_be_complex) {
@@ -163,12 +176,10 @@ namespace Moment::Imported {
             }
         }
 
-        // If importing real matrix into complex system, all imported reference symbols must be real.
+        // If importing real matrix, all elements must be real.
         if (!is_complex) {
-            if (!this->importedContext.real_only()) {
-                for (auto &symbol: *input) {
-                    can_be_imaginary.unset(symbol.id);
-                }
+            for (const auto &element: *input) {
+                require_real(element, can_be_real, can_be_imaginary);
             }
         }
 
-- 
2.43.0


From c2fc8187ee1b19ad425848c66e56159ea94dc751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 062/100] fix: a refused import left some of its symbols
 declared

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 37 +++++++++++-------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7b34009..f6f4312 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -201,9 +201,19 @@ namespace Moment {
         assert(can_be_real.bit_size == can_be_imaginary.bit_size);
         bool changes = false;
 
-        // Ensure enough elements exist
+        // Before changing anything, check that no symbol must be zero
         const size_t initial_elems = this->unique_sequences.size();
         const size_t elems = can_be_real.bit_size;
+        for (size_t id = 1; id < elems; ++id) {
+            const bool known = id < initial_elems;
+            const bool real = can_be_real.test(id) && !(known && this->unique_sequences[id].antihermitian);
+            const bool imaginary = can_be_imaginary.test(id) && !(known && this->unique_sequences[id].hermitian);
+            if (!real && !imaginary) {
+                throw errors::zero_symbol{static_cast<symbol_name_t>(id)};
+            }
+        }
+
+        // Ensure enough elements exist
         if (elems > initial_elems) {
             this->create(elems - initial_elems);
         }
@@ -218,26 +228,13 @@ namespace Moment {
 
             const bool sym_has_real = can_be_real.test(symbol.id);
             const bool sym_has_imaginary = can_be_imaginary.test(symbol.id);
-            if (sym_has_real) {
-                if (!sym_has_imaginary) {
-                    if (!symbol.hermitian) {
-                        changes = true;
-                    }
-                    symbol.hermitian = true;
-                    if (symbol.antihermitian) {
-                        throw errors::zero_symbol{symbol.id};
-                    }
-                }
-            } else if (sym_has_imaginary) {
-                if (!symbol.antihermitian) {
-                    changes = true;
-                }
+            if (!sym_has_imaginary && !symbol.hermitian) {
+                changes = true;
+                symbol.hermitian = true;
+            }
+            if (!sym_has_real && !symbol.antihermitian) {
+                changes = true;
                 symbol.antihermitian = true;
-                if (symbol.hermitian) {
-                    throw errors::zero_symbol{symbol.id};
-                }
-            } else {
-                throw errors::zero_symbol{symbol.id};
             }
         }
 
-- 
2.43.0


From 55355cebb9bef76b25929900ccdf33fde0b3231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 063/100] fix: bases of matrices were not updated when symbols
 were found to be real or imaginary

---
 cpp/lib_moment/matrix/matrix_basis.h        | 18 ++++++++++++++++++
 cpp/lib_moment/matrix/monomial_matrix.cpp   |  1 +
 cpp/lib_moment/matrix/polynomial_matrix.cpp |  1 +
 3 files changed, 20 insertions(+)

diff --git a/cpp/lib_moment/matrix/matrix_basis.h b/cpp/lib_moment/matrix/matrix_basis.h
index f3c8a6b..a5f20b9 100644
--- a/cpp/lib_moment/matrix/matrix_basis.h
+++ b/cpp/lib_moment/matrix/matrix_basis.h
@@ -78,6 +78,11 @@ namespace Moment {
 
             /** Constructs the basis from scratch */
             [[nodiscard]] typename MBTInfo::MakeStorageType create_basis() const;
+
+            /** Forgets the basis, so that it will be made again when next requested. */
+            void reset() noexcept {
+                this->done.store(false, std::memory_order_release);
+            }
         };
 
     public:
@@ -135,6 +140,19 @@ namespace Moment {
 
         MatrixBasis(const SymbolicMatrix& matrix, MatrixBasis&& rhs) noexcept;
 
+        /** Forgets all bases (e.g. because the real and imaginary parts of symbols have been renumbered). */
+        void reset() noexcept {
+            std::unique_lock write_lock{this->mutex};
+            this->Dense.reset();
+            this->DenseComplex.reset();
+            this->Sparse.reset();
+            this->SparseComplex.reset();
+            this->DenseMonolithic.reset();
+            this->DenseMonolithicComplex.reset();
+            this->SparseMonolithic.reset();
+            this->SparseMonolithicComplex.reset();
+        }
+
     private:
         DenseBasisInfo::MakeStorageType create_dense();
         SparseBasisInfo::MakeStorageType create_sparse();
diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 5ec0ba7..ae36aaa 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -127,6 +127,7 @@ namespace Moment {
         }
 
         this->identify_symbols_and_basis_indices();
+        this->Basis.reset();
     }
 
     void MonomialMatrix::identify_symbols_and_basis_indices() {
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index e9c09c5..bdcff88 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -163,6 +163,7 @@ namespace Moment {
         }
 
         this->identify_symbols_and_basis_indices(zero_tolerance);
+        this->Basis.reset();
     }
 
     void PolynomialMatrix::identify_symbols_and_basis_indices(double zero_tolerance) {
-- 
2.43.0


From c677ded10dc65378731735881df63112143e0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 064/100] fix: symmetrical copies of words on non-square
 lattices used the wrong number of rows

---
 cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 5affa3e..87d920a 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -97,7 +97,7 @@ namespace Moment::Pauli {
 
             // Lattice
             for (size_t col = 0; col < hasher.row_width; ++col) {
-                for (size_t row = (col != 0) ? 0 : 1; row < hasher.row_width; ++row) {
+                for (size_t row = (col != 0) ? 0 : 1; row < hasher.column_height; ++row) {
                     for (const auto& base_hash : base_hashes) {
                         output.emplace_back(OperatorSequence::ConstructPresortedFlag{},
                                             hasher.unhash(hasher.lattice_shift(base_hash, row, col)),
-- 
2.43.0


From 689b869228e97385297f8da9bdb12867c69c52a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 065/100] fix: check for aliased copies on lattices mixed up
 rows and columns

---
 .../scenarios/pauli/symmetry/lattice_duplicator.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 87d920a..391cf9d 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -145,8 +145,8 @@ namespace Moment::Pauli {
             // Reason from indices if aliasing is completely impossible
             MomentSimplifierNoWrappingLattice nowrap{duplicator.context};
             auto [max_row, max_col] = nowrap.lattice_supremum(lattice_indices);
-            const bool no_horz_alias = (max_row <= hasher.row_width/2);
-            const bool no_vert_alias = (max_col <= hasher.column_height/2);
+            const bool no_horz_alias = (max_col <= hasher.row_width/2);
+            const bool no_vert_alias = (max_row <= hasher.column_height/2);
             if (no_horz_alias && no_vert_alias) {
                 return do_unaliased_lattice_symmetric_fill(duplicator, output, hasher, lattice_indices);
             }
-- 
2.43.0


From 3337e9590d9a04d982011f419e917657d66d9a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 066/100] fix: extent of unordered lists of lattice sites was
 wrong

---
 .../symmetry/moment_simplifier_no_wrapping.cpp      | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
index 3bd5011..53c0cd6 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
@@ -171,13 +171,12 @@ namespace Moment::Pauli {
             return {0, 0};
         }
 
-        // Max column will be column of last qubit:
-        const size_t max_column = 1 + (input.back() / this->column_height);
-
-        // Scan for maximum row
-        size_t max_row = (input[0] % this->column_height) + 1;
-        for (size_t idx = 1; idx < input.size(); ++idx) {
-            max_row = std::max(max_row, (input[idx]  % this->column_height) + 1);
+        // Scan for maximum row and column (sites might not be in order)
+        size_t max_column = 0;
+        size_t max_row = 0;
+        for (const size_t site : input) {
+            max_column = std::max(max_column, (site / this->column_height) + 1);
+            max_row = std::max(max_row, (site % this->column_height) + 1);
         }
 
         return {max_row, max_column};
-- 
2.43.0


From 405f344ac11703ba08b4ef5ff6f2138fc4d6fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 067/100] fix: negative offsets on wrapping chains and lattices
 were wrong

---
 .../pauli/symmetry/moment_simplifier_wrapping.h    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
index 764e85d..455a37a 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
@@ -67,10 +67,10 @@ namespace Moment::Pauli {
 
         [[nodiscard]] sequence_storage_t chain_offset(const std::span<const oper_name_t> input,
                                                       ptrdiff_t offset) const final {
-            // Translate offsets to positive range:
-            offset = offset % this->context.qubit_size;
+            // Translate offset to positive range:
+            offset = offset % static_cast<ptrdiff_t>(this->site_hasher.qubits);
             if (offset < 0) {
-                offset = this->site_hasher.qubits - offset;
+                offset += static_cast<ptrdiff_t>(this->site_hasher.qubits);
             }
 
             // Via hash, shift:
@@ -84,14 +84,14 @@ namespace Moment::Pauli {
                                           ptrdiff_t row_offset,
                                           ptrdiff_t col_offset) const final {
             // Translate offsets to positive range:
-            row_offset = row_offset % this->context.qubit_size;
+            row_offset = row_offset % static_cast<ptrdiff_t>(this->site_hasher.column_height);
             if (row_offset < 0) {
-                row_offset = this->site_hasher.qubits - row_offset;
+                row_offset += static_cast<ptrdiff_t>(this->site_hasher.column_height);
             }
 
-            col_offset = col_offset % this->context.qubit_size;
+            col_offset = col_offset % static_cast<ptrdiff_t>(this->site_hasher.row_width);
             if (col_offset < 0) {
-                col_offset = this->site_hasher.qubits - col_offset;
+                col_offset += static_cast<ptrdiff_t>(this->site_hasher.row_width);
             }
 
             // Via hash, shift:
-- 
2.43.0


From 1d484e7fb00286435b109a34b21f840cd77c1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 068/100] fix: shifting rows of large wrapping lattices gave
 wrong words

---
 .../scenarios/pauli/symmetry/site_hasher.h    | 73 +++++++++----------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 5231d2f..b6fd317 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -61,6 +61,32 @@ namespace Moment::Pauli {
               column_mask(calculate_mask_from_qubits(column_height)) { }
 
     protected:
+        /**
+         * Cyclically shift every column, one site at a time. There is no restriction on the height of the columns.
+         * @param input The hash to shift
+         * @param offset The shift: must be less than the column height
+         */
+        template<size_t num_slides>
+        [[nodiscard]] std::array<storage_t, num_slides>
+        sitewise_row_cyclic_shift(const std::array<storage_t, num_slides>& input, const size_t offset) const noexcept {
+            std::array<storage_t, num_slides> output;
+            output.fill(0);
+            for (size_t slide = 0; slide < num_slides; ++slide) {
+                storage_t remaining = input[slide];
+                while (0 != remaining) {
+                    const size_t in_slide = std::countr_zero(remaining) / 2;
+                    const storage_t pauli_op = (remaining >> (2 * in_slide)) & 0x3;
+                    remaining ^= (pauli_op << (2 * in_slide));
+
+                    const size_t old_qubit = (slide * qubits_per_slide) + in_slide;
+                    const size_t old_row = old_qubit % this->column_height;
+                    const size_t new_qubit = (old_qubit - old_row) + ((old_row + offset) % this->column_height);
+                    output[new_qubit / qubits_per_slide] |= (pauli_op << (2 * (new_qubit % qubits_per_slide)));
+                }
+            }
+            return output;
+        }
+
         /**
          * Calculates number of qubits on last slide
          */
@@ -76,7 +102,7 @@ namespace Moment::Pauli {
         */
         [[nodiscard]] constexpr static storage_t
         calculate_mask_from_bits(const size_t num_bits) noexcept {
-            if ((2 * qubits_per_slide == num_bits) || (0 == num_bits)) {
+            if ((2 * qubits_per_slide <= num_bits) || (0 == num_bits)) {
                 return ~static_cast<storage_t>(0); // 0xff...ff
             }
 
@@ -238,47 +264,11 @@ namespace Moment::Pauli {
          * Offset along minor axis:
          */
         [[nodiscard]] Datum row_cyclic_shift(const Datum& input, size_t offset) const noexcept {
-
-            // Normalize rotation, and get within-column offsets
-            offset = offset % this->row_width;
-            const storage_t bit_offset = 2ULL * offset;
-            const storage_t bit_anti_offset = (this->column_height * 2ULL) - bit_offset;
-
-            // Skip trivial offset
+            offset = offset % this->column_height;
             if (0 == offset) {
                 return input;
             }
-
-            Datum output;
-            output.fill(0);
-
-            for (size_t column = 0; column < this->row_width; ++column) {
-                const size_t first_slide = (column * this->column_height) / qubits_per_slide;
-                const ptrdiff_t offset_slide_one = static_cast<ptrdiff_t>(2)
-                                                   * ((column * this->column_height) % qubits_per_slide);
-                const ptrdiff_t offset_slide_two = static_cast<ptrdiff_t>(2)
-                                                   * (((column + 1) * this->column_height) % qubits_per_slide);
-
-                if ((offset_slide_two <= offset_slide_one) && (offset_slide_two != 0)) {
-                    // Column straddles slide boundaries
-                    size_t remainder = column_height - (offset_slide_two / 2);
-                    const uint64_t remainder_mask = calculate_mask_from_bits(offset_slide_two);
-                    storage_t word = ((input[first_slide] >> offset_slide_one) & this->column_mask)
-                                     | ((input[first_slide + 1] & remainder_mask) << (remainder * 2)); // Read word
-                    word = ((word << bit_offset) | (word >> bit_anti_offset)) & this->column_mask; // Rotate word
-
-                    output[first_slide] |= (word << offset_slide_one);  // Add word part to first slide
-                    output[first_slide + 1] = (word
-                            >> (remainder * 2));  // Overwrite second slide with  second word part
-
-                } else { // Entirely within first slide
-                    // Within slide shift
-                    storage_t word = (input[first_slide] >> offset_slide_one) & this->column_mask; // Read word
-                    word = ((word << bit_offset) | (word >> bit_anti_offset)) & this->column_mask; // Rotate word
-                    output[first_slide] |= (word << offset_slide_one); // Write word to output
-                }
-            }
-            return output;
+            return this->template sitewise_row_cyclic_shift<num_slides>(input, offset);
         }
 
         /**
@@ -632,6 +622,11 @@ namespace Moment::Pauli {
                 return input;
             }
 
+            // Columns that do not fit in one word:
+            if (this->column_height > qubits_per_slide) {
+                return this->template sitewise_row_cyclic_shift<2>(input, offset);
+            }
+
             const storage_t bit_offset = 2 * offset;
             const storage_t bit_anti_offset = (this->column_height * 2) - bit_offset;
 
-- 
2.43.0


From 05834868fe8a6390d109a4a7b49c0071233c3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 069/100] fix: shifts of small wrapping chains by more than the
 chain length were wrong

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index b6fd317..89ee4f1 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -388,7 +388,7 @@ namespace Moment::Pauli {
          * Bit rotation for chain
          */
         [[nodiscard]] Datum cyclic_shift(const Datum input, size_t offset) const noexcept {
-            offset = 2 * (offset % qubits_per_slide);
+            offset = 2 * (offset % this->qubits);
             if (0 == offset) {
                 return input;
             }
-- 
2.43.0


From 582ec89f764339a0f647a18366a8260e278fdc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 070/100] fix: one of the four corner-shaped neighbourhoods on
 lattices was listed twice, and another not at all

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index d207cfd..f3b87aa 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -205,7 +205,7 @@ namespace Moment::Pauli {
                 // Bottom left corner
                 ld.symmetrical_fill(std::array<size_t, 3>{0, 1, context.col_height+1}, false);
                 // Bottom right corner
-                ld.symmetrical_fill(std::array<size_t, 3>{0, context.col_height, context.col_height+1}, false);
+                ld.symmetrical_fill(std::array<size_t, 3>{1, context.col_height, context.col_height+1}, false);
             }
 
             return sequences.size() - initial_count;
-- 
2.43.0


From 54c0f27a21e2e8e5534167c4060ec22004fe2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 071/100] fix: neighbouring words on small wrapped chains and
 lattices were listed several times

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 35 ++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index f3b87aa..a283353 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -12,8 +12,26 @@
 #include "utilities/combinations.h"
 #include "dictionary/multi_operator_iterator.h"
 
+#include <algorithm>
+#include <set>
+#include <vector>
+
 namespace Moment::Pauli {
     namespace {
+        /**
+         * Remove words that appear more than once, keeping the first of each.
+         * @param sequences The list of words.
+         * @param first_index Words before this index are not considered.
+         */
+        void remove_repeated_words(std::vector<OperatorSequence>& sequences, const size_t first_index) {
+            std::set<std::vector<oper_name_t>> seen;
+            const auto new_end = std::remove_if(sequences.begin() + static_cast<ptrdiff_t>(first_index), sequences.end(),
+                                                [&seen](const OperatorSequence& seq) {
+                return !seen.emplace(seq.begin(), seq.end()).second;
+            });
+            sequences.erase(new_end, sequences.end());
+        }
+
         /**
          * Calculates nearest neighbour sequences in a chain, with and without wrapping.
          * @tparam wrapped True, to wrap around qubits.
@@ -30,12 +48,16 @@ namespace Moment::Pauli {
                     ld.two_qubit_fill(first_party, first_party+1);
                 }
                 if constexpr(wrapped) {
-                    ld.two_qubit_fill(context.qubit_size-1, 0);
+                    if (context.qubit_size > 2) {
+                        ld.two_qubit_fill(context.qubit_size-1, 0);
+                    }
                 }
             }
 
             for (size_t parties = 3; parties <= word_length; ++parties) {
-                const size_t final_first_party = wrapped ? (context.qubit_size - 1) : (context.qubit_size - parties);
+                // NB: words on the entire chain are the same from every starting point.
+                const size_t final_first_party = (wrapped && (parties < context.qubit_size))
+                                                    ? (context.qubit_size - 1) : (context.qubit_size - parties);
                 for (size_t first_party = 0; first_party <= final_first_party; ++ first_party) {
                     //ld.permutation_fill()
                     MultiOperatorIterator pauliIter{context, parties, 3, 0};
@@ -111,6 +133,10 @@ namespace Moment::Pauli {
                 }
             }
 
+            // With wrapping, the same sites can be reached from more than one starting point
+            if constexpr (wrapped) {
+                remove_repeated_words(sequences, init_size);
+            }
             return sequences.size() - init_size;
         }
 
@@ -208,6 +234,11 @@ namespace Moment::Pauli {
                 ld.symmetrical_fill(std::array<size_t, 3>{1, context.col_height, context.col_height+1}, false);
             }
 
+            // If only two rows or columns, wrapping makes some corners the same
+            if (wrapped && ((context.row_width == 2) || (context.col_height == 2))) {
+                remove_repeated_words(sequences, initial_count);
+            }
+
             return sequences.size() - initial_count;
         }
 
-- 
2.43.0


From e39fdcefc539edc3d21fac46b477d6752201fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 072/100] fix: neighbouring triplets on wrapped lattices
 without symmetry could not be listed

---
 .../scenarios/pauli/symmetry/lattice_duplicator.cpp  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 391cf9d..d065347 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -214,10 +214,10 @@ namespace Moment::Pauli {
                                                     std::vector<OperatorSequence>& output,
                                                     const std::span<const size_t> lattice_indices,
                                                     const bool check_for_aliases) {
-            // Convert hasher to implementation:~
-            const auto& moment_simplifier =
-                    dynamic_cast<const MomentSimplifierWrapping<num_slides>&>(duplicator.context.moment_simplifier());
-            const auto& hasher = moment_simplifier.site_hasher;
+            // Shifts of sites are defined for every wrapping context, even if it does not impose symmetry:
+            const auto& context = duplicator.context;
+            const SiteHasher<num_slides> hasher{context.is_lattice() ? context.col_height : context.qubit_size,
+                                                context.is_lattice() ? context.row_width : 1};
 
             // Invoke appropriate duplicator
             if (duplicator.context.is_lattice()) {
@@ -321,7 +321,9 @@ namespace Moment::Pauli {
         }
 
         // Otherwise, we use cyclic hasher to facilitate our duplications
-        switch(this->context.moment_simplifier().impl_label) {
+        const size_t number_of_slides = (this->context.qubit_size + SiteHasherImplBase::qubits_per_slide - 1)
+                                        / SiteHasherImplBase::qubits_per_slide;
+        switch(number_of_slides) {
             case 1:
                 return do_symmetric_fill<1>(*this, this->output, lattice_sites, check_for_aliases);
             case 2:
-- 
2.43.0


From 763c758a420c1c481f80bce461f30f613e5654a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 073/100] fix: empty DynamicBitset wrote before its data when
 filled or inverted

---
 cpp/lib_moment/utilities/dynamic_bitset.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/dynamic_bitset.h b/cpp/lib_moment/utilities/dynamic_bitset.h
index 6143edc..62171f7 100644
--- a/cpp/lib_moment/utilities/dynamic_bitset.h
+++ b/cpp/lib_moment/utilities/dynamic_bitset.h
@@ -101,7 +101,7 @@ namespace Moment {
         /** Construct an empty dynamic bitset with all values set to default_value */
         constexpr DynamicBitset(const index_t bit_size, const bool default_value)
             : DynamicBitset<page_t, index_t, storage_t>{bit_size} {
-            if (default_value) {
+            if (default_value && (page_count > 0)) {
                 for (index_t i = 0, iMax = page_count - 1; i < iMax; ++i) {
                     this->data[i] = ~static_cast<page_t>(0);
                 }
@@ -268,6 +268,9 @@ namespace Moment {
          */
         constexpr DynamicBitset<page_t, index_t, storage_t> operator~() const {
             DynamicBitset<page_t, index_t, storage_t> output{this->bit_size};
+            if (this->page_count <= 0) {
+                return output;
+            }
             for (index_t page = 0; page < (this->page_count-1); ++page) {
                 output.data[page] = ~this->data[page];
             }
-- 
2.43.0


From d02bfec757cd6ecb47b6bd97f20d504a3c0a4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 074/100] fix: combinations(N, K) overflowed for results which
 fit

---
 cpp/lib_moment/utilities/combinations.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/utilities/combinations.h b/cpp/lib_moment/utilities/combinations.h
index 32c4c0a..3852b03 100644
--- a/cpp/lib_moment/utilities/combinations.h
+++ b/cpp/lib_moment/utilities/combinations.h
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <concepts>
+#include <numeric>
 #include <vector>
 
 namespace Moment {
@@ -23,15 +24,20 @@ namespace Moment {
      */
     template<std::integral int_t>
     [[nodiscard]] constexpr int_t combinations(int_t N, int_t K) {
-        int_t numerator = 1;
-        for (int_t iN = N-K+1; iN <= N; ++iN) {
-            numerator *= iN;
+        if (K > N) {
+            return 0;
         }
-        int_t denominator = 1;
+        // Choosing K elements is the same as choosing the N-K others
+        if (K > N - K) {
+            K = N - K;
+        }
+        // Each partial product is itself a binomial coefficient no greater than the output: no spurious overflow.
+        int_t output = 1;
         for (int_t iD = 1; iD <= K; ++iD) {
-            denominator *= iD;
+            const int_t common = std::gcd(output, iD);
+            output = (output / common) * ((N - K + iD) / (iD / common));
         }
-        return numerator/denominator;
+        return output;
     }
 
     template<bool inclusive = false>
-- 
2.43.0


From 48171e80b355f8867113312642c9bc775635734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 075/100] fix: CommutingIndexIterator counted, and refused, as
 if elements could not repeat

---
 cpp/lib_moment/utilities/combinations.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/combinations.h b/cpp/lib_moment/utilities/combinations.h
index 3852b03..2ebe5fc 100644
--- a/cpp/lib_moment/utilities/combinations.h
+++ b/cpp/lib_moment/utilities/combinations.h
@@ -62,8 +62,8 @@ namespace Moment {
 
         /** Construct iterator in begin state */
         constexpr CombinationIndexIteratorBase(size_t SetSize, size_t SubsetSize)
-            : N{SetSize}, K{SubsetSize}, endState{false} {
-            assert(SetSize >= SubsetSize);
+            : N{SetSize}, K{SubsetSize}, endState{inclusive && (SetSize == 0) && (SubsetSize > 0)} {
+            assert(inclusive || (SetSize >= SubsetSize));
 
             // Initialize as lowest object (0, 1, ... K-1)
             this->indices.reserve(K);
@@ -145,7 +145,11 @@ namespace Moment {
         }
 
         [[nodiscard]] constexpr size_t combination_count() const noexcept {
-            return combinations(this->N, this->K);
+            if constexpr (inclusive) {
+                return (this->K == 0) ? 1 : ((this->N == 0) ? 0 : combinations(this->N + this->K - 1, this->K));
+            } else {
+                return combinations(this->N, this->K);
+            }
         }
 
     private:
-- 
2.43.0


From 5c03c78b0f55871a4e932ab12b71474dd7a70c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 076/100] fix: is_zero of a sparse matrix ignored its
 tolerance, and stored zeros

---
 cpp/lib_moment/utilities/eigen_utils.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index ee70edc..87d829e 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -30,11 +30,27 @@ namespace Moment {
     }
 
     bool is_zero(const Eigen::SparseMatrix<double>& data, double zero_tolerance) noexcept {
-        return (data.nonZeros() == 0);
+        using inner_iter_t = Eigen::SparseMatrix<double>::InnerIterator;
+        for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
+            for (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
+                if (!approximately_zero(inner_iter.value(), zero_tolerance)) {
+                    return false;
+                }
+            }
+        }
+        return true;
     }
 
     bool is_zero(const Eigen::SparseMatrix<std::complex<double>>& data, double zero_tolerance) noexcept {
-        return (data.nonZeros() == 0);
+        using inner_iter_t = Eigen::SparseMatrix<std::complex<double>>::InnerIterator;
+        for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
+            for (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
+                if (!approximately_zero(inner_iter.value(), zero_tolerance)) {
+                    return false;
+                }
+            }
+        }
+        return true;
     }
 
     bool is_hermitian(const Eigen::MatrixXcd& data, double zero_tolerance) noexcept {
-- 
2.43.0


From 33558d67ce4f89dc528c34ff4033ff1019bc731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 077/100] fix: RecursiveStorage::access returned a reference
 into a destroyed copy

---
 cpp/lib_moment/utilities/recursive_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/recursive_index.h b/cpp/lib_moment/utilities/recursive_index.h
index 49f3002..260fee4 100644
--- a/cpp/lib_moment/utilities/recursive_index.h
+++ b/cpp/lib_moment/utilities/recursive_index.h
@@ -112,7 +112,7 @@ namespace Moment {
          * @return Reference to the stored value.
          */
         [[nodiscard]] constexpr const type_t& access(std::span<const size_t> indices) const noexcept {
-            auto place = subtree(indices);
+            const auto& place = subtree(indices);
             return place.access();
         }
 
-- 
2.43.0


From 523e1fc9dcc7502474f6bf67c73029c35232cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 078/100] fix: SmallVector constructed new elements over live
 ones, and emplace_back read moved arguments

---
 cpp/lib_moment/utilities/small_vector.h | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/cpp/lib_moment/utilities/small_vector.h b/cpp/lib_moment/utilities/small_vector.h
index b87cb1d..1fdf65a 100644
--- a/cpp/lib_moment/utilities/small_vector.h
+++ b/cpp/lib_moment/utilities/small_vector.h
@@ -185,7 +185,7 @@ namespace Moment {
 
             // Copy object N times:~
             for (size_t r = 0; r < N; ++r) {
-                new(&this->data_start[r]) value_t(Val);
+                this->data_start[r] = Val;
             }
         }
 
@@ -304,9 +304,8 @@ namespace Moment {
                 this->reallocate(this->_size+1);
             }
 
-            // Move element to new location
-            value_t * location = this->data_start + this->_size;
-            new(location) value_t(std::move(elem));
+            // Move element to new location (where there already is an object)
+            this->data_start[this->_size] = std::move(elem);
             this->_size += 1;
         }
 
@@ -324,15 +323,8 @@ namespace Moment {
          */
         template<class... Args>
         void emplace_back(Args&&... args) {
-            // Check if we need to expand capacity
-            if (this->_size >= this->_capacity) {
-                this->reallocate(this->_size+1);
-            }
-
-            // Construct element in situ:
-            value_t * location = this->data_start + this->_size;
-            new(location) value_t(std::forward<Args>(args)...);
-            this->_size += 1;
+            // Construct element before storage moves, as arguments might refer into this vector:
+            this->push_back(value_t(std::forward<Args>(args)...));
         }
 
         /**
-- 
2.43.0


From e6660735766a5ea7fbc0af31b253652fbba1862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 079/100] fix: with tolerance zero, no complex number was zero
 or equal to itself

---
 cpp/lib_moment/utilities/float_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/float_utils.h b/cpp/lib_moment/utilities/float_utils.h
index d3b73a0..4ab06eb 100644
--- a/cpp/lib_moment/utilities/float_utils.h
+++ b/cpp/lib_moment/utilities/float_utils.h
@@ -127,7 +127,7 @@ namespace Moment {
     [[nodiscard]] constexpr bool approximately_zero(const std::complex<double> x, const double eps_multiplier = 1.0) {
         const double threshold = eps_multiplier * eps_multiplier
                                  * std::numeric_limits<double>::epsilon() * std::numeric_limits<double>::epsilon();
-        return ((x.real() * x.real()) + (x.imag() * x.imag())) < threshold;
+        return ((x.real() * x.real()) + (x.imag() * x.imag())) <= threshold;
     }
 
     /**
-- 
2.43.0


From ca5f961c9424992c5d1bd222d272c1e23dbc0079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 080/100] fix: ShiftSorter counted positions in the type of the
 elements

---
 cpp/lib_moment/utilities/shift_sorter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/shift_sorter.h b/cpp/lib_moment/utilities/shift_sorter.h
index 62b7114..a27c3d9 100644
--- a/cpp/lib_moment/utilities/shift_sorter.h
+++ b/cpp/lib_moment/utilities/shift_sorter.h
@@ -25,11 +25,11 @@ namespace Moment {
 
             /** True if ordered span of LHS is less than span of RHS */
             [[nodiscard]] bool operator()(const size_t lhs_offset, const size_t rhs_offset) const noexcept {
-                const int_t the_size = data_view.size();
+                const size_t the_size = data_view.size();
 
                 for (size_t index = 0; index < the_size; ++index) {
-                    const int_t lhs_index = (index + lhs_offset) % the_size;
-                    const int_t rhs_index = (index + rhs_offset) % the_size;
+                    const size_t lhs_index = (index + lhs_offset) % the_size;
+                    const size_t rhs_index = (index + rhs_offset) % the_size;
 
                     if (data_view[lhs_index] < data_view[rhs_index]) {
                         return true;  // Left offset 'gap' strictly smaller than right offset 'gap'
-- 
2.43.0


From f4b89a3677b653f57b8f317d27a950ae7cc71cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 081/100] fix: IndexTree iterator counted children in the type
 of the keys

---
 cpp/lib_moment/utilities/index_tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/utilities/index_tree.h b/cpp/lib_moment/utilities/index_tree.h
index baf749f..4a4f60e 100644
--- a/cpp/lib_moment/utilities/index_tree.h
+++ b/cpp/lib_moment/utilities/index_tree.h
@@ -45,13 +45,13 @@ namespace Moment {
             struct recursion_stack {
             public:
                 IndexTreeT * node = nullptr;
-                look_up_t next_child = 0;
+                size_t next_child = 0;
 
                 recursion_stack() = default;
 
                 recursion_stack(const recursion_stack&) = default;
 
-                recursion_stack(IndexTreeT * node, look_up_t next_child)
+                recursion_stack(IndexTreeT * node, size_t next_child)
                     : node{node}, next_child{next_child} { }
 
                 [[nodiscard]] constexpr bool has_next_child() const noexcept {
-- 
2.43.0


From 6276f980e25f682edbc683d6f047c333d7fb8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 082/100] fix: U+007F takes one byte in UTF-8

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 7c85d3e..00becb6 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -15,7 +15,7 @@ namespace Moment {
     size_t UTF16toUTF8Convertor::size_in_utf8(const std::basic_string<char16_t> &wstring) {
         size_t output = 0;
         for (char16_t elem : wstring) {
-            if (elem < 0x007f) {
+            if (elem <= 0x007f) {
                 output += 1;
             } else if (elem <= 0x07FF) {
                 output += 2;
-- 
2.43.0


From 3e5888ac498430c3617bec0f481b3fb5dd073f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 083/100] fix: convert code points of plane 16 to UTF-8

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 00becb6..46125d7 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -109,7 +109,7 @@ namespace Moment {
 
                     const char16_t surrogate_high = (src & 0x03FF) + 0x0040; // Correct for 0x10000 offset of code point
 
-                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0300) >> 8)); // 2 bits to first char
+                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0700) >> 8)); // 2 bits to first char
                     const auto b1 = static_cast<char>( 0x80 | ((surrogate_high & 0x00fc) >> 2)); // 6 bits to next char
                     const auto b2 = static_cast<char>( 0x80 | ((surrogate_high & 0x0003) << 4) // 2 from high
                                                             | ((surrogate_low & 0x03c0) >> 6));  // 4 from low
-- 
2.43.0


From 96b1db054479202407210b42ddc77e61c9fd1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 084/100] fix: convert code points of plane 16 from UTF-8

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 46125d7..fd7fdb7 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -248,7 +248,7 @@ namespace Moment {
                     return output;
                 }
 
-                const auto b1 = src & 0x03; // 2
+                const auto b1 = src & 0x07; // 2
                 const auto b2 = *(src_ptr+1) & 0x3f; // 6
                 const auto b3 = *(src_ptr+2) & 0x3f; // 6
                 const auto b4 = *(src_ptr+3) & 0x3f; // 6
-- 
2.43.0


From 3fcd9439bef72d8447a0cc95d5aa3eeb3f4b2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 085/100] fix: printing a locality word with operator number
 equal to the number of operators

---
 cpp/lib_moment/scenarios/locality/locality_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index c9628d4..fa1c76c 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -244,7 +244,7 @@ namespace Moment::Locality {
                     done_once = true;
                 }
 
-                if (oper > context.size()) {
+                if (oper >= context.size()) {
                     os << "[UNK:" << oper << "]";
                 } else {
                     const auto &party = context.associated_party(oper);
-- 
2.43.0


From 36def4388e53af9da098752b1b20b84e8841d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 086/100] fix: alphabetic names of large indices, by integer
 arithmetic

---
 cpp/lib_moment/utilities/alphabetic_namer.cpp | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/utilities/alphabetic_namer.cpp b/cpp/lib_moment/utilities/alphabetic_namer.cpp
index 1be07ab..5888fa5 100644
--- a/cpp/lib_moment/utilities/alphabetic_namer.cpp
+++ b/cpp/lib_moment/utilities/alphabetic_namer.cpp
@@ -7,17 +7,32 @@
 #include "alphabetic_namer.h"
 
 #include <cassert>
-#include <cmath>
+
+#include <limits>
 
 namespace Moment {
 
     size_t AlphabeticNamer::strlen(size_t id) noexcept {
-        constexpr double one_over_ln26 = 0.30692767643013485;
-        return 1 + static_cast<size_t>(std::floor(one_over_ln26 * std::log((static_cast<double>(id) * 25. / 26.) + 1.)));
+        // Remove the names of each shorter length, until id is within names of the current length.
+        size_t length = 1;
+        size_t names_of_length = 26;
+        while (id >= names_of_length) {
+            id -= names_of_length;
+            ++length;
+            if (names_of_length > std::numeric_limits<size_t>::max() / 26) {
+                break; // There are more names of this length than can be counted by size_t.
+            }
+            names_of_length *= 26;
+        }
+        return length;
     }
 
     size_t AlphabeticNamer::level_offset(size_t level) noexcept {
-        return static_cast<size_t>(std::round((26. * (std::pow(26, static_cast<double>(level)) - 1.)) / 25.));
+        size_t output = 0;
+        for (size_t index = 0; index < level; ++index) {
+            output = (output + 1) * 26;
+        }
+        return output;
     }
 
     std::string AlphabeticNamer::operator()(size_t id) const {
@@ -34,9 +49,9 @@ namespace Moment {
         size_t beyond = id - level_offset(len-1);
 
         for (size_t index = 0; index < len; ++index) {
-            auto div = std::div(static_cast<long>(beyond), 26L);
-            beyond = div.quot;
-            output[len-index-1] = static_cast<char>((this->upper_case ? 'A' : 'a') + static_cast<char>(div.rem));
+            const auto remainder = beyond % 26;
+            beyond /= 26;
+            output[len-index-1] = static_cast<char>((this->upper_case ? 'A' : 'a') + static_cast<char>(remainder));
         }
 
         return output;
-- 
2.43.0


From 59bfd9d0c8f5aab5cce68adce1da37ffd8f2f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 087/100] fix: name of first operator lost when conjugates are
 interleaved

---
 cpp/lib_moment/scenarios/algebraic/name_table.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/name_table.cpp b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
index 65cfbd8..c014057 100644
--- a/cpp/lib_moment/scenarios/algebraic/name_table.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
@@ -83,7 +83,9 @@ namespace Moment::Algebraic {
                     std::string conj_str = this->names[idx];
                     conj_str.append("*");
 
-                    this->names[2*idx] = std::move(this->names[idx]);
+                    if (idx > 0) { // Name of first operator is already in the right place
+                        this->names[2*idx] = std::move(this->names[idx]);
+                    }
 
                     this->index.emplace(std::make_pair(conj_str, (2*idx+1)));
                     this->names[2*idx+1] = std::move(conj_str);
-- 
2.43.0


From 0f1c5708fae7c8b77e30175fffab1071941fd0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 088/100] fix: sign of the identity in text of algebraic words

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 742c8b3..e4e7e48 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -170,7 +170,7 @@ namespace Moment::Algebraic {
         }
 
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq);
             return;
         }
 
-- 
2.43.0


From ad6b480f3b450cc9a0a81e8942996e18023582c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 089/100] fix: signs of the identity and imaginary factors in
 text of locality words

---
 cpp/lib_moment/scenarios/locality/locality_context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index fa1c76c..a824f26 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -224,13 +224,16 @@ namespace Moment::Locality {
                 return;
             }
             if (seq.empty()) {
-                os << "1";
+                context.Context::format_sequence(os, seq);
                 return;
             }
 
             if (seq.negated()) {
                 os << "-";
             }
+            if (seq.imaginary()) {
+                os << "i";
+            }
 
             if (os.format_info.show_braces) {
                 os << "<";
-- 
2.43.0


From 0b95c4a17bfc3405ca97ed694973dbccf96f29dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 090/100] fix: signs of the identity and imaginary factors in
 text of inflation words

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 8b9af3c..e5fbd24 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -572,13 +572,16 @@ namespace Moment::Inflation {
             return;
         }
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq);
             return;
         }
 
         if (seq.negated()) {
             os.os << "-";
         }
+        if (seq.imaginary()) {
+            os.os << "i";
+        }
 
         if (os.format_info.show_braces) {
             os.os << "<";
-- 
2.43.0


From 99aefff74007f42cc5d8b5f72977666be30acef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 091/100] fix: refuse the most negative integer, which cannot
 be negated, when parsing a monomial

---
 cpp/lib_moment/symbolic/monomial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/monomial.cpp b/cpp/lib_moment/symbolic/monomial.cpp
index 10ae9e7..86702ce 100644
--- a/cpp/lib_moment/symbolic/monomial.cpp
+++ b/cpp/lib_moment/symbolic/monomial.cpp
@@ -8,6 +8,7 @@
 
 #include <cassert>
 
+#include <limits>
 #include <iostream>
 
 #include "scenarios/context.h"
@@ -261,7 +262,7 @@ namespace Moment {
             }
 
             if (read_symbol_id < 0) {
-                if (!has_prefactor) {
+                if (!has_prefactor && (read_symbol_id >= -std::numeric_limits<symbol_name_t>::max())) {
                     this->factor = -1.0;
                     read_symbol_id = -read_symbol_id;
                 } else {
-- 
2.43.0


From 078a3fa06393e98e001a4e716899deca88ed8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 092/100] fix: terms printed after a polynomial began with a
 plus sign

---
 cpp/lib_moment/symbolic/polynomial.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index de72aaf..ff1653f 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -526,6 +526,7 @@ namespace Moment {
         }
 
         // Attempt format
+        const bool initial_first_in_polynomial = os.format_info.first_in_polynomial;
         os.format_info.first_in_polynomial = true;
         for (const auto& elem : poly.data) {
             // Call monomial formatter
@@ -535,6 +536,9 @@ namespace Moment {
             os.format_info.first_in_polynomial = false;
         }
 
+        // Restore initial status
+        os.format_info.first_in_polynomial = initial_first_in_polynomial;
+
         return os;
     }
 
-- 
2.43.0


From 31ca841474421fa8f80ec5932d5c3be584f59d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 093/100] fix: text of scalar terms in polynomials of words

---
 cpp/lib_moment/dictionary/raw_polynomial.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/raw_polynomial.cpp b/cpp/lib_moment/dictionary/raw_polynomial.cpp
index 319cfbb..2715f96 100644
--- a/cpp/lib_moment/dictionary/raw_polynomial.cpp
+++ b/cpp/lib_moment/dictionary/raw_polynomial.cpp
@@ -46,8 +46,12 @@ namespace Moment {
 
         bool done_once = false;
         for (const auto& elem : this->data) {
-            format_factor(cSS, elem.weight, false, done_once);
-            cSS << elem.sequence;
+            // The identity is written as its factor alone
+            const bool is_scalar = elem.sequence.empty() && !elem.sequence.zero();
+            format_factor(cSS, elem.weight, is_scalar, done_once);
+            if (!is_scalar) {
+                cSS << elem.sequence;
+            }
             done_once = true;
         }
 
-- 
2.43.0


From 48ed8861218dde885f287f6173c34b4f23d7753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 094/100] fix: text of the zero polynomial of words

---
 cpp/lib_moment/dictionary/raw_polynomial.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/lib_moment/dictionary/raw_polynomial.cpp b/cpp/lib_moment/dictionary/raw_polynomial.cpp
index 2715f96..167f778 100644
--- a/cpp/lib_moment/dictionary/raw_polynomial.cpp
+++ b/cpp/lib_moment/dictionary/raw_polynomial.cpp
@@ -40,6 +40,10 @@ namespace Moment {
     }
 
     std::string RawPolynomial::to_string(const Context& context) const {
+        if (this->data.empty()) {
+            return "0";
+        }
+
         std::stringstream ss;
         ContextualOS cSS{ss, context};
         cSS.format_info.show_braces = true;
-- 
2.43.0


From cdd68c56837468f88b660194031b030d30ccfff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 095/100] fix: brackets around sums that symbols of derived
 scenarios stand for

---
 .../scenarios/derived/derived_context.cpp      | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/derived_context.cpp b/cpp/lib_moment/scenarios/derived/derived_context.cpp
index 4b05261..03c309f 100644
--- a/cpp/lib_moment/scenarios/derived/derived_context.cpp
+++ b/cpp/lib_moment/scenarios/derived/derived_context.cpp
@@ -34,12 +34,22 @@ namespace Moment::Derived {
         baseCOS.format_info.locality_formatter = os.format_info.locality_formatter;
 
         // Use polynomials from STM to infer inverse
-        if (conjugated) {
-            auto poly = this->map_ptr->inverse(Monomial{symbol_id, 1.0, true});
+        // Symbol stands for a whole polynomial: with brackets, so that any factor in front applies to all its terms
+        const auto write_polynomial = [&baseCOS](const Polynomial& poly) {
+            const bool needs_brackets = poly.size() > 1;
+            if (needs_brackets) {
+                baseCOS.os << "(";
+            }
             baseCOS << poly;
+            if (needs_brackets) {
+                baseCOS.os << ")";
+            }
+        };
+
+        if (conjugated) {
+            write_polynomial(this->map_ptr->inverse(Monomial{symbol_id, 1.0, true}));
         } else {
-            const auto& poly = this->map_ptr->inverse(symbol_id);
-            baseCOS << poly;
+            write_polynomial(this->map_ptr->inverse(symbol_id));
         }
     }
 
-- 
2.43.0


From 9cc4c27e76c06a8abd865e46ed56f5ee20499513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 096/100] fix: incomplete UTF-8 read as if it were ASCII

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index fd7fdb7..f90bee5 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -191,7 +191,7 @@ namespace Moment {
         // Quick convert for ASCII sequence
         const size_t out_capacity = UTF8toUTF16Convertor::size_in_utf16(string);
 
-        const bool is_ascii = string.size() == out_capacity;
+        const bool is_ascii = std::none_of(string.cbegin(), string.cend(), [](const char elem) { return (elem & 0x80) != 0; });
         if (is_ascii) {
             return UTF8toUTF16Convertor::convert_as_ascii(string);
         }
-- 
2.43.0


From 6c05865fbe4af71a4c0543d626a8e130e7919533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 097/100] fix: terms scaled down to nought stay in rules

---
 cpp/lib_moment/symbolic/polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index ff1653f..424adbc 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -103,6 +103,7 @@ namespace Moment {
         for (auto& elem : this->data) {
             Moment::real_or_imaginary_if_close(elem.factor, zero_tolerance);
         }
+        remove_zeros(this->data, zero_tolerance);
     }
 
 
-- 
2.43.0


From ce3c6ca2ece801095c871e2460f5223e199aa004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:38 +0000
Subject: [PATCH 098/100] fix: rules that set to zero, to the identity or
 change sign imply what they say

---
 .../scenarios/algebraic/operator_rule.cpp     | 44 ++++++++++---------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index 3680c98..b153d7e 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -127,34 +127,36 @@ namespace Moment::Algebraic {
     }
 
     bool OperatorRule::implies(const OperatorRule &other) const noexcept {
-        // First, do we find LHS in other rule LHS?
-        auto embeddedLHS_begin = this->rawLHS.matches_anywhere(other.rawLHS.begin(), other.rawLHS.end());
-        if (embeddedLHS_begin== other.rawLHS.end()) {
+        // Zero only implies zero; otherwise both rules must change sign alike
+        if (this->implies_zero() != other.implies_zero()) {
             return false;
         }
-
-        // Second, do we find RHS in other rule RHS?
-        auto embeddedRHS_begin = this->rawRHS.matches_anywhere(other.rawRHS.begin(), other.rawRHS.end());
-        if (embeddedRHS_begin == other.rawRHS.end()) {
-            return false;
-        }
-
-        // Check that prefix of other rule matches
-        if (!std::equal(other.rawLHS.begin(), embeddedLHS_begin,
-                        other.rawRHS.begin(), embeddedRHS_begin)) {
+        if (!this->implies_zero() && (this->rule_sign() != other.rule_sign())) {
             return false;
         }
 
-        // Check that suffix of other rule matches
-        auto suffix_LHS = embeddedLHS_begin + static_cast<ptrdiff_t>(this->rawLHS.size());
-        auto suffix_RHS = embeddedRHS_begin + static_cast<ptrdiff_t>(this->rawRHS.size());
-        if (!std::equal(suffix_LHS, other.rawLHS.end(),
-                        suffix_RHS, other.rawRHS.end())) {
-            return false;
+        // Does our LHS appear in other's LHS, such that what surrounds it also surrounds our RHS in other's RHS?
+        for (auto match = this->rawLHS.matches_anywhere(other.rawLHS.begin(), other.rawLHS.end());
+             match != other.rawLHS.end();
+             match = this->rawLHS.matches_anywhere(match + 1, other.rawLHS.end())) {
+            if (this->implies_zero()) {
+                return true;
+            }
+            const auto prefix_size = std::distance(other.rawLHS.begin(), match);
+            const auto suffix = match + static_cast<ptrdiff_t>(this->rawLHS.size());
+            const auto suffix_size = std::distance(suffix, other.rawLHS.end());
+            const auto rhs_size = static_cast<ptrdiff_t>(this->rawRHS.size());
+            if (static_cast<ptrdiff_t>(other.rawRHS.size()) != (prefix_size + rhs_size + suffix_size)) {
+                return false;
+            }
+            if (std::equal(other.rawLHS.begin(), match, other.rawRHS.begin())
+                && std::equal(this->rawRHS.begin(), this->rawRHS.end(), other.rawRHS.begin() + prefix_size)
+                && std::equal(suffix, other.rawLHS.end(), other.rawRHS.begin() + prefix_size + rhs_size)) {
+                return true;
+            }
         }
 
-        // No mismatches
-        return true;
+        return false;
     }
 
     std::optional<OperatorRule>
-- 
2.43.0


From 6b73a98b0516ddce0e4f984e7d5e00081451fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 099/100] fix: a party that is moved keeps its list of
 operators

---
 cpp/lib_moment/scenarios/locality/party.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/scenarios/locality/party.h b/cpp/lib_moment/scenarios/locality/party.h
index 59fdfbc..41a24bc 100644
--- a/cpp/lib_moment/scenarios/locality/party.h
+++ b/cpp/lib_moment/scenarios/locality/party.h
@@ -69,6 +69,7 @@ namespace Moment::Locality {
                 global_measurement_offset(rhs.global_measurement_offset),
                 global_operator_offset(rhs.global_operator_offset),
                 party_operator_count(rhs.party_operator_count),
+                included_operators{std::move(rhs.included_operators)},
                 context{rhs.context} { }
 
         Party(party_name_t id, std::string the_name, std::vector<Measurement>&& measurements);
-- 
2.43.0


From 0e9fc1b15db6b056c1315003082439c36795f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 100/100] fix: a rulebook whose rules cannot be carried over to
 products is left as it was

---
 .../matrix_system/rulebook_storage.cpp        |  9 ++++++++-
 .../inflation/inflation_matrix_system.cpp     | 10 +++++++++-
 .../symbolic/rules/moment_rulebook.cpp        | 13 +++++++++++++
 .../symbolic/rules/moment_rulebook.h          | 19 +++++++++++++++++++
 4 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/rulebook_storage.cpp b/cpp/lib_moment/matrix_system/rulebook_storage.cpp
index 21c75d0..422ffcc 100644
--- a/cpp/lib_moment/matrix_system/rulebook_storage.cpp
+++ b/cpp/lib_moment/matrix_system/rulebook_storage.cpp
@@ -68,12 +68,19 @@ namespace Moment {
         assert(write_lock.owns_lock());
         auto& existing_rulebook = this->find(existing_rulebook_id);
 
+        MomentRulebook::Checkpoint checkpoint{existing_rulebook};
         existing_rulebook.combine_and_complete(std::move(input_rulebook));
 
         // NB: Name should be handled already, either from existing name, or newly-merged-in name.
 
         // Dispatch notification of merge-in to derived classes
-        this->system.on_rulebook_added(write_lock, existing_rulebook_id, existing_rulebook, false);
+        try {
+            this->system.on_rulebook_added(write_lock, existing_rulebook_id, existing_rulebook, false);
+        } catch (...) {
+            // Merged rules were rejected, so undo merge
+            checkpoint.restore();
+            throw;
+        }
 
         // Return merged book
         return {existing_rulebook_id, existing_rulebook};
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index b3ec906..c9d3674 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -185,10 +185,18 @@ namespace Moment::Inflation {
 
         }
 
+        MomentRulebook::Checkpoint checkpoint{rulebook};
         rulebook.add_raw_rules(std::move(new_rules));
 
         // Compile rules
-        ptrdiff_t final_rule_count = rulebook.complete();
+        ptrdiff_t final_rule_count = 0;
+        try {
+            final_rule_count = rulebook.complete();
+        } catch (...) {
+            // Implied rules were contradictory, so leave rulebook as it was
+            checkpoint.restore();
+            throw;
+        }
 
         // How many rules?
         return final_rule_count - initial_rule_count;
diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index d0fb88e..6a47660 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -458,6 +458,19 @@ namespace Moment {
         }
     }
 
+    MomentRulebook::Checkpoint::Checkpoint(MomentRulebook& target)
+        : target{target}, human_readable_name{target.human_readable_name}, raw_rules{target.raw_rules},
+          rules{target.rules}, monomial_rules{target.monomial_rules}, hermitian_rules{target.hermitian_rules} { }
+
+    void MomentRulebook::Checkpoint::restore() {
+        this->target.human_readable_name = this->human_readable_name;
+        this->target.raw_rules = this->raw_rules;
+        this->target.rules = this->rules;
+        this->target.monomial_rules = this->monomial_rules;
+        this->target.hermitian_rules = this->hermitian_rules;
+        this->target.remake_keys();
+    }
+
     void MomentRulebook::remake_keys() {
         this->rules_in_order.clear();
         for (auto iter = rules.begin(); iter != rules.end(); ++iter) {
diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.h b/cpp/lib_moment/symbolic/rules/moment_rulebook.h
index b87133a..cfe6559 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.h
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.h
@@ -124,6 +124,25 @@ namespace Moment {
          */
         bool in_expansion_mode = false;
 
+    public:
+        /**
+         * Remembers the rules (and name) of a rulebook, so these may be reinstated if some change to it fails.
+         */
+        class Checkpoint {
+        private:
+            MomentRulebook& target;
+            std::string human_readable_name;
+            std::vector<Polynomial> raw_rules;
+            rule_map_t rules;
+            bool monomial_rules;
+            bool hermitian_rules;
+        public:
+            explicit Checkpoint(MomentRulebook& target);
+
+            /** Return rulebook to its state when checkpoint was made. */
+            void restore();
+        };
+
     public:
         /**
          * Constructs a moment rulebook.
-- 
2.43.0

