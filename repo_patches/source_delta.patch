From 2ac33ee041e39d28fca36447930191d2e86da8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 01/45] verif hook: LOG_SURGEON_VERIF_STATIC_BUFF_SIZE
 overrides the static buffer size

---
 src/log_surgeon/Constants.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log_surgeon/Constants.hpp b/src/log_surgeon/Constants.hpp
index 17f0372..c9f33a5 100644
--- a/src/log_surgeon/Constants.hpp
+++ b/src/log_surgeon/Constants.hpp
@@ -46,7 +46,12 @@ constexpr char cTokenHex[] = "hex";
 constexpr char cTokenFirstTimestamp[] = "firstTimestamp";
 constexpr char cTokenNewlineTimestamp[] = "newLineTimestamp";
 constexpr char cTokenNewline[] = "newLine";
+#ifdef LOG_SURGEON_VERIF_STATIC_BUFF_SIZE
+// Verification hook: shrinks the static buffers so that their boundaries are reached quickly.
+constexpr uint32_t cStaticByteBuffSize = LOG_SURGEON_VERIF_STATIC_BUFF_SIZE;
+#else
 constexpr uint32_t cStaticByteBuffSize = 48'000;
+#endif
 
 namespace utf8 {
 // 0xC0, 0xC1, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE,
-- 
2.43.0


From 9be5998fad439ef53de02bc686d96ddd62456bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 02/45] fix: make an empty regex node match the empty string

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index beeb588..79353a1 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -177,12 +177,12 @@ public:
         // Do nothing as an empty node contains no delimiters.
     }
 
-    auto add_to_nfa(
-            [[maybe_unused]] RegexNFA<NFAStateType>* nfa,
-            [[maybe_unused]] NFAStateType* end_state
-    ) const -> void override {
-        // Do nothing as adding an empty node to the NFA is a null operation.
-    }
+    /**
+     * Adds an epsilon transition to `end_state`, as an empty node matches the empty string.
+     * @param nfa
+     * @param end_state
+     */
+    auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
     [[nodiscard]] auto serialize() const -> std::u32string override;
 };
@@ -713,6 +713,14 @@ private:
     std::unique_ptr<Tag> m_tag;
 };
 
+template <typename NFAStateType>
+auto RegexASTEmpty<NFAStateType>::add_to_nfa(
+        RegexNFA<NFAStateType>* nfa,
+        NFAStateType* end_state
+) const -> void {
+    nfa->get_root()->add_epsilon_transition(end_state);
+}
+
 template <typename NFAStateType>
 [[nodiscard]] auto RegexASTEmpty<NFAStateType>::serialize() const -> std::u32string {
     return fmt::format(U"{}", RegexAST<NFAStateType>::serialize_negative_tags());
-- 
2.43.0


From d722144a918c58dd11dfc1aeb0e4d266a4722bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 03/45] fix: handle zero, inverted and oversized repetition
 counts in schema patterns

---
 src/log_surgeon/SchemaParser.cpp | 67 +++++++++++++++++---------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5676026..70f0b0d 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -1,6 +1,6 @@
 #include "SchemaParser.hpp"
 
-#include <cmath>
+#include <limits>
 #include <memory>
 #include <span>
 #include <stdexcept>
@@ -216,48 +216,53 @@ static auto regex_match_one_or_more_rule(NonTerminal* m) -> unique_ptr<ParserAST
     ));
 }
 
-static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
-    auto& r3 = m->non_terminal_cast(2)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    auto* r3_ptr = dynamic_cast<RegexASTIntegerByte*>(r3.get());
-    uint32_t reps = 0;
-    uint32_t r3_size = r3_ptr->get_digits().size();
-    for (uint32_t i = 0; i < r3_size; i++) {
-        reps += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
+static auto get_repetition_count(RegexASTByte const* regex_ast) -> uint32_t {
+    auto const* integer_ast = dynamic_cast<RegexASTIntegerByte const*>(regex_ast);
+    uint64_t count = 0;
+    for (uint32_t const digit : integer_ast->get_digits()) {
+        count = count * 10 + digit;
+        if (count > std::numeric_limits<uint32_t>::max()) {
+            throw std::runtime_error("Repetition count in a schema rule is too large.");
+        }
     }
-    auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    return unique_ptr<ParserAST>(new ParserValueRegex(
-            unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
-    ));
+    return static_cast<uint32_t>(count);
 }
 
-static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
-    auto& r3 = m->non_terminal_cast(2)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    auto* r3_ptr = dynamic_cast<RegexASTIntegerByte*>(r3.get());
-    uint32_t min = 0;
-    uint32_t r3_size = r3_ptr->get_digits().size();
-    for (uint32_t i = 0; i < r3_size; i++) {
-        min += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
+static auto new_repetition(unique_ptr<RegexASTByte> operand, uint32_t min, uint32_t max)
+        -> unique_ptr<ParserAST> {
+    if (max < min) {
+        throw std::runtime_error("Repetition in a schema rule has a maximum below its minimum.");
     }
-    auto& r5 = m->non_terminal_cast(4)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    auto* r5_ptr = dynamic_cast<RegexASTIntegerByte*>(r5.get());
-    uint32_t max = 0;
-    uint32_t r5_size = r5_ptr->get_digits().size();
-    for (uint32_t i = 0; i < r5_size; i++) {
-        max += r5_ptr->get_digit(i) * (uint32_t)pow(10, r5_size - i - 1);
+    // NOTE: `RegexASTMultiplication` treats a maximum of 0 as infinite.
+    if (0 == max) {
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
     }
-    auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-
     if (0 == min) {
         // To handle negative tags we treat `R*` as `R+ | ∅`.
         return make_unique<ParserValueRegex>(make_unique<RegexASTOrByte>(
                 make_unique<RegexASTEmptyByte>(),
-                make_unique<RegexASTMultiplicationByte>(std::move(r1), 1, max)
+                make_unique<RegexASTMultiplicationByte>(std::move(operand), 1, max)
         ));
     }
+    return make_unique<ParserValueRegex>(
+            make_unique<RegexASTMultiplicationByte>(std::move(operand), min, max)
+    );
+}
 
-    return unique_ptr<ParserAST>(new ParserValueRegex(
-            unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), min, max))
-    ));
+static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
+    auto& r3 = m->non_terminal_cast(2)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
+    uint32_t const reps = get_repetition_count(r3.get());
+    auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
+    return new_repetition(std::move(r1), reps, reps);
+}
+
+static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
+    auto& r3 = m->non_terminal_cast(2)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
+    uint32_t const min = get_repetition_count(r3.get());
+    auto& r5 = m->non_terminal_cast(4)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
+    uint32_t const max = get_repetition_count(r5.get());
+    auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
+    return new_repetition(std::move(r1), min, max);
 }
 
 static auto regex_add_literal_existing_group_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
-- 
2.43.0


From 6509013f3a3000ff0bc2493757514c7706418b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 04/45] fix: reject inverted ranges in schema patterns instead
 of asserting

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 79353a1..0a8602c 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1010,8 +1010,10 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(
                 "to README-Schema.md for more details."
         );
     }
+    if (right->get_character() < left->get_character()) {
+        throw std::runtime_error("RegexASTGroup3: the end of a range precedes its start.");
+    }
     m_negate = false;
-    assert(right->get_character() > left->get_character());
     m_ranges.emplace_back(left->get_character(), right->get_character());
 }
 
-- 
2.43.0


From 8238181fab1cc8bc341e7ebc41a02503c7f93540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 05/45] fix: accept \s inside bracket expressions

---
 src/log_surgeon/SchemaParser.cpp             |  4 ++--
 src/log_surgeon/finite_automata/RegexAST.hpp | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 70f0b0d..2a41de8 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -577,12 +577,12 @@ void SchemaParser::add_productions() {
     add_production(
             "IncompleteGroup",
             {"IncompleteGroup", "WhiteSpace"},
-            regex_add_literal_existing_group_rule
+            regex_add_range_existing_group_rule
     );
     add_production("IncompleteGroup", {"Lbracket", "LiteralRange"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Digit"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Literal"}, regex_add_literal_new_group_rule);
-    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_literal_new_group_rule);
+    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Hat"}, regex_complement_incomplete_group_rule);
     add_production("LiteralRange", {"Literal", "Dash", "Literal"}, regex_range_rule);
     add_production("Literal", {"Backslash", "t"}, regex_tab_rule);
diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 0a8602c..107acf3 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -977,8 +977,7 @@ template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* left, RegexASTGroup const* right)
         : m_negate(left->m_negate),
           m_ranges(left->m_ranges) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
+    m_ranges.insert(m_ranges.end(), right->m_ranges.cbegin(), right->m_ranges.cend());
 }
 
 template <typename NFAStateType>
@@ -993,10 +992,9 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTLiteral<NFAStateType> const*
 }
 
 template <typename NFAStateType>
-RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right) : m_negate(false) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
-}
+RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right)
+        : m_negate(false),
+          m_ranges(right->m_ranges) {}
 
 template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(
-- 
2.43.0


From 706616c5d7d0753882527982d629a8efdc2aec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 06/45] fix: complement an empty bracket expression to every
 character

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 107acf3..9ab0270 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1061,7 +1061,7 @@ auto RegexASTGroup<NFAStateType>::complement(std::vector<Range> const& ranges
         }
         low = end + 1;
     }
-    if (low > 0) {
+    if (low <= cUnicodeMax) {
         complemented.emplace_back(low, cUnicodeMax);
     }
     return complemented;
-- 
2.43.0


From 03dcaa59e34b763cbbd49f9ff2a557f1c80bb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 07/45] fix: keep a repetition from extending the other
 alternatives of an OR

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 44 +++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 9ab0270..cac15df 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -83,6 +83,12 @@ public:
      */
     [[nodiscard]] virtual auto serialize() const -> std::u32string = 0;
 
+    /**
+     * @return Whether `add_to_nfa` may add transitions that leave its `end_state`. If so, the end
+     * state can't be shared with other nodes, as their matches could then be wrongly extended.
+     */
+    [[nodiscard]] virtual auto extends_end_state() const -> bool { return false; }
+
     [[nodiscard]] auto get_subtree_positive_tags() const -> std::vector<Tag const*> const& {
         return m_subtree_positive_tags;
     }
@@ -121,6 +127,32 @@ public:
         }
     }
 
+    /**
+     * @return Same as `extends_end_state`, but for `add_to_nfa_with_negative_tags`.
+     */
+    [[nodiscard]] auto extends_end_state_with_negative_tags() const -> bool {
+        return m_negative_tags.empty() && extends_end_state();
+    }
+
+    /**
+     * Same as `add_to_nfa_with_negative_tags`, but guarantees that no transitions leaving
+     * `end_state` are added.
+     * @param nfa
+     * @param end_state
+     */
+    auto add_to_nfa_with_unextended_end_state(
+            RegexNFA<NFAStateType>* nfa,
+            NFAStateType* end_state
+    ) const -> void {
+        if (extends_end_state_with_negative_tags()) {
+            auto* intermediate_state = nfa->new_state();
+            add_to_nfa(nfa, intermediate_state);
+            intermediate_state->add_epsilon_transition(end_state);
+        } else {
+            add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    }
+
 protected:
     RegexAST(RegexAST const& rhs) = default;
     auto operator=(RegexAST const& rhs) -> RegexAST& = default;
@@ -539,6 +571,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto extends_end_state() const -> bool override {
+        return m_right->extends_end_state_with_negative_tags();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto get_left() const -> RegexAST<NFAStateType> const* { return m_left.get(); }
@@ -603,6 +639,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto extends_end_state() const -> bool override {
+        return is_infinite() || m_operand->extends_end_state_with_negative_tags();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto is_infinite() const -> bool { return this->m_max == 0; }
@@ -791,8 +831,8 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 template <typename NFAStateType>
 void RegexASTOr<NFAStateType>::add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
         const {
-    m_left->add_to_nfa_with_negative_tags(nfa, end_state);
-    m_right->add_to_nfa_with_negative_tags(nfa, end_state);
+    m_left->add_to_nfa_with_unextended_end_state(nfa, end_state);
+    m_right->add_to_nfa_with_unextended_end_state(nfa, end_state);
 }
 
 template <typename NFAStateType>
-- 
2.43.0


From 0b302abf1c1c313df9e4b83dc80fd1e9aafca26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 08/45] fix: make cloned regex ASTs refer to their own capture
 tags

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 37 +++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index cac15df..3d377c6 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -469,7 +469,9 @@ public:
     RegexASTOr(RegexASTOr const& rhs)
             : RegexAST<NFAStateType>(rhs),
               m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {
+        init_tags();
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTOr
@@ -515,6 +517,11 @@ public:
     [[nodiscard]] auto get_right() const -> RegexAST<NFAStateType> const* { return m_right.get(); }
 
 private:
+    /**
+     * Sets this node's (and its children's) tags from the captures inside its children.
+     */
+    auto init_tags() -> void;
+
     std::unique_ptr<RegexAST<NFAStateType>> m_left;
     std::unique_ptr<RegexAST<NFAStateType>> m_right;
 };
@@ -532,7 +539,9 @@ public:
     RegexASTCat(RegexASTCat const& rhs)
             : RegexAST<NFAStateType>(rhs),
               m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {
+        init_tags();
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTCat
@@ -582,6 +591,11 @@ public:
     [[nodiscard]] auto get_right() const -> RegexAST<NFAStateType> const* { return m_right.get(); }
 
 private:
+    /**
+     * Sets this node's (and its children's) tags from the captures inside its children.
+     */
+    auto init_tags() -> void;
+
     std::unique_ptr<RegexAST<NFAStateType>> m_left;
     std::unique_ptr<RegexAST<NFAStateType>> m_right;
 };
@@ -601,7 +615,9 @@ public:
             : RegexAST<NFAStateType>(rhs),
               m_operand(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_operand->clone())),
               m_min(rhs.m_min),
-              m_max(rhs.m_max) {}
+              m_max(rhs.m_max) {
+        RegexAST<NFAStateType>::set_subtree_positive_tags(m_operand->get_subtree_positive_tags());
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTMultiplication
@@ -701,7 +717,10 @@ public:
                       std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone())
               },
               m_tag{std::make_unique<Tag>(*rhs.m_tag)} {
-        RegexAST<NFAStateType>::set_subtree_positive_tags(rhs.get_subtree_positive_tags());
+        RegexAST<NFAStateType>::set_subtree_positive_tags(
+                m_group_regex_ast->get_subtree_positive_tags()
+        );
+        RegexAST<NFAStateType>::add_subtree_positive_tags({m_tag.get()});
     }
 
     /**
@@ -822,6 +841,11 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 )
         : m_left(std::move(left)),
           m_right(std::move(right)) {
+    init_tags();
+}
+
+template <typename NFAStateType>
+auto RegexASTOr<NFAStateType>::init_tags() -> void {
     m_left->set_negative_tags(m_right->get_subtree_positive_tags());
     m_right->set_negative_tags(m_left->get_subtree_positive_tags());
     RegexAST<NFAStateType>::set_subtree_positive_tags(m_left->get_subtree_positive_tags());
@@ -852,6 +876,11 @@ RegexASTCat<NFAStateType>::RegexASTCat(
 )
         : m_left(std::move(left)),
           m_right(std::move(right)) {
+    init_tags();
+}
+
+template <typename NFAStateType>
+auto RegexASTCat<NFAStateType>::init_tags() -> void {
     RegexAST<NFAStateType>::set_subtree_positive_tags(m_left->get_subtree_positive_tags());
     RegexAST<NFAStateType>::add_subtree_positive_tags(m_right->get_subtree_positive_tags());
 }
-- 
2.43.0


From 76c3255cdb6749c09876255529ae6c0be6175f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 09/45] fix: order the types a token matches by rule instead of
 by memory address

---
 src/log_surgeon/LexicalRule.hpp               |  2 ++
 src/log_surgeon/finite_automata/RegexDFA.tpp  | 20 ++++++++++++++++++-
 src/log_surgeon/finite_automata/RegexNFA.hpp  |  2 ++
 .../finite_automata/RegexNFAState.hpp         |  9 +++++++++
 4 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LexicalRule.hpp b/src/log_surgeon/LexicalRule.hpp
index 9aa9328..3d71cad 100644
--- a/src/log_surgeon/LexicalRule.hpp
+++ b/src/log_surgeon/LexicalRule.hpp
@@ -40,6 +40,8 @@ void LexicalRule<NFAStateType>::add_to_nfa(finite_automata::RegexNFA<NFAStateTyp
     auto* end_state = nfa->new_state();
     end_state->set_accepting(true);
     end_state->set_matching_variable_id(m_variable_id);
+    // Rules are added in order of precedence, so later rules have higher (worse) priority values.
+    end_state->set_matching_priority(nfa->get_num_states());
     m_regex->add_to_nfa_with_negative_tags(nfa, end_state);
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/finite_automata/RegexDFA.tpp b/src/log_surgeon/finite_automata/RegexDFA.tpp
index 458a556..3f5159e 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.tpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.tpp
@@ -44,9 +44,27 @@ auto RegexDFA<DFAStateType>::new_state(std::set<NFAStateType*> const& nfa_state_
 ) -> DFAStateType* {
     m_states.emplace_back(std::make_unique<DFAStateType>());
     auto* dfa_state = m_states.back().get();
+    // The set is ordered by the states' addresses, so order the accepting states by rule instead
+    std::vector<NFAStateType const*> accepting_states;
     for (auto const* nfa_state : nfa_state_set) {
         if (nfa_state->is_accepting()) {
-            dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
+            accepting_states.push_back(nfa_state);
+        }
+    }
+    std::sort(
+            accepting_states.begin(),
+            accepting_states.end(),
+            [](NFAStateType const* lhs, NFAStateType const* rhs) -> bool {
+                return lhs->get_matching_priority() < rhs->get_matching_priority();
+            }
+    );
+    for (auto const* nfa_state : accepting_states) {
+        auto const variable_id = nfa_state->get_matching_variable_id();
+        auto const& variable_ids = dfa_state->get_matching_variable_ids();
+        // Rules can share a variable id
+        if (variable_ids.cend() == std::find(variable_ids.cbegin(), variable_ids.cend(), variable_id))
+        {
+            dfa_state->add_matching_variable_id(variable_id);
         }
     }
     return dfa_state;
diff --git a/src/log_surgeon/finite_automata/RegexNFA.hpp b/src/log_surgeon/finite_automata/RegexNFA.hpp
index ba9791b..273af35 100644
--- a/src/log_surgeon/finite_automata/RegexNFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFA.hpp
@@ -90,6 +90,8 @@ public:
 
     auto get_root() -> NFAStateType* { return m_root; }
 
+    [[nodiscard]] auto get_num_states() const -> size_t { return m_states.size(); }
+
 private:
     std::vector<std::unique_ptr<NFAStateType>> m_states;
     NFAStateType* m_root;
diff --git a/src/log_surgeon/finite_automata/RegexNFAState.hpp b/src/log_surgeon/finite_automata/RegexNFAState.hpp
index 8fce8cf..ee74d5d 100644
--- a/src/log_surgeon/finite_automata/RegexNFAState.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFAState.hpp
@@ -2,6 +2,7 @@
 #define LOG_SURGEON_FINITE_AUTOMATA_REGEX_NFA_STATE
 
 #include <array>
+#include <cstddef>
 #include <cstdint>
 #include <memory>
 #include <optional>
@@ -49,6 +50,13 @@ public:
         return m_matching_variable_id;
     }
 
+    /**
+     * @param priority Rank of the state's rule among all rules: lower values take precedence.
+     */
+    auto set_matching_priority(size_t const priority) -> void { m_matching_priority = priority; }
+
+    [[nodiscard]] auto get_matching_priority() const -> size_t { return m_matching_priority; }
+
     auto
     add_positive_tagged_start_transition(Tag const* tag, RegexNFAState const* dest_state) -> void {
         m_positive_tagged_start_transitions.emplace_back(tag, dest_state);
@@ -110,6 +118,7 @@ public:
 private:
     bool m_accepting{false};
     uint32_t m_matching_variable_id{0};
+    size_t m_matching_priority{0};
     std::vector<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_start_transitions;
     std::optional<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_end_transition;
     std::optional<NegativeTaggedTransition<RegexNFAState>> m_negative_tagged_transition;
-- 
2.43.0


From 22039328f5d4e7d19395b8e9cf4b71472c0c5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 10/45] fix: grow the schema parser's symbol storage, and keep
 it per thread and per parse

---
 src/log_surgeon/LALR1Parser.cpp | 7 +++++--
 src/log_surgeon/LALR1Parser.hpp | 9 +++++----
 src/log_surgeon/LALR1Parser.tpp | 4 +---
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 5268091..16fffdc 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,16 +1,19 @@
 #include "LALR1Parser.hpp"
 
 namespace log_surgeon {
-MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
+thread_local std::vector<MatchedSymbol> NonTerminal::m_all_children;
 
 ParserAST::~ParserAST() = default;
 
-uint32_t NonTerminal::m_next_children_start = 0;
+thread_local uint32_t NonTerminal::m_next_children_start = 0;
 
 NonTerminal::NonTerminal(Production* p)
         : m_children_start(NonTerminal::m_next_children_start),
           m_production(p),
           m_ast(nullptr) {
     NonTerminal::m_next_children_start += p->m_body.size();
+    if (NonTerminal::m_all_children.size() < NonTerminal::m_next_children_start) {
+        NonTerminal::m_all_children.resize(NonTerminal::m_next_children_start);
+    }
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index c31e78e..f13bf33 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -7,6 +7,7 @@
 #include <functional>
 #include <list>
 #include <map>
+#include <memory>
 #include <optional>
 #include <set>
 #include <stack>
@@ -76,7 +77,6 @@ public:
      * @return Token*
      */
     [[nodiscard]] auto token_cast(uint32_t i) const -> Token* {
-        assert(i < cSizeOfAllChildren);
         return &std::get<Token>(NonTerminal::m_all_children[m_children_start + i]);
     }
 
@@ -88,7 +88,6 @@ public:
      * @return NonTerminal*
      */
     [[nodiscard]] auto non_terminal_cast(uint32_t i) const -> NonTerminal* {
-        assert(i < cSizeOfAllChildren);
         return &std::get<NonTerminal>(NonTerminal::m_all_children[m_children_start + i]);
     }
 
@@ -99,8 +98,10 @@ public:
      */
     auto get_parser_ast() -> std::unique_ptr<ParserAST>& { return m_ast; }
 
-    static MatchedSymbol m_all_children[];
-    static uint32_t m_next_children_start;
+    // The children of all the `NonTerminal`s of the parse running on this thread. It grows with
+    // each new `NonTerminal`, so pointers to children are only valid until the next one is created.
+    static thread_local std::vector<MatchedSymbol> m_all_children;
+    static thread_local uint32_t m_next_children_start;
     uint32_t m_children_start;
     Production* m_production;
     std::unique_ptr<ParserAST> m_ast;
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2edfa29..b152f56 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -543,7 +543,6 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_after_last_newline(
                         },
                         [&parse_stack_matches](NonTerminal& m) {
                             for (size_t i = 0; i < m.m_production->m_body.size(); i++) {
-                                assert(m.m_children_start + i < cSizeOfAllChildren);
                                 parse_stack_matches.push(std::move(
                                         NonTerminal::m_all_children[m.m_children_start + i]
                                 ));
@@ -661,6 +660,7 @@ void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     }
     m_input_buffer.reset();
     this->m_lexer.reset();
+    NonTerminal::m_next_children_start = 0;
 }
 
 template <typename NFAStateType, typename DFAStateType>
@@ -725,8 +725,6 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse_symbol(
                         size_t n = reduce->m_body.size();
                         for (size_t i = 0; i < n; i++) {
                             m_parse_stack_states.pop();
-                            assert((matched_non_terminal.m_children_start + n - i - 1)
-                                   < cSizeOfAllChildren);
                             NonTerminal::m_all_children
                                     [matched_non_terminal.m_children_start + n - i - 1]
                                     = std::move(m_parse_stack_matches.top());
-- 
2.43.0


From 287c8283ae7d41e83c6c9d399c06f276952e2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 11/45] fix: initialize the schema parser's special characters
 once instead of racily in each constructor

---
 src/log_surgeon/SchemaParser.cpp | 18 ------------------
 src/log_surgeon/SchemaParser.hpp | 19 ++++++++++++++++++-
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 2a41de8..a141d4d 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -422,24 +422,6 @@ static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
 }
 
 void SchemaParser::add_lexical_rules() {
-    if (m_special_regex_characters.empty()) {
-        m_special_regex_characters.emplace('(', "Lparen");
-        m_special_regex_characters.emplace(')', "Rparen");
-        m_special_regex_characters.emplace('*', "Star");
-        m_special_regex_characters.emplace('+', "Plus");
-        m_special_regex_characters.emplace('-', "Dash");
-        m_special_regex_characters.emplace('.', "Dot");
-        m_special_regex_characters.emplace('[', "Lbracket");
-        m_special_regex_characters.emplace(']', "Rbracket");
-        m_special_regex_characters.emplace('\\', "Backslash");
-        m_special_regex_characters.emplace('^', "Hat");
-        m_special_regex_characters.emplace('{', "Lbrace");
-        m_special_regex_characters.emplace('}', "Rbrace");
-        m_special_regex_characters.emplace('|', "Vbar");
-        m_special_regex_characters.emplace('<', "Langle");
-        m_special_regex_characters.emplace('>', "Rangle");
-        m_special_regex_characters.emplace('?', "QuestionMark");
-    }
     for (auto const& [special_regex_char, special_regex_name] : m_special_regex_characters) {
         add_token(special_regex_name, special_regex_char);
     }
diff --git a/src/log_surgeon/SchemaParser.hpp b/src/log_surgeon/SchemaParser.hpp
index c508128..7f316f8 100644
--- a/src/log_surgeon/SchemaParser.hpp
+++ b/src/log_surgeon/SchemaParser.hpp
@@ -127,7 +127,24 @@ private:
      */
     auto generate_schema_ast(Reader& reader) -> std::unique_ptr<SchemaAST>;
 
-    static inline std::unordered_map<char, std::string> m_special_regex_characters;
+    static inline std::unordered_map<char, std::string> const m_special_regex_characters{
+            {'(', "Lparen"},
+            {')', "Rparen"},
+            {'*', "Star"},
+            {'+', "Plus"},
+            {'-', "Dash"},
+            {'.', "Dot"},
+            {'[', "Lbracket"},
+            {']', "Rbracket"},
+            {'\\', "Backslash"},
+            {'^', "Hat"},
+            {'{', "Lbrace"},
+            {'}', "Rbrace"},
+            {'|', "Vbar"},
+            {'<', "Langle"},
+            {'>', "Rangle"},
+            {'?', "QuestionMark"}
+    };
 };
 }  // namespace log_surgeon
 
-- 
2.43.0


From 97438b27f0879fe3aa0e0c50fafaf4b5138c4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 12/45] fix: continue reading a schema string where the
 previous read ended

---
 src/log_surgeon/SchemaParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index a141d4d..6c0e02d 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -84,8 +84,8 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
 }
 
 auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_ptr<SchemaAST> {
+    size_t unparsed_string_pos = 0;
     Reader reader{[&](char* dst_buf, size_t count, size_t& read_to) -> ErrorCode {
-        uint32_t unparsed_string_pos = 0;
         std::span<char> const buf{dst_buf, count};
         if (unparsed_string_pos + count > schema_string.length()) {
             count = schema_string.length() - unparsed_string_pos;
-- 
2.43.0


From e4811b929ff49087ef15bd071f8267918f431ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 13/45] fix: reject delimiters that aren't single characters

---
 src/log_surgeon/SchemaParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 6c0e02d..a743fe1 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -406,18 +406,26 @@ static auto regex_white_space_rule(NonTerminal* /* m */) -> unique_ptr<ParserAST
     );
 }
 
+static auto get_delimiter(RegexASTByte const* regex_ast) -> uint32_t {
+    auto const* literal_ast = dynamic_cast<RegexASTLiteralByte const*>(regex_ast);
+    if (nullptr == literal_ast) {
+        throw std::runtime_error("Delimiters in a schema must be single characters.");
+    }
+    return literal_ast->get_character();
+}
+
 static auto existing_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     auto& r2 = m->non_terminal_cast(1)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r1_ptr = dynamic_cast<DelimiterStringAST*>(r1.get());
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r2.get())->get_character();
+    uint32_t character = get_delimiter(r2.get());
     r1_ptr->add_delimiter(character);
     return std::move(r1);
 }
 
 static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r1.get())->get_character();
+    uint32_t character = get_delimiter(r1.get());
     return make_unique<DelimiterStringAST>(character);
 }
 
-- 
2.43.0


From 55c38eb540e1fa12b0a4ad463e7a1c248ae8eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 14/45] fix: throw when adding no variable or at an invalid
 priority to a schema

---
 src/log_surgeon/Schema.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_surgeon/Schema.cpp b/src/log_surgeon/Schema.cpp
index e2008b1..7c00cc5 100644
--- a/src/log_surgeon/Schema.cpp
+++ b/src/log_surgeon/Schema.cpp
@@ -1,6 +1,9 @@
 #include "Schema.hpp"
 
+#include <cstdint>
+#include <stdexcept>
 #include <string>
+#include <string_view>
 
 namespace log_surgeon {
 Schema::Schema() {
@@ -12,6 +15,12 @@ Schema::Schema(std::string const& schema_file_path)
 
 auto Schema::add_variable(std::string_view const var_schema, int const priority) const -> void {
     std::unique_ptr<SchemaAST> const schema_ast = SchemaParser::try_schema_string(var_schema);
+    if (schema_ast->m_schema_vars.empty()) {
+        throw std::invalid_argument("The schema text to add contains no variable.");
+    }
+    if (priority < -1 || priority > static_cast<int64_t>(m_schema_ast->m_schema_vars.size())) {
+        throw std::out_of_range("The priority to add a variable with is out of range.");
+    }
     m_schema_ast->add_schema_var(std::move(schema_ast->m_schema_vars[0]), priority);
 }
 }  // namespace log_surgeon
-- 
2.43.0


From a27c348bdda96606804dcd2b2059f5b8ba80663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 15/45] fix: don't treat a short read as the end of the input

---
 src/log_surgeon/ParserInputBuffer.cpp | 35 ++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 15fde34..72408e6 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -39,21 +39,34 @@ auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
     if (m_last_read_first_half) {
         read_offset = m_storage.size() / 2;
     }
-    if (ErrorCode err = m_storage.read(reader, read_offset, m_storage.size() / 2, bytes_read);
-        ErrorCode::Success != err)
-    {
-        if (ErrorCode::EndOfFile == err) {
+    uint32_t const bytes_to_read{m_storage.size() / 2};
+    // A reader may return fewer bytes than requested before the input ends, so read until the half
+    // is full or the reader has nothing left.
+    while (bytes_read < bytes_to_read) {
+        size_t curr_bytes_read{0};
+        if (ErrorCode err = m_storage.read(
+                    reader,
+                    read_offset + bytes_read,
+                    bytes_to_read - bytes_read,
+                    curr_bytes_read
+            );
+            ErrorCode::Success != err)
+        {
+            if (ErrorCode::EndOfFile != err) {
+                return err;
+            }
+            curr_bytes_read = 0;
+        }
+        if (0 == curr_bytes_read) {
             m_finished_reading_input = true;
+            break;
         }
-        return err;
+        bytes_read += curr_bytes_read;
     }
-    m_last_read_first_half = !m_last_read_first_half;
-    // TODO: This is not a portable check for certain forms of IO
-    // A method from Reader should be used to check if the input source is
-    // finished
-    if (bytes_read < m_storage.size() / 2) {
-        m_finished_reading_input = true;
+    if (0 == bytes_read) {
+        return ErrorCode::EndOfFile;
     }
+    m_last_read_first_half = !m_last_read_first_half;
     m_pos_last_read_char += bytes_read;
     if (m_pos_last_read_char > m_storage.size()) {
         m_pos_last_read_char -= m_storage.size();
-- 
2.43.0


From f89a7cde58e3c389e94ce2123f81c27c2229be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 16/45] fix: keep the input buffer readable when data is
 consumed up to its end

---
 src/log_surgeon/LogParser.cpp         | 6 +++++-
 src/log_surgeon/ParserInputBuffer.cpp | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b98e712..95d4169 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -245,7 +245,11 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-            m_input_buffer.set_consumed_pos(output_buffer->get_curr_token().m_end_pos);
+            uint32_t const end_pos = output_buffer->get_curr_token().m_end_pos;
+            // An end position of 0 means the token ends with the last character of the buffer
+            m_input_buffer.set_consumed_pos(
+                    0 == end_pos ? m_input_buffer.storage().size() - 1 : end_pos - 1
+            );
             output_buffer->advance_to_next_token();
             parsing_action = ParsingAction::Compress;
             return ErrorCode::Success;
diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 72408e6..2c86d8b 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -92,6 +92,9 @@ auto ParserInputBuffer::increase_capacity(uint32_t& old_storage_size, bool& flip
         flipped_static_buffer = true;
     }
     m_last_read_first_half = true;
+    // All the unconsumed data is in the first half, so the second half can be read into. Without
+    // this, a stale consumed position of 0 would prevent any further reads.
+    m_consumed_pos = old_storage_size - 1;
     m_pos_last_read_char = new_storage_size - old_storage_size;
     m_storage.set_pos(old_storage_size);
 }
-- 
2.43.0


From 893d53efa289582d03321b5b11dadd9fbdade9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 17/45] fix: map lexer positions at a buffer's end correctly
 when the buffer grows

---
 src/log_surgeon/Lexer.hpp |  7 ++++---
 src/log_surgeon/Lexer.tpp | 40 ++++++++++++++++-----------------------
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index ddb12cf..4d3102a 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -74,11 +74,12 @@ public:
     auto prepend_start_of_file_char(ParserInputBuffer& input_buffer) -> void;
 
     /**
-     * Flip lexer states to match static buffer flipping.
+     * Updates the tracked positions to match the buffer growing.
      * @param old_storage_size The previous buffer size used to calculate the
-     * new states inside the flipped buffer.
+     * new positions.
+     * @param flipped Whether growing the buffer reordered its two halves.
      */
-    auto flip_states(uint32_t old_storage_size) -> void;
+    auto update_positions(uint32_t old_storage_size, bool flipped) -> void;
 
     /**
      * Gets next token from the input string
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8a8aeb3..0d942ff 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -18,23 +18,21 @@
  */
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
-void Lexer<NFAStateType, DFAStateType>::flip_states(uint32_t old_storage_size) {
-    if (m_match_pos >= old_storage_size / 2) {
-        m_match_pos -= old_storage_size / 2;
-    } else {
-        m_match_pos += old_storage_size / 2;
-    }
-    // TODO when m_start_pos == old_storage_size / 2, theres two possible cases
-    // currently so both options are potentially wrong
-    if (m_start_pos > old_storage_size / 2) {
-        m_start_pos -= old_storage_size / 2;
-    } else {
-        m_start_pos += old_storage_size / 2;
-    }
-    if (m_last_match_pos >= old_storage_size / 2) {
-        m_last_match_pos -= old_storage_size / 2;
-    } else {
-        m_last_match_pos += old_storage_size / 2;
+void Lexer<NFAStateType, DFAStateType>::update_positions(uint32_t old_storage_size, bool flipped) {
+    uint32_t const half_old_storage_size{old_storage_size / 2};
+    // The position following the last character in the old buffer. No tracked character can be at
+    // this position, since that character would already be consumed.
+    uint32_t const old_end_pos{flipped ? half_old_storage_size : 0};
+    for (uint32_t* pos : {&m_match_pos, &m_start_pos, &m_last_match_pos}) {
+        if (old_end_pos == *pos) {
+            *pos = old_storage_size;
+        } else if (flipped) {
+            if (*pos > half_old_storage_size) {
+                *pos -= half_old_storage_size;
+            } else {
+                *pos += half_old_storage_size;
+            }
+        }
     }
 }
 
@@ -306,13 +304,7 @@ auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuff
     bool flipped_static_buffer{false};
     input_buffer.increase_capacity(old_storage_size, flipped_static_buffer);
     if (old_storage_size < input_buffer.storage().size()) {
-        if (flipped_static_buffer) {
-            flip_states(old_storage_size);
-        }
-        if (0 == m_last_match_pos) {
-            m_last_match_pos = old_storage_size;
-            m_start_pos = old_storage_size;
-        }
+        update_positions(old_storage_size, flipped_static_buffer);
     }
 }
 
-- 
2.43.0


From 452e0b8d680ca7aa730e6ab32f7eb903c8bc9426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 18/45] fix: keep skipping static text when more data is needed
 midway

---
 src/log_surgeon/Lexer.hpp |  2 ++
 src/log_surgeon/Lexer.tpp | 33 +++++++++++++++++----------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index 4d3102a..00e661f 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -159,6 +159,8 @@ private:
     bool m_has_delimiters{false};
     std::unique_ptr<finite_automata::RegexDFA<DFAStateType>> m_dfa;
     bool m_asked_for_more_data{false};
+    // Whether the characters being read can't be part of any token matching a rule
+    bool m_skipping{false};
     DFAStateType const* m_prev_state{nullptr};
 };
 
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 0d942ff..bc287b2 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -70,6 +70,19 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_prev_state = state;
             return err;
         }
+        if (m_skipping) {
+            // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
+            // check not needed
+            if (input_buffer.log_fully_consumed()
+                || (m_is_first_char[next_char] && m_is_delimiter[next_char]))
+            {
+                m_skipping = false;
+                input_buffer.set_pos(prev_byte_buf_pos);
+                m_start_pos = prev_byte_buf_pos;
+                state = m_dfa->get_root();
+            }
+            continue;
+        }
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
             && state->is_accepting())
         {
@@ -140,23 +153,10 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                                 &cTokenEndTypes};
                 return ErrorCode::Success;
             }
-            // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
-            // check not needed
-            while (input_buffer.log_fully_consumed() == false
-                   && (m_is_first_char[next_char] == false || m_is_delimiter[next_char] == false))
-            {
-                prev_byte_buf_pos = input_buffer.storage().pos();
-                if (ErrorCode err = input_buffer.get_next_character(next_char);
-                    ErrorCode::Success != err)
-                {
-                    m_asked_for_more_data = true;
-                    m_prev_state = state;
-                    return err;
-                }
-            }
+            // Skip, from the current character on, to the next character a token can start with.
+            // The skip may span several calls if more data is needed.
+            m_skipping = true;
             input_buffer.set_pos(prev_byte_buf_pos);
-            m_start_pos = prev_byte_buf_pos;
-            state = m_dfa->get_root();
             continue;
         }
         state = next;
@@ -319,6 +319,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_last_match_line = 0;
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
+    m_skipping = false;
     m_prev_state = nullptr;
 }
 
-- 
2.43.0


From b49679fec49ee0e2b99b37b18999be44c225dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 19/45] fix: handle matches that fail at the start of the input

---
 src/log_surgeon/Lexer.hpp |  2 ++
 src/log_surgeon/Lexer.tpp | 22 ++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index 00e661f..9d42522 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -161,6 +161,8 @@ private:
     bool m_asked_for_more_data{false};
     // Whether the characters being read can't be part of any token matching a rule
     bool m_skipping{false};
+    // Whether the characters being read may be part of a token at the start of the file
+    bool m_scanning_from_start_of_file{false};
     DFAStateType const* m_prev_state{nullptr};
 };
 
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index bc287b2..4293326 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -74,7 +74,8 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
             // check not needed
             if (input_buffer.log_fully_consumed()
-                || (m_is_first_char[next_char] && m_is_delimiter[next_char]))
+                || (m_is_first_char[next_char]
+                    && (m_is_delimiter[next_char] || (m_has_delimiters && '\n' == next_char))))
             {
                 m_skipping = false;
                 input_buffer.set_pos(prev_byte_buf_pos);
@@ -94,7 +95,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         DFAStateType* next = state->next(next_char);
         if (next_char == '\n') {
             m_line++;
-            if (m_has_delimiters && !m_match) {
+            if (m_has_delimiters && !m_match && !m_scanning_from_start_of_file) {
                 next = m_dfa->get_root()->next(next_char);
                 m_match = true;
                 m_type_ids = &(next->get_matching_variable_ids());
@@ -105,6 +106,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         }
         if (input_buffer.log_fully_consumed() || next == nullptr) {
             if (m_match) {
+                m_scanning_from_start_of_file = false;
                 input_buffer.set_log_fully_consumed(false);
                 input_buffer.set_pos(m_match_pos);
                 m_line = m_match_line;
@@ -153,6 +155,14 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                                 &cTokenEndTypes};
                 return ErrorCode::Success;
             }
+            if (m_scanning_from_start_of_file) {
+                // What failed may have been a timestamp, which unlike variables can contain
+                // delimiters, so look for the tokens that start inside the failed match.
+                m_scanning_from_start_of_file = false;
+                input_buffer.set_log_fully_consumed(false);
+                m_line = m_match_line;
+                prev_byte_buf_pos = m_start_pos;
+            }
             // Skip, from the current character on, to the next character a token can start with.
             // The skip may span several calls if more data is needed.
             m_skipping = true;
@@ -320,6 +330,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
     m_skipping = false;
+    m_scanning_from_start_of_file = false;
     m_prev_state = nullptr;
 }
 
@@ -327,6 +338,13 @@ template <typename NFAStateType, typename DFAStateType>
 void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBuffer& input_buffer
 ) {
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
+    m_scanning_from_start_of_file = true;
+    if (nullptr == m_prev_state) {
+        // No rule can match at the start of the file
+        m_prev_state = m_dfa->get_root();
+        m_skipping = true;
+        m_scanning_from_start_of_file = false;
+    }
     m_asked_for_more_data = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
-- 
2.43.0


From 0e0ec507588d4bb55ea073f49304690178cf6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 20/45] fix: accept negated bracket expressions in variables

---
 src/log_surgeon/LogParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 95d4169..1c9d6f6 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -98,6 +98,10 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
         bool contains_delimiter = false;
         uint32_t delimiter_name = 0;
         for (uint32_t delimiter : delimiters) {
+            // The lexer adds the start of file character to the delimiters, it's not in the schema
+            if (utf8::cCharStartOfFile == delimiter) {
+                continue;
+            }
             if (is_possible_input[delimiter]) {
                 contains_delimiter = true;
                 delimiter_name = delimiter;
-- 
2.43.0


From 996662c0086b296ca3275bb183d80faa9f1772b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 21/45] fix: forget the pending start of an event when a log
 parser is reset

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 1c9d6f6..1fdb873 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -160,6 +160,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 }
 
 auto LogParser::reset() -> void {
+    m_has_start_of_log = false;
     m_input_buffer.reset();
     m_lexer.reset();
     m_lexer.prepend_start_of_file_char(m_input_buffer);
-- 
2.43.0


From 282ba1aea8134d1e23568280b1c4fb866581d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 22/45] fix: have new log parsers start in the same state as
 reset ones

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 1fdb873..3950414 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -34,6 +34,7 @@ LogParser::LogParser(std::unique_ptr<SchemaAST> schema_ast) {
     add_rules(std::move(schema_ast));
     m_lexer.generate();
     m_log_event_view = make_unique<LogEventView>(*this);
+    reset();
 }
 
 auto LogParser::add_delimiters(unique_ptr<ParserAST> const& delimiters) -> void {
-- 
2.43.0


From 1025e0b6b8172c8b7fab9bba7b9c18b0080146eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 23/45] fix: start lexing at the given offset of a caller's
 buffer after a reset

---
 src/log_surgeon/Lexer.tpp     | 1 +
 src/log_surgeon/LogParser.cpp | 2 ++
 src/log_surgeon/LogParser.hpp | 6 ++++++
 3 files changed, 9 insertions(+)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 4293326..fc6f0e3 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -346,6 +346,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
         m_scanning_from_start_of_file = false;
     }
     m_asked_for_more_data = true;
+    m_last_match_pos = input_buffer.storage().pos();
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 3950414..4084ebb 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -161,6 +161,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 }
 
 auto LogParser::reset() -> void {
+    m_has_started_lexing = false;
     m_has_start_of_log = false;
     m_input_buffer.reset();
     m_lexer.reset();
@@ -297,6 +298,7 @@ auto LogParser::get_symbol_id(std::string const& symbol) const -> std::optional<
 }
 
 auto LogParser::get_next_symbol(Token& token) -> ErrorCode {
+    m_has_started_lexing = true;
     return m_lexer.scan(m_input_buffer, token);
 }
 
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 9133914..ca1c73b 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -86,6 +86,10 @@ public:
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
             -> void {
         m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
+        if (false == m_has_started_lexing) {
+            // The input starts at the given position
+            m_lexer.prepend_start_of_file_char(m_input_buffer);
+        }
     }
 
     /**
@@ -162,6 +166,8 @@ private:
 
     // TODO: move ownership of the buffer to the lexer
     ParserInputBuffer m_input_buffer;
+    // Whether any of the input has been lexed since the last reset
+    bool m_has_started_lexing{false};
     bool m_has_start_of_log{false};
     Token m_start_of_log_message{};
     std::unique_ptr<LogEventView> m_log_event_view{nullptr};
-- 
2.43.0


From 761b09dbf866e3b9299b721c2d1bbfcf3588ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 24/45] fix: resume at the first token of an event without a
 timestamp when a buffer ends

---
 src/log_surgeon/BufferParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 292029e..0dbbdfa 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -32,10 +32,10 @@ auto BufferParser::parse_next_event(
     LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
     ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
-        if (0 != m_log_parser.get_log_event_view().m_log_output_buffer->pos()) {
-            offset = m_log_parser.get_log_event_view()
-                             .m_log_output_buffer->get_token(0)
-                             .m_start_pos;
+        auto const& output_buffer = m_log_parser.get_log_event_view().m_log_output_buffer;
+        if (0 != output_buffer->pos()) {
+            // Without a timestamp, the log event's tokens start at index 1
+            offset = output_buffer->get_token(output_buffer->has_timestamp() ? 0 : 1).m_start_pos;
         }
         reset();
         return error_code;
-- 
2.43.0


From b434fca4822f94b36e2a236119aba5ab75ee1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 25/45] fix: keep the first token of events without a timestamp
 in deep copies

---
 src/log_surgeon/LogEvent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 709e62c..c3c9b6f 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -83,6 +83,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         throw std::runtime_error("token buffer_size <= 0");
     }
     m_buffer.resize(buffer_size);
+    m_log_output_buffer->set_pos(start);
     uint32_t curr_pos = 0;
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token& token = src.get_log_output_buffer()->get_mutable_token(i);
@@ -102,7 +103,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         m_log_output_buffer->set_curr_token(copied_token);
         m_log_output_buffer->advance_to_next_token();
     }
-    for (uint32_t i = 0; i < get_log_output_buffer()->pos(); i++) {
+    for (uint32_t i = start; i < get_log_output_buffer()->pos(); i++) {
         Token& token = get_log_output_buffer()->get_mutable_token(i);
         auto const& token_types = *token.m_type_ids_ptr;
         add_token(token_types[0], &token);
-- 
2.43.0


From 0872f56bf2da7e1d65891a3337b227df6dd4bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 26/45] fix: don't take a variable's first character for a
 delimiter in log types

---
 src/log_surgeon/LogEvent.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index c3c9b6f..8e5bdaf 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -55,7 +55,11 @@ auto LogEventView::get_logtype() const -> std::string {
         if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenUncaughtString) {
             logtype += token.to_string_view();
         } else {
-            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)) {
+            // A variable at the start of an event has no delimiter
+            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)
+                && 0 < token.get_length()
+                && m_log_parser.m_lexer.is_delimiter(static_cast<uint8_t>(token.get_char(0))))
+            {
                 logtype += token.get_delimiter();
             }
             logtype += "<";
-- 
2.43.0


From 391cfc93f401f013b68793e74ab3bc3a29703a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 27/45] fix: count text in the token starting with the newline
 when detecting multi-line events

---
 src/log_surgeon/LogParser.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 4084ebb..1989ee7 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -311,14 +311,16 @@ auto LogParser::generate_log_event_view_metadata() -> void {
     for (uint32_t i = start; i < m_log_event_view->m_log_output_buffer->pos(); i++) {
         Token* token = &m_log_event_view->m_log_output_buffer->get_mutable_token(i);
         m_log_event_view->add_token(token->m_type_ids_ptr->at(0), token);
-        if (token->get_delimiter() == "\n" && first_newline_pos == 0) {
+        if (0 < token->get_length() && token->get_char(0) == '\n' && first_newline_pos == 0) {
             first_newline_pos = i;
         }
     }
-    // To be a multiline log there must be at least one token between the
-    // newline token and the last token in the output buffer.
-    if (m_log_event_view->m_log_output_buffer->has_timestamp() && 0 < first_newline_pos
-        && first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos())
+    // To be a multiline log there must be text after the newline, either in the token starting with
+    // the newline or in the tokens following it.
+    auto const& output_buffer = m_log_event_view->m_log_output_buffer;
+    if (output_buffer->has_timestamp() && 0 < first_newline_pos
+        && (first_newline_pos + 1 < output_buffer->pos()
+            || 1 < output_buffer->get_token(first_newline_pos).get_length()))
     {
         m_log_event_view->set_multiline(true);
     }
-- 
2.43.0


From b4ab3e531e4b59c3acf02fbaff603778efd38317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 28/45] fix: grow the schema parser's input buffer for long
 tokens instead of failing or overwriting tokens still in use

---
 src/log_surgeon/LALR1Parser.hpp |  2 ++
 src/log_surgeon/LALR1Parser.tpp | 29 ++++++++++++++++-------------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index f13bf33..d69c179 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -288,6 +288,8 @@ protected:
     std::unordered_map<uint32_t, std::vector<Production*>> m_non_terminals;
     uint32_t m_root_production_id{0};
     ParserInputBuffer m_input_buffer;
+    // The reader of the input being parsed
+    Reader* m_reader{nullptr};
 
 private:
     /**
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index b152f56..382431b 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -630,10 +630,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
 template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTerminal {
     reset();
+    m_reader = &reader;
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
+    m_input_buffer.read_if_safe(reader);
     while (true) {
-        m_input_buffer.read_if_safe(reader);
         Token next_terminal = get_next_symbol();
         if (parse_advance(next_terminal, &accept)) {
             break;
@@ -667,12 +668,21 @@ template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::get_next_symbol() -> Token {
     if (m_next_token == std::nullopt) {
         Token token;
-        if (ErrorCode error = this->m_lexer.scan(m_input_buffer, token);
-            ErrorCode::Success != error)
-        {
-            throw std::runtime_error("Error scanning in lexer.");
+        while (true) {
+            ErrorCode error = this->m_lexer.scan(m_input_buffer, token);
+            if (ErrorCode::Success == error) {
+                return token;
+            }
+            if (ErrorCode::BufferOutOfBounds == error) {
+                // Tokens reference the buffer until parsing ends, so grow it instead of overwriting
+                // any of it.
+                this->m_lexer.increase_buffer_capacity(m_input_buffer);
+                error = m_input_buffer.read_if_safe(*m_reader);
+            }
+            if (ErrorCode::Success != error && ErrorCode::EndOfFile != error) {
+                throw std::runtime_error("Error scanning in lexer.");
+            }
         }
-        return token;
     }
     Token s = m_next_token.value();
     m_next_token = std::nullopt;
@@ -731,13 +741,6 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse_symbol(
                             m_parse_stack_matches.pop();
                         }
                         if (reduce->m_semantic_rule != nullptr) {
-                            if (0 == m_next_token->m_start_pos) {
-                                m_input_buffer.set_consumed_pos(
-                                        m_input_buffer.storage().size() - 1
-                                );
-                            } else {
-                                m_input_buffer.set_consumed_pos(m_next_token->m_start_pos - 1);
-                            }
                             matched_non_terminal.m_ast
                                     = reduce->m_semantic_rule(&matched_non_terminal);
                         }
-- 
2.43.0


From 1be4c77a53856118337c243d7dcab341374d53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 29/45] fix: report the line that an unexpected newline ends in
 schema errors

---
 src/log_surgeon/LALR1Parser.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 382431b..b486b7e 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -584,6 +584,10 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
     m_parse_stack_matches.pop();
     uint32_t line_num = get_line_num(top_symbol);
     Token token = std::get<Token>(top_symbol);
+    if ("\n" == token.to_string()) {
+        // The lexer counts a newline as being on the line that it starts
+        line_num--;
+    }
     std::string consumed_input = get_input_after_last_newline(m_parse_stack_matches);
     std::string error_type{};
     std::string error_indicator;
-- 
2.43.0


From 2651c612b58c598199a23f9969c3dfeac794f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 30/45] fix: don't read the character after the end of the
 input

---
 src/log_surgeon/LogParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 1989ee7..03d72c0 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -240,15 +240,15 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         }
         output_buffer->set_curr_token(next_token);
         auto token_type = next_token.m_type_ids_ptr->at(0);
+        if (token_type == (uint32_t)SymbolId::TokenEnd) {
+            parsing_action = ParsingAction::CompressAndFinish;
+            return ErrorCode::Success;
+        }
         bool found_start_of_next_message
                 = (output_buffer->has_timestamp()
                    && token_type == (uint32_t)SymbolId::TokenNewlineTimestamp)
                   || (!output_buffer->has_timestamp() && next_token.get_char(0) == '\n'
                       && token_type != (uint32_t)SymbolId::TokenNewline);
-        if (token_type == (uint32_t)SymbolId::TokenEnd) {
-            parsing_action = ParsingAction::CompressAndFinish;
-            return ErrorCode::Success;
-        }
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-- 
2.43.0


From 1ef304811f83b64dd6ec20d49db186ca192872c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 31/45] fix: end an event without a timestamp at a newline it
 starts with

---
 src/log_surgeon/LogParser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 03d72c0..9a98195 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -187,9 +187,15 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             if (ErrorCode err = get_next_symbol(next_token); ErrorCode::Success != err) {
                 return err;
             }
-            if (false == output_buffer->has_timestamp()
-                && next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewlineTimestamp)
-            {
+            if (next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewline) {
+                // an empty line is a message with just the '\n' character
+                output_buffer->set_token(1, next_token);
+                output_buffer->set_pos(2);
+                m_input_buffer.set_consumed_pos(next_token.m_start_pos);
+                parsing_action = ParsingAction::Compress;
+                return ErrorCode::Success;
+            }
+            if (0 < next_token.get_length() && '\n' == next_token.get_char(0)) {
                 // TODO: combine the below with found_start_of_next_message
                 // into 1 function
                 // Increment by 1 because the '\n' character is not part of the
-- 
2.43.0


From 2192000ccff2e5214f59c07d2bcc0743eecb394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 32/45] fix: don't return empty variables at the start of the
 input

---
 src/log_surgeon/Lexer.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index fc6f0e3..9aa9263 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -84,8 +84,9 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             }
             continue;
         }
+        // At the start of the input a match may have no characters, which isn't a token
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
-            && state->is_accepting())
+            && state->is_accepting() && m_start_pos != prev_byte_buf_pos)
         {
             m_match = true;
             m_type_ids = &(state->get_matching_variable_ids());
-- 
2.43.0


From 3c7b5e679f4d4e9bab382b8218aad412cfe09ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 33/45] fix: don't cut off the message for a schema that ends
 too early

---
 src/log_surgeon/LALR1Parser.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index b486b7e..7f277dc 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -619,7 +619,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
             }
         }
         error_type.pop_back();
-        error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenEnd) {
+            error_type += " before the end of the input";
+        } else {
+            error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        }
     }
     std::string error_string = "Schema:" + std::to_string(line_num + 1) + ":"
                                + std::to_string(consumed_input.size() + 1)
-- 
2.43.0


From 44e3ecd7a4e4afd9ca54ebe3cc722b7581337253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 34/45] fix: add_token and add_token_chain treat characters
 above 0x7f as negative

---
 src/log_surgeon/LALR1Parser.tpp | 10 +++++++---
 src/log_surgeon/Parser.tpp      |  7 ++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 7f277dc..da20e51 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -89,16 +89,20 @@ void LALR1Parser<NFAStateType, DFAStateType>::add_token_chain(
 ) {
     assert(chain.size() > 1);
     std::unique_ptr<finite_automata::RegexASTLiteral<NFAStateType>> first_char_rule
-            = std::make_unique<finite_automata::RegexASTLiteral<NFAStateType>>(chain[0]);
+            = std::make_unique<finite_automata::RegexASTLiteral<NFAStateType>>(
+                    static_cast<unsigned char>(chain[0])
+            );
     std::unique_ptr<finite_automata::RegexASTLiteral<NFAStateType>> second_char_rule
-            = std::make_unique<finite_automata::RegexASTLiteral<NFAStateType>>(chain[1]);
+            = std::make_unique<finite_automata::RegexASTLiteral<NFAStateType>>(
+                    static_cast<unsigned char>(chain[1])
+            );
     std::unique_ptr<finite_automata::RegexASTCat<NFAStateType>> rule_chain
             = std::make_unique<finite_automata::RegexASTCat<NFAStateType>>(
                     std::move(first_char_rule),
                     std::move(second_char_rule)
             );
     for (uint32_t i = 2; i < chain.size(); i++) {
-        char next_char = chain[i];
+        auto const next_char = static_cast<unsigned char>(chain[i]);
         std::unique_ptr<finite_automata::RegexASTLiteral<NFAStateType>> next_char_rule
                 = std::make_unique<finite_automata::RegexASTLiteral<NFAStateType>>(next_char);
         rule_chain = std::make_unique<finite_automata::RegexASTCat<NFAStateType>>(
diff --git a/src/log_surgeon/Parser.tpp b/src/log_surgeon/Parser.tpp
index be307af..5dcb544 100644
--- a/src/log_surgeon/Parser.tpp
+++ b/src/log_surgeon/Parser.tpp
@@ -43,7 +43,12 @@ void Parser<NFAStateType, DFAStateType>::add_rule(
 
 template <typename NFAStateType, typename DFAStateType>
 void Parser<NFAStateType, DFAStateType>::add_token(std::string const& name, char rule_char) {
-    add_rule(name, std::make_unique<finite_automata::RegexASTLiteral<NFAStateType>>(rule_char));
+    add_rule(
+            name,
+            std::make_unique<finite_automata::RegexASTLiteral<NFAStateType>>(
+                    static_cast<unsigned char>(rule_char)
+            )
+    );
 }
 }  // namespace log_surgeon
 
-- 
2.43.0


From 8ecd8e52c4ca54a794e6b4dad34ef4e35e6b88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 35/45] fix: LALR1Parser rejects LALR(1) grammars as it merges
 the lookaheads of all states

---
 src/log_surgeon/LALR1Parser.hpp |  2 --
 src/log_surgeon/LALR1Parser.tpp | 44 ++++++++++++++++-----------------
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index d69c179..fd7911f 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -404,8 +404,6 @@ private:
     std::map<std::set<Item>, std::unique_ptr<ItemSet>> m_lr0_item_sets;
     std::map<std::set<Item>, std::unique_ptr<ItemSet>> m_lr1_item_sets;
     std::unordered_map<uint32_t, std::set<uint32_t>> m_firsts;
-    std::unordered_map<Production*, std::set<uint32_t>> m_spontaneous_map;
-    std::map<Item, std::set<Item>> m_propagate_map;
     std::unordered_map<uint32_t, std::map<uint32_t, uint32_t>> m_go_to_table;
 };
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index da20e51..d203898 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -304,43 +304,41 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_first_sets() {
 
 template <typename NFAStateType, typename DFAStateType>
 void LALR1Parser<NFAStateType, DFAStateType>::generate_lr1_item_sets() {
+    // The same item may have different lookaheads in different item sets
+    using ItemInSet = std::pair<ItemSet const*, Item>;
+    std::map<ItemInSet, std::set<uint32_t>> lookaheads;
+    std::map<ItemInSet, std::set<ItemInSet>> propagate_map;
     for (std::map<std::set<Item>, std::unique_ptr<ItemSet>>::value_type const& kv : m_lr0_item_sets)
     {
-        for (Item const& l0_item : kv.second->m_kernel) {
+        ItemSet* item_set_ptr = kv.second.get();
+        for (Item const& l0_item : item_set_ptr->m_kernel) {
+            if (l0_item.m_production == m_productions[m_root_production_id].get()) {
+                lookaheads[{item_set_ptr, l0_item}].insert((uint32_t)SymbolId::TokenEnd);
+            }
             ItemSet temp_item_set;
             temp_item_set.m_kernel.insert(l0_item);
             generate_lr1_closure(&temp_item_set);
             for (Item const& l1_item : temp_item_set.m_closure) {
+                if (l1_item.has_dot_at_end()) {
+                    continue;
+                }
+                ItemInSet const item_to{
+                        item_set_ptr->m_next.at(l1_item.next_symbol()),
+                        Item(l1_item.m_production, l1_item.m_dot + 1, cNullSymbol)
+                };
                 if (l1_item.m_lookahead != cNullSymbol) {
-                    m_spontaneous_map[l1_item.m_production].insert(l1_item.m_lookahead);
+                    lookaheads[item_to].insert(l1_item.m_lookahead);
                 } else {
-                    if (l1_item.m_dot < l1_item.m_production->m_body.size()) {
-                        Item temp_item(l1_item.m_production, l1_item.m_dot + 1, cNullSymbol);
-                        m_propagate_map[l0_item].insert(temp_item);
-                    }
+                    propagate_map[{item_set_ptr, l0_item}].insert(item_to);
                 }
             }
         }
     }
-    std::map<Item, std::set<int>> lookaheads;
-    for (std::map<std::set<Item>, std::unique_ptr<ItemSet>>::value_type const& kv : m_lr0_item_sets)
-    {
-        for (Item const& l0_item : kv.second->m_kernel) {
-            lookaheads[l0_item].insert(
-                    m_spontaneous_map[l0_item.m_production].begin(),
-                    m_spontaneous_map[l0_item.m_production].end()
-            );
-            if (l0_item.m_production == m_productions[m_root_production_id].get()) {
-                lookaheads[l0_item].insert((uint32_t)SymbolId::TokenEnd);
-            }
-        }
-    }
     bool changed = true;
     while (changed) {
         changed = false;
-        for (std::map<Item, std::set<Item>>::value_type& kv : m_propagate_map) {
-            Item item_from = kv.first;
-            for (Item const& item_to : kv.second) {
+        for (auto const& [item_from, items_to] : propagate_map) {
+            for (ItemInSet const& item_to : items_to) {
                 size_t size_before = lookaheads[item_to].size();
                 lookaheads[item_to].insert(
                         lookaheads[item_from].begin(),
@@ -355,7 +353,7 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lr1_item_sets() {
     {
         std::unique_ptr<ItemSet> lr1_item_set_ptr = std::make_unique<ItemSet>();
         for (Item const& l0_item : kv.second->m_kernel) {
-            for (int const& lookahead : lookaheads[l0_item]) {
+            for (uint32_t const& lookahead : lookaheads[{kv.second.get(), l0_item}]) {
                 Item lr1_item(l0_item.m_production, l0_item.m_dot, lookahead);
                 lr1_item_set_ptr->m_kernel.insert(lr1_item);
             }
-- 
2.43.0


From 2603cafe1a95202276f356c11036d59721782016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 36/45] fix: LALR1Parser misses conflicts between accepting and
 reducing

---
 src/log_surgeon/LALR1Parser.tpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index d203898..089dca4 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -481,11 +481,18 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
             }
             if (item.has_dot_at_end()) {
                 if (item.m_production == m_productions[m_root_production_id].get()) {
-                    Action action = true;
-                    item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd] = action;
+                    Action& action = item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd];
+                    if (std::holds_alternative<Production*>(action)) {
+                        throw std::runtime_error(
+                                "Accepting the input causes accept-reduce conflict with reduction "
+                                + this->m_lexer.m_id_symbol[std::get<Production*>(action)->m_head]
+                                + "\n"
+                        );
+                    }
+                    action = true;
                 } else {
                     Action& action = item_set_ptr->m_actions[item.m_lookahead];
-                    if (!std::holds_alternative<bool>(action)) {
+                    if (!std::holds_alternative<bool>(action) || std::get<bool>(action)) {
                         std::string conflict_msg{};
                         conflict_msg += "For symbol ";
                         conflict_msg += this->m_lexer.m_id_symbol[item.m_lookahead];
@@ -500,6 +507,8 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
                             conflict_msg += "shift-reduce conflict with shift to ";
                             conflict_msg += std::to_string(std::get<ItemSet*>(action)->m_index);
                             conflict_msg += "\n";
+                        } else if (std::holds_alternative<bool>(action)) {
+                            conflict_msg += "accept-reduce conflict\n";
                         } else {
                             conflict_msg += "reduce-reduce conflict with reduction ";
                             conflict_msg
-- 
2.43.0


From 163e9e7040548e249c49a79d7687ca3da586bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 37/45] fix: UnicodeIntervalTree balances by differences of
 pointers instead of heights

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index e5b2413..f9299fc 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -148,11 +148,11 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
         m_lower = m_interval.first;
         m_upper = m_interval.second;
     } else if (m_left == nullptr) {
-        m_height = 2;
+        m_height = m_right->m_height + 1;
         m_lower = m_interval.first;
         m_upper = std::max(m_interval.second, m_right->m_upper);
     } else if (m_right == nullptr) {
-        m_height = 2;
+        m_height = m_left->m_height + 1;
         m_lower = m_left->m_lower;
         m_upper = std::max(m_interval.second, m_left->m_upper);
     } else {
@@ -164,7 +164,9 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
 
 template <class T>
 auto UnicodeIntervalTree<T>::Node::balance_factor() -> int {
-    return (m_right != nullptr ? m_right.get() : 0) - (m_left != nullptr ? m_left.get() : 0);
+    int const right_height = m_right != nullptr ? static_cast<int>(m_right->m_height) : 0;
+    int const left_height = m_left != nullptr ? static_cast<int>(m_left->m_height) : 0;
+    return right_height - left_height;
 }
 
 template <class T>
-- 
2.43.0


From aa5463d474f7972951a37dc51d64e955f30d0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 38/45] fix: finding an interval in an empty
 UnicodeIntervalTree dereferences null

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index f9299fc..24df438 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -55,7 +55,9 @@ template <typename T>
 auto UnicodeIntervalTree<T>::find(Interval interval
 ) -> std::unique_ptr<std::vector<typename UnicodeIntervalTree<T>::Data>> {
     std::unique_ptr<std::vector<Data>> results(new std::vector<Data>);
-    m_root->find(interval, results.get());
+    if (m_root != nullptr) {
+        m_root->find(interval, results.get());
+    }
     return results;
 }
 
-- 
2.43.0


From c21e41d9715df53e4dd7293bd6401709414fc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 39/45] fix: UnicodeIntervalTree::pop only works if the
 interval overlaps with a left subtree or the root

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 24df438..ffb5c23 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -109,7 +109,11 @@ auto UnicodeIntervalTree<T>::Node::pop(
         node->update();
         return Node::balance(std::move(node));
     }
-    assert(node->overlaps(interval));
+    if (!node->overlaps(interval)) {
+        node->m_right = Node::pop(std::move(node->m_right), interval, ret);
+        node->update();
+        return Node::balance(std::move(node));
+    }
     ret->reset(node.release());
     if (((*ret)->m_left == nullptr) && ((*ret)->m_right == nullptr)) {
         return nullptr;
@@ -133,7 +137,6 @@ auto UnicodeIntervalTree<T>::Node::pop_min(std::unique_ptr<Node> node, std::uniq
         -> std::unique_ptr<typename UnicodeIntervalTree<T>::Node> {
     assert(node != nullptr);
     if (node->m_left == nullptr) {
-        assert(node->m_right != nullptr);
         std::unique_ptr<Node> right(std::move(node->m_right));
         ret->reset(node.release());
         return right;
-- 
2.43.0


From 936841c2b84b983526cd5f46a3cbf1f44b1fced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:13 +0000
Subject: [PATCH 40/45] fix: BufferParser: support buffers of 2 GiB and more

Positions and sizes in the input buffer were 32 bits wide, and twice the size of
the caller's buffer is stored, so buffers from 2 GiB on were cut off or misread.
---
 src/log_surgeon/Buffer.hpp                | 23 ++++++++++++-----------
 src/log_surgeon/Lexer.hpp                 |  8 ++++----
 src/log_surgeon/Lexer.tpp                 | 14 +++++++-------
 src/log_surgeon/LogEvent.cpp              |  6 +++---
 src/log_surgeon/LogParser.cpp             |  2 +-
 src/log_surgeon/LogParser.hpp             |  4 ++--
 src/log_surgeon/LogParserOutputBuffer.cpp |  2 +-
 src/log_surgeon/LogParserOutputBuffer.hpp | 12 ++++++------
 src/log_surgeon/ParserInputBuffer.cpp     | 14 +++++++-------
 src/log_surgeon/ParserInputBuffer.hpp     | 12 ++++++------
 src/log_surgeon/Token.cpp                 |  2 +-
 src/log_surgeon/Token.hpp                 |  8 ++++----
 12 files changed, 54 insertions(+), 53 deletions(-)

diff --git a/src/log_surgeon/Buffer.hpp b/src/log_surgeon/Buffer.hpp
index 2a35195..88e7f8b 100644
--- a/src/log_surgeon/Buffer.hpp
+++ b/src/log_surgeon/Buffer.hpp
@@ -1,6 +1,7 @@
 #ifndef LOG_SURGEON_BUFFER_HPP
 #define LOG_SURGEON_BUFFER_HPP
 
+#include <cstddef>
 #include <cstdint>
 #include <vector>
 
@@ -28,21 +29,21 @@ public:
 
     [[nodiscard]] auto get_curr_value() const -> Item const& { return m_active_storage[m_pos]; }
 
-    auto set_value(uint32_t pos, Item const& value) -> void { m_active_storage[pos] = value; }
+    auto set_value(size_t pos, Item const& value) -> void { m_active_storage[pos] = value; }
 
-    [[nodiscard]] auto get_value(uint32_t pos) const -> Item const& {
+    [[nodiscard]] auto get_value(size_t pos) const -> Item const& {
         return m_active_storage[pos];
     }
 
-    [[nodiscard]] auto get_mutable_value(uint32_t pos) const -> Item& {
+    [[nodiscard]] auto get_mutable_value(size_t pos) const -> Item& {
         return m_active_storage[pos];
     }
 
     auto increment_pos() -> void { m_pos++; }
 
-    auto set_pos(uint32_t curr_pos) -> void { m_pos = curr_pos; }
+    auto set_pos(size_t curr_pos) -> void { m_pos = curr_pos; }
 
-    [[nodiscard]] auto pos() const -> uint32_t { return m_pos; }
+    [[nodiscard]] auto pos() const -> size_t { return m_pos; }
 
     auto double_size() -> void {
         std::vector<Item>& new_buffer = m_dynamic_storages.emplace_back(2 * m_active_size);
@@ -52,7 +53,7 @@ public:
 
     [[nodiscard]] auto static_size() const -> uint32_t { return cStaticByteBuffSize; }
 
-    [[nodiscard]] auto size() const -> uint32_t { return m_active_size; }
+    [[nodiscard]] auto size() const -> size_t { return m_active_size; }
 
     auto reset() -> void {
         m_pos = 0;
@@ -61,7 +62,7 @@ public:
         m_active_size = cStaticByteBuffSize;
     }
 
-    auto set_active_buffer(Item* storage, uint32_t size, uint32_t pos) -> void {
+    auto set_active_buffer(Item* storage, size_t size, size_t pos) -> void {
         m_active_storage = storage;
         m_active_size = size;
         m_pos = pos;
@@ -73,20 +74,20 @@ public:
     [[nodiscard]] auto get_mutable_active_buffer() -> Item* { return m_active_storage; }
 
     void
-    copy(Item const* storage_to_copy_first, Item const* storage_to_copy_last, uint32_t offset) {
+    copy(Item const* storage_to_copy_first, Item const* storage_to_copy_last, size_t offset) {
         std::copy(storage_to_copy_first, storage_to_copy_last, m_active_storage + offset);
     }
 
     template <class T>
     auto
-    read(T& reader, uint32_t read_offset, uint32_t bytes_to_read, size_t& bytes_read) -> ErrorCode {
+    read(T& reader, size_t read_offset, size_t bytes_to_read, size_t& bytes_read) -> ErrorCode {
         static_assert(std::is_same_v<T, Reader>, "T should be a Reader");
         return reader.read(m_active_storage + read_offset, bytes_to_read, bytes_read);
     }
 
 private:
-    uint32_t m_pos{0};
-    uint32_t m_active_size{cStaticByteBuffSize};
+    size_t m_pos{0};
+    size_t m_active_size{cStaticByteBuffSize};
     std::vector<std::vector<Item>> m_dynamic_storages;
     Item m_static_storage[cStaticByteBuffSize];
     Item* m_active_storage{m_static_storage};
diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index 9d42522..86034c8 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -79,7 +79,7 @@ public:
      * new positions.
      * @param flipped Whether growing the buffer reordered its two halves.
      */
-    auto update_positions(uint32_t old_storage_size, bool flipped) -> void;
+    auto update_positions(size_t old_storage_size, bool flipped) -> void;
 
     /**
      * Gets next token from the input string
@@ -144,10 +144,10 @@ private:
      */
     auto get_next_character() -> unsigned char;
 
-    uint32_t m_match_pos{0};
-    uint32_t m_start_pos{0};
+    size_t m_match_pos{0};
+    size_t m_start_pos{0};
     uint32_t m_match_line{0};
-    uint32_t m_last_match_pos{0};
+    size_t m_last_match_pos{0};
     uint32_t m_last_match_line{0};
     bool m_match{false};
     std::vector<uint32_t> const* m_type_ids{nullptr};
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 9aa9263..084396b 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -18,12 +18,12 @@
  */
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
-void Lexer<NFAStateType, DFAStateType>::update_positions(uint32_t old_storage_size, bool flipped) {
-    uint32_t const half_old_storage_size{old_storage_size / 2};
+void Lexer<NFAStateType, DFAStateType>::update_positions(size_t old_storage_size, bool flipped) {
+    size_t const half_old_storage_size{old_storage_size / 2};
     // The position following the last character in the old buffer. No tracked character can be at
     // this position, since that character would already be consumed.
-    uint32_t const old_end_pos{flipped ? half_old_storage_size : 0};
-    for (uint32_t* pos : {&m_match_pos, &m_start_pos, &m_last_match_pos}) {
+    size_t const old_end_pos{flipped ? half_old_storage_size : 0};
+    for (size_t* pos : {&m_match_pos, &m_start_pos, &m_last_match_pos}) {
         if (old_end_pos == *pos) {
             *pos = old_storage_size;
         } else if (flipped) {
@@ -63,7 +63,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         m_type_ids = nullptr;
     }
     while (true) {
-        uint32_t prev_byte_buf_pos = input_buffer.storage().pos();
+        size_t prev_byte_buf_pos = input_buffer.storage().pos();
         unsigned char next_char{utf8::cCharErr};
         if (ErrorCode err = input_buffer.get_next_character(next_char); ErrorCode::Success != err) {
             m_asked_for_more_data = true;
@@ -205,7 +205,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
         m_type_ids = nullptr;
     }
     while (true) {
-        uint32_t prev_byte_buf_pos = input_buffer.storage().pos();
+        size_t prev_byte_buf_pos = input_buffer.storage().pos();
         unsigned char next_char{utf8::cCharErr};
         if (ErrorCode err = input_buffer.get_next_character(next_char); ErrorCode::Success != err) {
             m_asked_for_more_data = true;
@@ -311,7 +311,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
 template <typename NFAStateType, typename DFAStateType>
 auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuffer& input_buffer
 ) -> void {
-    uint32_t old_storage_size{0};
+    size_t old_storage_size{0};
     bool flipped_static_buffer{false};
     input_buffer.increase_capacity(old_storage_size, flipped_static_buffer);
     if (old_storage_size < input_buffer.storage().size()) {
diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 8e5bdaf..0367d8a 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -78,7 +78,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
     if (nullptr == src.get_timestamp()) {
         start = 1;
     }
-    uint32_t buffer_size{0};
+    size_t buffer_size{0};
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token const& token = src.get_log_output_buffer()->get_token(i);
         buffer_size += token.get_length();
@@ -88,10 +88,10 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
     }
     m_buffer.resize(buffer_size);
     m_log_output_buffer->set_pos(start);
-    uint32_t curr_pos = 0;
+    size_t curr_pos = 0;
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token& token = src.get_log_output_buffer()->get_mutable_token(i);
-        uint32_t start_pos = curr_pos;
+        size_t start_pos = curr_pos;
         for (char const& c : token.to_string_view()) {
             m_buffer[curr_pos] = c;
             curr_pos++;
diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 9a98195..f247184 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -258,7 +258,7 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-            uint32_t const end_pos = output_buffer->get_curr_token().m_end_pos;
+            size_t const end_pos = output_buffer->get_curr_token().m_end_pos;
             // An end position of 0 means the token ends with the last character of the buffer
             m_input_buffer.set_consumed_pos(
                     0 == end_pos ? m_input_buffer.storage().size() - 1 : end_pos - 1
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index ca1c73b..f29d5d2 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -83,7 +83,7 @@ public:
      * process, so the parser will finish consuming the entire buffer without
      * requesting more input data.
      */
-    auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
+    auto set_input_buffer(char* storage, size_t size, size_t pos, bool finished_reading_input)
             -> void {
         m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
         if (false == m_has_started_lexing) {
@@ -95,7 +95,7 @@ public:
     /**
      * @return the current position inside the input buffer.
      */
-    auto get_input_pos() -> uint32_t { return m_input_buffer.storage().pos(); }
+    auto get_input_pos() -> size_t { return m_input_buffer.storage().pos(); }
 
     /**
      * Reads into the input buffer if only consumed data will be overwritten.
diff --git a/src/log_surgeon/LogParserOutputBuffer.cpp b/src/log_surgeon/LogParserOutputBuffer.cpp
index 56657f3..adaff5b 100644
--- a/src/log_surgeon/LogParserOutputBuffer.cpp
+++ b/src/log_surgeon/LogParserOutputBuffer.cpp
@@ -9,7 +9,7 @@ auto LogParserOutputBuffer::advance_to_next_token() -> void {
     m_storage.increment_pos();
     if (m_storage.pos() == m_storage.size()) {
         Token const* old_storage = m_storage.get_active_buffer();
-        uint32_t old_size = m_storage.size();
+        size_t old_size = m_storage.size();
         m_storage.double_size();
         m_storage.copy(old_storage, old_storage + old_size, 0);
     }
diff --git a/src/log_surgeon/LogParserOutputBuffer.hpp b/src/log_surgeon/LogParserOutputBuffer.hpp
index e96cd35..ef374d4 100644
--- a/src/log_surgeon/LogParserOutputBuffer.hpp
+++ b/src/log_surgeon/LogParserOutputBuffer.hpp
@@ -37,13 +37,13 @@ public:
 
     [[nodiscard]] auto has_delimiters() const -> bool { return m_has_delimiters; }
 
-    auto set_token(uint32_t pos, Token& value) -> void { m_storage.set_value(pos, value); }
+    auto set_token(size_t pos, Token& value) -> void { m_storage.set_value(pos, value); }
 
-    [[nodiscard]] auto get_token(uint32_t pos) const -> Token const& {
+    [[nodiscard]] auto get_token(size_t pos) const -> Token const& {
         return m_storage.get_value(pos);
     }
 
-    [[nodiscard]] auto get_mutable_token(uint32_t pos) const -> Token& {
+    [[nodiscard]] auto get_mutable_token(size_t pos) const -> Token& {
         return m_storage.get_mutable_value(pos);
     }
 
@@ -51,11 +51,11 @@ public:
 
     [[nodiscard]] auto get_curr_token() const -> Token const& { return m_storage.get_curr_value(); }
 
-    auto set_pos(uint32_t pos) -> void { m_storage.set_pos(pos); }
+    auto set_pos(size_t pos) -> void { m_storage.set_pos(pos); }
 
-    [[nodiscard]] auto pos() const -> uint32_t { return m_storage.pos(); }
+    [[nodiscard]] auto pos() const -> size_t { return m_storage.pos(); }
 
-    [[nodiscard]] auto size() const -> uint32_t { return m_storage.size(); }
+    [[nodiscard]] auto size() const -> size_t { return m_storage.size(); }
 
 private:
     bool m_has_timestamp{false};
diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 2c86d8b..ed6508a 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -35,11 +35,11 @@ auto ParserInputBuffer::read_is_safe() -> bool {
 auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
     size_t bytes_read{0};
     // read into the correct half of the buffer
-    uint32_t read_offset{0};
+    size_t read_offset{0};
     if (m_last_read_first_half) {
         read_offset = m_storage.size() / 2;
     }
-    uint32_t const bytes_to_read{m_storage.size() / 2};
+    size_t const bytes_to_read{m_storage.size() / 2};
     // A reader may return fewer bytes than requested before the input ends, so read until the half
     // is full or the reader has nothing left.
     while (bytes_read < bytes_to_read) {
@@ -74,10 +74,10 @@ auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
     return ErrorCode::Success;
 }
 
-auto ParserInputBuffer::increase_capacity(uint32_t& old_storage_size, bool& flipped_static_buffer)
+auto ParserInputBuffer::increase_capacity(size_t& old_storage_size, bool& flipped_static_buffer)
         -> void {
     old_storage_size = m_storage.size();
-    uint32_t new_storage_size = old_storage_size * 2;
+    size_t new_storage_size = old_storage_size * 2;
     flipped_static_buffer = false;
     char const* old_storage = m_storage.get_active_buffer();
     m_storage.double_size();
@@ -85,7 +85,7 @@ auto ParserInputBuffer::increase_capacity(uint32_t& old_storage_size, bool& flip
         // Buffer in correct order
         m_storage.copy(old_storage, old_storage + old_storage_size, 0);
     } else {
-        uint32_t half_old_storage_size = old_storage_size / 2;
+        size_t half_old_storage_size = old_storage_size / 2;
         // Buffer out of order, so it needs to be flipped when copying
         m_storage.copy(old_storage + half_old_storage_size, old_storage + old_storage_size, 0);
         m_storage.copy(old_storage, old_storage + half_old_storage_size, half_old_storage_size);
@@ -125,8 +125,8 @@ auto ParserInputBuffer::get_next_character(unsigned char& next_char) -> ErrorCod
 // respecting the actual size of the buffer the user passed in.
 void ParserInputBuffer::set_storage(
         char* storage,
-        uint32_t size,
-        uint32_t pos,
+        size_t size,
+        size_t pos,
         bool finished_reading_input
 ) {
     reset();
diff --git a/src/log_surgeon/ParserInputBuffer.hpp b/src/log_surgeon/ParserInputBuffer.hpp
index 3d5f735..b367aff 100644
--- a/src/log_surgeon/ParserInputBuffer.hpp
+++ b/src/log_surgeon/ParserInputBuffer.hpp
@@ -55,7 +55,7 @@ public:
      * @param old_storage_size
      * @param flipped_static_buffer
      */
-    auto increase_capacity(uint32_t& old_storage_size, bool& flipped_static_buffer) -> void;
+    auto increase_capacity(size_t& old_storage_size, bool& flipped_static_buffer) -> void;
 
     /**
      * Attempt to get the next character from the input buffer.
@@ -70,7 +70,7 @@ public:
      * Set the current position of the underlying buffer.
      * @param pos The value to set.
      */
-    auto set_pos(uint32_t pos) -> void { m_storage.set_pos(pos); }
+    auto set_pos(size_t pos) -> void { m_storage.set_pos(pos); }
 
     /**
      * Set the consumed position of the underlying buffer. This position
@@ -78,7 +78,7 @@ public:
      * fully parsed and is no longer necessary.
      * @param consumed_pos The value to set.
      */
-    auto set_consumed_pos(uint32_t consumed_pos) -> void { m_consumed_pos = consumed_pos; }
+    auto set_consumed_pos(size_t consumed_pos) -> void { m_consumed_pos = consumed_pos; }
 
     /**
      * Set whether the log input source has been fully consumed. True when
@@ -109,7 +109,7 @@ public:
      * requesting more input data.
      */
     auto
-    set_storage(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input) -> void;
+    set_storage(char* storage, size_t size, size_t pos, bool finished_reading_input) -> void;
 
     /**
      * Return a reference to the underlying storage buffer.
@@ -125,7 +125,7 @@ private:
 
 private:
     // the position of the last character read into the buffer
-    uint32_t m_pos_last_read_char{0};
+    size_t m_pos_last_read_char{0};
     bool m_last_read_first_half{false};
     // the log has been completely read into the buffer
     bool m_finished_reading_input{false};
@@ -134,7 +134,7 @@ private:
     // contains the static and dynamic character buffers
     Buffer<char> m_storage{};
     // the position last used by the caller (no longer needed in storage)
-    uint32_t m_consumed_pos{m_storage.size() - 1};
+    size_t m_consumed_pos{m_storage.size() - 1};
 };
 }  // namespace log_surgeon
 
diff --git a/src/log_surgeon/Token.cpp b/src/log_surgeon/Token.cpp
index 59b24d1..b959e5e 100644
--- a/src/log_surgeon/Token.cpp
+++ b/src/log_surgeon/Token.cpp
@@ -38,7 +38,7 @@ auto Token::get_delimiter() const -> std::string {
     return {m_buffer + m_start_pos, m_buffer + m_start_pos + 1};
 }
 
-auto Token::get_length() const -> uint32_t {
+auto Token::get_length() const -> size_t {
     if (m_start_pos <= m_end_pos) {
         return m_end_pos - m_start_pos;
     }
diff --git a/src/log_surgeon/Token.hpp b/src/log_surgeon/Token.hpp
index ccae254..f38cf90 100644
--- a/src/log_surgeon/Token.hpp
+++ b/src/log_surgeon/Token.hpp
@@ -33,12 +33,12 @@ public:
     /**
      * @return The length of the token string
      */
-    [[nodiscard]] auto get_length() const -> uint32_t;
+    [[nodiscard]] auto get_length() const -> size_t;
 
-    uint32_t m_start_pos{0};
-    uint32_t m_end_pos{0};
+    size_t m_start_pos{0};
+    size_t m_end_pos{0};
     char const* m_buffer{nullptr};
-    uint32_t m_buffer_size{0};
+    size_t m_buffer_size{0};
     uint32_t m_line{0};
     std::vector<uint32_t> const* m_type_ids_ptr{nullptr};
     std::string m_wrap_around_string{};
-- 
2.43.0


From 36dfa51e92227a39825a517f920324253fbc7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 41/45] fix: LALR1Parser: report an error of the first read

parse() ignored the code of the first read, so that what a failing reader had
was lost, or the read was tried again.
---
 src/log_surgeon/LALR1Parser.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 089dca4..503cb72 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -652,7 +652,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTermin
     m_reader = &reader;
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
-    m_input_buffer.read_if_safe(reader);
+    if (ErrorCode const error{m_input_buffer.read_if_safe(reader)};
+        ErrorCode::Success != error && ErrorCode::EndOfFile != error)
+    {
+        throw std::runtime_error("Error reading the input.");
+    }
     while (true) {
         Token next_terminal = get_next_symbol();
         if (parse_advance(next_terminal, &accept)) {
-- 
2.43.0


From 8ea14239bb281a6f63ae4e4ef27ebd2eb8765438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 42/45] fix: FileReader: don't allow copies, which close the
 file twice

---
 src/log_surgeon/FileReader.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_surgeon/FileReader.hpp b/src/log_surgeon/FileReader.hpp
index 1af906d..c4f0dce 100644
--- a/src/log_surgeon/FileReader.hpp
+++ b/src/log_surgeon/FileReader.hpp
@@ -10,7 +10,16 @@
 namespace log_surgeon {
 class FileReader : public Reader {
 public:
+    FileReader() = default;
+
+    // Not copyable or movable, since it owns its file
+    FileReader(FileReader const&) = delete;
+    FileReader(FileReader&&) = delete;
+    auto operator=(FileReader const&) -> FileReader& = delete;
+    auto operator=(FileReader&&) -> FileReader& = delete;
+
     ~FileReader();
+
     /**
      * Tries to read up to a given number of bytes from the file
      * @param buf
-- 
2.43.0


From 7e2bec75956e1f495fa837d95796c49373311170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 43/45] fix: moving a parser leaves its events and tokens with
 dangling pointers

---
 src/log_surgeon/Buffer.hpp       | 10 ++++++++++
 src/log_surgeon/BufferParser.cpp | 17 +++++++++--------
 src/log_surgeon/BufferParser.hpp |  8 +++++---
 src/log_surgeon/ReaderParser.cpp | 18 ++++++++++--------
 src/log_surgeon/ReaderParser.hpp |  8 +++++---
 5 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/log_surgeon/Buffer.hpp b/src/log_surgeon/Buffer.hpp
index 88e7f8b..f948712 100644
--- a/src/log_surgeon/Buffer.hpp
+++ b/src/log_surgeon/Buffer.hpp
@@ -25,6 +25,16 @@ namespace log_surgeon {
 template <typename Item>
 class Buffer {
 public:
+    Buffer() = default;
+
+    ~Buffer() = default;
+
+    // Not copyable or movable, since the active storage may be the object's own static storage
+    Buffer(Buffer const&) = delete;
+    Buffer(Buffer&&) = delete;
+    auto operator=(Buffer const&) -> Buffer& = delete;
+    auto operator=(Buffer&&) -> Buffer& = delete;
+
     auto set_curr_value(Item const& value) -> void { m_active_storage[m_pos] = value; }
 
     [[nodiscard]] auto get_curr_value() const -> Item const& { return m_active_storage[m_pos]; }
diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 0dbbdfa..1eb8d44 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -1,5 +1,6 @@
 #include "BufferParser.hpp"
 
+#include <memory>
 #include <string>
 
 #include <log_surgeon/Constants.hpp>
@@ -8,13 +9,13 @@
 
 namespace log_surgeon {
 BufferParser::BufferParser(std::unique_ptr<log_surgeon::SchemaAST> schema_ast)
-        : m_log_parser(std::move(schema_ast)) {}
+        : m_log_parser(std::make_unique<LogParser>(std::move(schema_ast))) {}
 
 BufferParser::BufferParser(std::string const& schema_file_path)
-        : m_log_parser(LogParser(schema_file_path)) {}
+        : m_log_parser(std::make_unique<LogParser>(schema_file_path)) {}
 
 auto BufferParser::reset() -> void {
-    m_log_parser.reset();
+    m_log_parser->reset();
     m_done = false;
 }
 
@@ -24,15 +25,15 @@ auto BufferParser::parse_next_event(
         size_t& offset,
         bool finished_reading_input
 ) -> ErrorCode {
-    m_log_parser.reset_log_event_view();
+    m_log_parser->reset_log_event_view();
     // TODO in order to allow logs/tokens to wrap user buffers this function
     // will need more parameters or the input buffer may need to be exposed to
     // the user
-    m_log_parser.set_input_buffer(buf, size, offset, finished_reading_input);
+    m_log_parser->set_input_buffer(buf, size, offset, finished_reading_input);
     LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
-    ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
+    ErrorCode error_code = m_log_parser->parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
-        auto const& output_buffer = m_log_parser.get_log_event_view().m_log_output_buffer;
+        auto const& output_buffer = m_log_parser->get_log_event_view().m_log_output_buffer;
         if (0 != output_buffer->pos()) {
             // Without a timestamp, the log event's tokens start at index 1
             offset = output_buffer->get_token(output_buffer->has_timestamp() ? 0 : 1).m_start_pos;
@@ -43,7 +44,7 @@ auto BufferParser::parse_next_event(
     if (LogParser::ParsingAction::CompressAndFinish == parsing_action) {
         m_done = true;
     }
-    offset = m_log_parser.get_input_pos();
+    offset = m_log_parser->get_input_pos();
     return ErrorCode::Success;
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/BufferParser.hpp b/src/log_surgeon/BufferParser.hpp
index 75eb41a..b6b15a4 100644
--- a/src/log_surgeon/BufferParser.hpp
+++ b/src/log_surgeon/BufferParser.hpp
@@ -1,6 +1,7 @@
 #ifndef LOG_SURGEON_BUFFER_PARSER_HPP
 #define LOG_SURGEON_BUFFER_PARSER_HPP
 
+#include <memory>
 #include <optional>
 #include <string>
 
@@ -76,7 +77,7 @@ public:
     /**
      * @return The underlying LogParser.
      */
-    auto get_log_parser() const -> LogParser const& { return m_log_parser; }
+    auto get_log_parser() const -> LogParser const& { return *m_log_parser; }
 
     /**
      * @param var The name of the variable as provided in the schema file or
@@ -85,7 +86,7 @@ public:
      * @return The integer ID of the variable.
      */
     auto get_variable_id(std::string const& var) -> std::optional<uint32_t> {
-        return m_log_parser.get_symbol_id(var);
+        return m_log_parser->get_symbol_id(var);
     }
 
     /**
@@ -97,7 +98,8 @@ public:
     auto done() const -> bool { return m_done; }
 
 private:
-    LogParser m_log_parser;
+    // On the heap, since the log event view and the tokens refer to it, so it must outlive a move
+    std::unique_ptr<LogParser> m_log_parser;
     bool m_done{false};
 };
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/ReaderParser.cpp b/src/log_surgeon/ReaderParser.cpp
index bcb5c7d..1e48a1e 100644
--- a/src/log_surgeon/ReaderParser.cpp
+++ b/src/log_surgeon/ReaderParser.cpp
@@ -1,5 +1,6 @@
 #include "ReaderParser.hpp"
 
+#include <memory>
 #include <string>
 
 #include <log_surgeon/Constants.hpp>
@@ -8,26 +9,27 @@
 
 namespace log_surgeon {
 ReaderParser::ReaderParser(std::unique_ptr<log_surgeon::SchemaAST> schema_ast)
-        : m_log_parser(std::move(schema_ast)) {}
+        : m_log_parser(std::make_unique<LogParser>(std::move(schema_ast))) {}
 
-ReaderParser::ReaderParser(std::string const& schema_file_path) : m_log_parser(schema_file_path) {}
+ReaderParser::ReaderParser(std::string const& schema_file_path)
+        : m_log_parser(std::make_unique<LogParser>(schema_file_path)) {}
 
 auto ReaderParser::reset_and_set_reader(Reader& reader) -> void {
     m_done = false;
-    m_log_parser.reset();
+    m_log_parser->reset();
     m_reader = reader;
 }
 
 auto ReaderParser::parse_next_event() -> ErrorCode {
-    m_log_parser.reset_log_event_view();
-    if (ErrorCode err = m_log_parser.read_into_input(m_reader);
+    m_log_parser->reset_log_event_view();
+    if (ErrorCode err = m_log_parser->read_into_input(m_reader);
         ErrorCode::Success != err && ErrorCode::EndOfFile != err)
     {
         return err;
     }
     while (true) {
         LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
-        ErrorCode parse_error = m_log_parser.parse_and_generate_metadata(parsing_action);
+        ErrorCode parse_error = m_log_parser->parse_and_generate_metadata(parsing_action);
         if (ErrorCode::Success == parse_error) {
             if (LogParser::ParsingAction::CompressAndFinish == parsing_action) {
                 m_done = true;
@@ -35,8 +37,8 @@ auto ReaderParser::parse_next_event() -> ErrorCode {
             break;
         }
         if (ErrorCode::BufferOutOfBounds == parse_error) {
-            m_log_parser.increase_capacity();
-            if (ErrorCode err = m_log_parser.read_into_input(m_reader);
+            m_log_parser->increase_capacity();
+            if (ErrorCode err = m_log_parser->read_into_input(m_reader);
                 ErrorCode::Success != err && ErrorCode::EndOfFile != err)
             {
                 return err;
diff --git a/src/log_surgeon/ReaderParser.hpp b/src/log_surgeon/ReaderParser.hpp
index 9465efb..8954ade 100644
--- a/src/log_surgeon/ReaderParser.hpp
+++ b/src/log_surgeon/ReaderParser.hpp
@@ -1,6 +1,7 @@
 #ifndef LOG_SURGEON_READER_PARSER_HPP
 #define LOG_SURGEON_READER_PARSER_HPP
 
+#include <memory>
 #include <optional>
 #include <string>
 
@@ -60,7 +61,7 @@ public:
     /**
      * @return The underlying LogParser.
      */
-    auto get_log_parser() const -> LogParser const& { return m_log_parser; }
+    auto get_log_parser() const -> LogParser const& { return *m_log_parser; }
 
     /**
      * @param var The name of the variable as provided in the schema file or
@@ -69,7 +70,7 @@ public:
      * @return The integer ID of the variable.
      */
     auto get_variable_id(std::string const& var) const -> std::optional<uint32_t> {
-        return m_log_parser.get_symbol_id(var);
+        return m_log_parser->get_symbol_id(var);
     }
 
     /**
@@ -80,7 +81,8 @@ public:
 
 private:
     Reader m_reader;
-    LogParser m_log_parser;
+    // On the heap, since the log event view and the tokens refer to it, so it must outlive a move
+    std::unique_ptr<LogParser> m_log_parser;
     bool m_done{false};
 };
 }  // namespace log_surgeon
-- 
2.43.0


From 26d8f9ecc6da246e9cc1856dafe35c8d654108eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:20 +0000
Subject: [PATCH 44/45] fix: Token::get_char gives any of the token's
 characters

The index was a uint8_t, so for characters beyond the first 256 of a token
the character at the index modulo 256 was returned.
---
 src/log_surgeon/Token.cpp | 2 +-
 src/log_surgeon/Token.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/Token.cpp b/src/log_surgeon/Token.cpp
index b959e5e..0b1f182 100644
--- a/src/log_surgeon/Token.cpp
+++ b/src/log_surgeon/Token.cpp
@@ -27,7 +27,7 @@ auto Token::to_string_view() -> std::string_view {
     return {m_wrap_around_string};
 }
 
-auto Token::get_char(uint8_t i) const -> char {
+auto Token::get_char(size_t i) const -> char {
     if (m_start_pos + i < m_buffer_size) {
         return m_buffer[m_start_pos + i];
     }
diff --git a/src/log_surgeon/Token.hpp b/src/log_surgeon/Token.hpp
index f38cf90..a06fd28 100644
--- a/src/log_surgeon/Token.hpp
+++ b/src/log_surgeon/Token.hpp
@@ -28,7 +28,7 @@ public:
      * @param i
      * @return The ith character of the token string
      */
-    [[nodiscard]] auto get_char(uint8_t i) const -> char;
+    [[nodiscard]] auto get_char(size_t i) const -> char;
 
     /**
      * @return The length of the token string
-- 
2.43.0


From 3e564a1cb2a38eaa145fb0d4c05ee390b1ce54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:53 +0000
Subject: [PATCH 45/45] fix: the byte 0xFD in a log isn't the start of the file

The lexer uses 0xFD as a character for the start of the file, but took the
same byte in a log for it too: in the middle of a log, a timestamp after
such a byte started an event, and the byte acted as a delimiter though the
schema doesn't list it.
---
 src/log_surgeon/Lexer.tpp     |  8 +++++++-
 src/log_surgeon/LogParser.cpp | 13 +++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 084396b..59b2e7e 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -94,6 +94,13 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_match_line = m_line;
         }
         DFAStateType* next = state->next(next_char);
+        if (m_has_delimiters && utf8::cCharStartOfFile == next_char && m_dfa->get_root() == state
+            && false == m_is_delimiter[next_char])
+        {
+            // Only the start of the file itself can start a token like this, not such a character
+            // in the input.
+            next = nullptr;
+        }
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match && !m_scanning_from_start_of_file) {
@@ -364,7 +371,6 @@ void Lexer<NFAStateType, DFAStateType>::add_delimiters(std::vector<uint32_t> con
     for (uint32_t delimiter : delimiters) {
         m_is_delimiter[delimiter] = true;
     }
-    m_is_delimiter[utf8::cCharStartOfFile] = true;
 }
 
 template <typename NFAStateType, typename DFAStateType>
diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index f247184..0ea5907 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -99,10 +99,6 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
         bool contains_delimiter = false;
         uint32_t delimiter_name = 0;
         for (uint32_t delimiter : delimiters) {
-            // The lexer adds the start of file character to the delimiters, it's not in the schema
-            if (utf8::cCharStartOfFile == delimiter) {
-                continue;
-            }
             if (is_possible_input[delimiter]) {
                 contains_delimiter = true;
                 delimiter_name = delimiter;
@@ -146,10 +142,15 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
             );
         }
 
-        // For log-specific lexing: modify variable regex to contain a delimiter at the start.
+        // For log-specific lexing: modify variable regex to contain a delimiter, or the start of the
+        // file, at the start.
+        vector<uint32_t> first_chars{delimiters};
+        if (false == m_lexer.is_delimiter(utf8::cCharStartOfFile)) {
+            first_chars.push_back(utf8::cCharStartOfFile);
+        }
         unique_ptr<RegexASTGroup<RegexNFAByteState>> delimiter_group
                 = make_unique<RegexASTGroup<RegexNFAByteState>>(
-                        RegexASTGroup<RegexNFAByteState>(delimiters)
+                        RegexASTGroup<RegexNFAByteState>(first_chars)
                 );
         rule->m_regex_ptr = make_unique<RegexASTCat<RegexNFAByteState>>(
                 std::move(delimiter_group),
-- 
2.43.0

