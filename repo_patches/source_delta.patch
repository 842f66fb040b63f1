From 773ca7b4984b7e4028d9c655a8b56fe9e79543fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:36 +0000
Subject: [PATCH 01/16] fix: number capturing groups consistently across
 alternation branches

Only sequences distributed capture offsets to their children, so every
branch of an alternation restarted at the same group number: '(a)|(b)' wrote
both groups to slot 1 and named groups in different branches failed to compile.
---
 include/mregex/ast/indexing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mregex/ast/indexing.hpp b/include/mregex/ast/indexing.hpp
index 26b3b81..5bb595e 100644
--- a/include/mregex/ast/indexing.hpp
+++ b/include/mregex/ast/indexing.hpp
@@ -60,6 +60,15 @@ namespace meta::ast
                 }(inner_offsets{}));
             };
 
+            template<typename... Nodes>
+            struct index<alternation<Nodes ...>>
+            {
+                using inner_offsets = capture_index_offsets_t<Offset, capture_count<Nodes> ...>;
+                using type = decltype([]<std::size_t... Offsets>(std::index_sequence<Offsets ...>) {
+                    return alternation<typename capture_indexer<Offsets>::template index<Nodes>::type ...>{};
+                }(inner_offsets{}));
+            };
+
             template<typename Node>
             using index_t = typename index<Node>::type;
         };
-- 
2.43.0


From ddba49ec3cc4308920f38f9bc06deb15f2606636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:15 +0000
Subject: [PATCH 02/16] fix: restore a group's previous capture when
 backtracking

A failed attempt at one more iteration cleared the group instead of restoring
what the last successful iteration had captured, so '(a)*' on "aa" reported an
empty group.
---
 include/mregex/ast/nodes/capture.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index e1e55df..04bf37d 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -20,13 +20,14 @@ namespace meta::ast
         -> match_result<Iter>
         {
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
+                auto const previous = std::get<ID>(ctx.captures);
                 capture_matched_range(current, next, ctx);
-                return cont(next);
+                auto rest_match = cont(next);
+                if (!rest_match)
+                    std::get<ID>(ctx.captures) = previous;
+                return rest_match;
             };
-            if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
-                return inner_match;
-            std::get<ID>(ctx.captures).clear();
-            return non_match(current);
+            return Inner::match(begin, end, current, ctx, continuation);
         }
 
     private:
-- 
2.43.0


From 5be0692a24c65d85d982e776a8cd9badec00e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:36 +0000
Subject: [PATCH 03/16] fix: discard captures of abandoned lookarounds, atomic
 groups and possessive loops

Groups set inside a lookaround, an atomic group or a possessive repetition kept
their content after the enclosing branch was abandoned, as did groups inside a
negative lookaround and inside a discarded empty possessive iteration.
---
 include/mregex/ast/nodes/assertion.hpp             |  8 +++++++-
 .../ast/nodes/quantifiers/fixed_repetition.hpp     | 14 ++++++++++++--
 .../mregex/ast/nodes/quantifiers/repetition.hpp    | 10 +++++++++-
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/mregex/ast/nodes/assertion.hpp b/include/mregex/ast/nodes/assertion.hpp
index 5d634d3..68a023b 100644
--- a/include/mregex/ast/nodes/assertion.hpp
+++ b/include/mregex/ast/nodes/assertion.hpp
@@ -23,8 +23,14 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            // Captures set while testing the predicate must not outlive a failed match
+            auto const previous_captures = ctx.captures;
             if (Predicate::is_match(begin, end, current, ctx))
-                return cont(current);
+            {
+                if (auto rest_match = cont(current))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
index e45f774..74fea32 100644
--- a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
@@ -29,8 +29,13 @@ namespace meta::ast
         static constexpr auto possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (auto result = backtracking_match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(result.end);
+            {
+                if (auto rest_match = cont(result.end))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
 
@@ -142,8 +147,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(inner_match.end);
+            {
+                if (auto rest_match = cont(inner_match.end))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/repetition.hpp b/include/mregex/ast/nodes/quantifiers/repetition.hpp
index ff5a6c8..29de541 100644
--- a/include/mregex/ast/nodes/quantifiers/repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/repetition.hpp
@@ -51,14 +51,22 @@ namespace meta::ast
         static constexpr auto bounded_possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const initial_captures = ctx.captures;
             for (std::size_t match_count = 0; !symbol::equals<Bound>(match_count); ++match_count)
             {
+                auto const previous_captures = ctx.captures;
                 auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
                 if (!inner_match || will_loop_forever(current, inner_match.end))
+                {
+                    ctx.captures = previous_captures;
                     break;
+                }
                 current = inner_match.end;
             }
-            return cont(current);
+            auto rest_match = cont(current);
+            if (!rest_match)
+                ctx.captures = initial_captures;
+            return rest_match;
         }
 
         template<symbol::quantifier Bound, std::forward_iterator Iter, typename Context, match_continuation<Iter> Cont>
-- 
2.43.0


From 8ee35420832f032fc269306460f2e0c42e4fbc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:51 +0000
Subject: [PATCH 04/16] fix: leave the result of a failed match empty

A failed match() or match_prefix() reported the characters consumed by the last
attempt as the matched content, e.g. regex<"a">::match("ab") was not a match but
had length 1.
---
 include/mregex/regex_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_methods.hpp b/include/mregex/regex_methods.hpp
index 7d80024..d54a38d 100644
--- a/include/mregex/regex_methods.hpp
+++ b/include/mregex/regex_methods.hpp
@@ -20,7 +20,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::equals(end));
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
@@ -38,7 +39,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
-- 
2.43.0


From 5e108420052eefeecced893f1cdb7dea7f02a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:30 +0000
Subject: [PATCH 05/16] fix: honour anchors inside lookbehinds

A lookbehind matches its expression on reversed iterators but kept '^', '$', '\A'
and '\Z' as they were, so each one tested the opposite end of the input:
'(?<=^a)b' never matched "ab".
---
 include/mregex/ast/inversion.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 6e0c7e6..bc54444 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -31,6 +31,31 @@ namespace meta::ast
         using type = decltype(detail::to_sequence(reverse_t<type_sequence<invert_t<Nodes> ...>>{}));
     };
 
+    // Looking backwards, the beginning of the input or line is found where its end would be and vice versa
+    template<>
+    struct invert<beginning_of_line>
+    {
+        using type = end_of_line;
+    };
+
+    template<>
+    struct invert<end_of_line>
+    {
+        using type = beginning_of_line;
+    };
+
+    template<>
+    struct invert<beginning_of_input>
+    {
+        using type = end_of_input;
+    };
+
+    template<>
+    struct invert<end_of_input>
+    {
+        using type = beginning_of_input;
+    };
+
     template<typename Inner>
     struct invert<positive_lookahead<Inner>>
     {
-- 
2.43.0


From 10cca7dfea412cd679cd5a01d4fc954b6ae0d757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:06 +0000
Subject: [PATCH 06/16] fix: match lookarounds nested inside lookbehinds in the
 right direction

Inside a lookbehind, a nested lookahead of more than one element matched its
expression mirrored, a nested lookbehind matched it unmirrored, and groups inside
a nested lookahead failed to compile: '(?<=(?<=ab)c)d' never matched "abcd".
---
 include/mregex/ast/inversion.hpp                      |  4 ++--
 .../mregex/ast/predicates/lookaround_predicate.hpp    | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index bc54444..b89fed5 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -71,13 +71,13 @@ namespace meta::ast
     template<typename Inner>
     struct invert<positive_lookbehind<Inner>>
     {
-        using type = positive_lookahead<Inner>;
+        using type = positive_lookahead<invert_t<Inner>>;
     };
 
     template<typename Inner>
     struct invert<negative_lookbehind<Inner>>
     {
-        using type = negative_lookahead<Inner>;
+        using type = negative_lookahead<invert_t<Inner>>;
     };
 }
 #endif //MREGEX_AST_INVERSION_HPP
\ No newline at end of file
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 637a452..6ebda4d 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -42,6 +42,17 @@ namespace meta::ast::predicates
             return result.matched;
         }
 
+        template<std::bidirectional_iterator Iter, typename Context>
+        static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
+        requires (!is_trivially_matchable<Inner> && !std::is_same_v<Iter, typename Context::iterator>)
+        {
+            // If the input is already being matched backwards, looking behind means matching forwards again
+            using iterator = typename Context::iterator;
+
+            auto result = Inner::match(end.base(), begin.base(), current.base(), ctx, continuations<iterator>::success);
+            return result.matched;
+        }
+
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter /*end*/, Iter current, Context &ctx) noexcept
         requires is_trivially_matchable<Inner>
-- 
2.43.0


From e8b687c2dcfdf3ad8c2d68f2577c6ac75e9079ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:34 +0000
Subject: [PATCH 07/16] fix: keep the scope of '|' after a literal curly brace

When '{' turned out not to start a quantifier, the rest of the pattern was parsed
as if it were nested in the current element, so a later '|' only applied to it:
'xa{b|c' was parsed as 'x(?:a{b|c)'.
---
 include/mregex/grammar/quantifiers.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 254146e..07076ba 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -22,9 +22,7 @@ namespace meta::grammar
                 <
                     symbol::push_literal<C>,
                     symbol::mod,
-                    symbol::make_sequence,
-                    symbol::seq,
-                    symbol::alt
+                    symbol::make_sequence
                 >;
     };
 
-- 
2.43.0


From 97ca45faa6e092e76c063ea962c3e134cbd31e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:08 +0000
Subject: [PATCH 08/16] fix: do not build a range from a line break class
 inside a set

'[\R-a]' was parsed as the range from '\n' to 'a' instead of a line break, '-' or 'a'.
---
 include/mregex/ast/build.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mregex/ast/build.hpp b/include/mregex/ast/build.hpp
index 7e0fc85..62cf8b7 100644
--- a/include/mregex/ast/build.hpp
+++ b/include/mregex/ast/build.hpp
@@ -217,6 +217,13 @@ namespace meta::ast
         using type = type_sequence<set<First ..., Second ...>, Rest ...>;
     };
 
+    // Line breaks are not merged, otherwise their first literal could be mistaken for the beginning of a range
+    template<typename Token, typename... Second, typename... Rest>
+    struct build<symbol::make_set_from_stack, Token, type_sequence<linebreak, set<Second ...>, Rest ...>>
+    {
+        using type = type_sequence<set<linebreak, Second ...>, Rest ...>;
+    };
+
     // Create a range inside the set
     template<char A, char B, typename... Second, typename... Rest>
     struct build<symbol::make_range, symbol::character<A>, type_sequence<set<literal<B>, Second ...>, Rest ...>>
-- 
2.43.0


From 222bf6df3ccdb86266e837d42e6dbceb98f7e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:37 +0000
Subject: [PATCH 09/16] fix: allow backreferences on forward-only iterators

Only lookbehinds need to walk backwards, but any backreference failed to compile
unless the input was bidirectional.
---
 include/mregex/ast/nodes/terminals/backref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/terminals/backref.hpp b/include/mregex/ast/nodes/terminals/backref.hpp
index badc6f1..685a929 100644
--- a/include/mregex/ast/nodes/terminals/backref.hpp
+++ b/include/mregex/ast/nodes/terminals/backref.hpp
@@ -59,7 +59,7 @@ namespace meta::ast
         }
 
     private:
-        template<bool Condition, std::ranges::bidirectional_range Range>
+        template<bool Condition, std::ranges::forward_range Range>
         static constexpr auto reverse_if(Range &range) noexcept
         {
             if constexpr (Condition)
-- 
2.43.0


From b8a6fd5508692a4e07b2f13d37559a28f1757011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:49 +0000
Subject: [PATCH 10/16] fix: do not step backwards on forward-only iterators
 for multiline '^'

With the multiline flag, '^' called std::prev on any iterator type, which is
undefined behaviour (a crash on std::forward_list) when it cannot be decremented.
---
 .../mregex/ast/predicates/anchor_predicates.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 7b58fa1..5553a59 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -16,11 +16,26 @@ namespace meta::ast::predicates
                 return true;
             if constexpr (Mode == line_mode::multiline && Context::flags::multiline)
             {
-                if (linebreak::match_one(*std::prev(current), ctx))
+                if (linebreak::match_one(*previous(begin, current), ctx))
                     return true;
             }
             return false;
         }
+
+    private:
+        template<std::forward_iterator Iter>
+        static constexpr auto previous(Iter begin, Iter current) noexcept -> Iter
+        {
+            // Iterators that cannot move backwards have to be advanced from the beginning
+            if constexpr (std::bidirectional_iterator<Iter>)
+                return std::prev(current);
+            else
+            {
+                for (auto next = std::next(begin); next != current; ++next)
+                    begin = next;
+                return begin;
+            }
+        }
     };
 
     template<line_mode Mode>
-- 
2.43.0


From f058875a8379b14af05d690d1f5ce790fda232b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:12 +0000
Subject: [PATCH 11/16] fix: make captures test true when they have content

The explicit conversion of a capture to bool returned is_empty(), so a group
that captured something tested false and an empty one tested true.
---
 include/mregex/regex_capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d5ed574..1e96e40 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -101,7 +101,7 @@ namespace meta
 
         constexpr explicit operator bool() const noexcept
         {
-            return is_empty();
+            return !is_empty();
         }
 
         constexpr explicit(false) operator std::string_view() const noexcept
@@ -192,7 +192,7 @@ namespace meta
 
         explicit operator bool() const noexcept
         {
-            return is_empty();
+            return !is_empty();
         }
 
         explicit(false) operator std::string_view() const noexcept
-- 
2.43.0


From 8d01f1ba6dde22a5b9a8c03c78136b65f955c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:41 +0000
Subject: [PATCH 12/16] fix: make content() of an expiring const capture
 compile

An lvalue was returned as 'auto const &&', so any use of it was an error.
---
 include/mregex/regex_capture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index 1e96e40..fff3fb1 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -177,7 +177,7 @@ namespace meta
 
         auto const &&content() const && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto &operator[](std::size_t index) noexcept
-- 
2.43.0


From bd1703f8f81475c81715c8decdbc5e454f57ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:22 +0000
Subject: [PATCH 13/16] fix: make post-increment of result range iterators
 compile

---
 include/mregex/utility/input_range_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index e85fbba..acdcf00 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -65,7 +65,7 @@ namespace meta
 
             constexpr iterator operator++(int) noexcept(is_nothrow_invocable)
             {
-                iterator old_iter{_target};
+                iterator old_iter{*_target};
                 this->operator++();
                 return old_iter;
             }
-- 
2.43.0


From 4baaa4e02430c61e5a62fa5114bc8d12e0b11b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:30 +0000
Subject: [PATCH 14/16] fix: report a syntax error for a special group that the
 pattern ends in

A pattern ending right after '(?>', '(?=', '(?!', '(?<=', '(?<!' or '(?<name>' ran the
group's semantic action without an operand and was a hard error inside the parser.
---
 include/mregex/grammar/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/grammar/grammar.hpp b/include/mregex/grammar/grammar.hpp
index fe73b06..0aaba67 100644
--- a/include/mregex/grammar/grammar.hpp
+++ b/include/mregex/grammar/grammar.hpp
@@ -574,7 +574,7 @@ namespace meta::grammar
     template<>
     struct rule<symbol::group_begin, symbol::empty>
     {
-        using type = ignore;
+        using type = reject;
     };
 
     template<>
-- 
2.43.0


From 03382912301c54c11d035a8c6bd088e73e30af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:34 +0000
Subject: [PATCH 15/16] fix: make direct-initialized copies of non-const result
 ranges exact

The forwarding constructor was a better match than the copy constructor, so the copy called the
generator once more and lost an element.
---
 include/mregex/utility/input_range_adapter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index acdcf00..7225379 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -21,7 +21,9 @@ namespace meta
 
         static constexpr bool is_nothrow_invocable = std::is_nothrow_invocable_v<Generator>;
 
+        // Copies of non-const ranges must not end up here, otherwise the copy would skip an element
         template<typename Gen>
+        requires (!std::is_same_v<std::remove_cvref_t<Gen>, input_range_adapter>)
         constexpr explicit input_range_adapter(Gen &&generator)
         noexcept(std::is_nothrow_constructible_v<Generator, Gen &&> && is_nothrow_invocable)
             : Generator{std::forward<Gen>(generator)}, _current_result{Generator::operator()()}
-- 
2.43.0


From 510efb14d249ac012f77ecbbd4bd0da190cdf3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:27 +0000
Subject: [PATCH 16/16] fix: give groups that capture nothing a valid empty
 range

Their singular iterators made length(), content() and as_memory_owner() crash on std::list in unoptimized builds.
---
 include/mregex/match_result_generator.hpp | 2 +-
 include/mregex/regex.hpp                  | 2 +-
 include/mregex/regex_match_context.hpp    | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mregex/match_result_generator.hpp b/include/mregex/match_result_generator.hpp
index 4605e5f..6646eef 100644
--- a/include/mregex/match_result_generator.hpp
+++ b/include/mregex/match_result_generator.hpp
@@ -32,7 +32,7 @@ namespace meta
 
         [[nodiscard]] constexpr auto next() noexcept
         {
-            regex_match_context<regex_type, iterator> ctx{};
+            regex_match_context<regex_type, iterator> ctx{_begin};
             if (!_active)
                 return match_result_view<regex_type, iterator>{std::move(ctx.captures), false};
 
diff --git a/include/mregex/regex.hpp b/include/mregex/regex.hpp
index 64987cf..f5f7e8f 100644
--- a/include/mregex/regex.hpp
+++ b/include/mregex/regex.hpp
@@ -274,7 +274,7 @@ namespace meta
         template<typename Method, std::forward_iterator Iter>
         static constexpr auto invoke(Iter begin, Iter end) noexcept
         {
-            regex_match_context<self, Iter> ctx{};
+            regex_match_context<self, Iter> ctx{begin};
             auto result = Method::invoke(begin, end, begin, ctx);
             return match_result_view<self, Iter>{std::move(ctx.captures), result.matched};
         }
diff --git a/include/mregex/regex_match_context.hpp b/include/mregex/regex_match_context.hpp
index 7ac7b1a..2f60c62 100644
--- a/include/mregex/regex_match_context.hpp
+++ b/include/mregex/regex_match_context.hpp
@@ -23,6 +23,14 @@ namespace meta
 
         regex_capture_view_storage<regex_type, iterator> captures{};
 
+        // Groups that capture nothing hold an empty range of the input, not singular iterators
+        constexpr explicit regex_match_context(iterator begin) noexcept
+        {
+            iterate_tuple(captures, [=]<typename Capture>(Capture &capture) noexcept {
+                capture = Capture{begin, begin};
+            });
+        }
+
         constexpr void clear() noexcept
         {
             iterate_tuple(captures, [](auto &capture) noexcept {
-- 
2.43.0

