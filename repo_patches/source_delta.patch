From 75e8389420008496242027e50be12f2ae7185e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 01/45] fix: \e is the escape character U+001B, not U+0014

---
 include/ctre/actions/characters.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/characters.inc.hpp b/include/ctre/actions/characters.inc.hpp
index 4aa7ffd..9835837 100644
--- a/include/ctre/actions/characters.inc.hpp
+++ b/include/ctre/actions/characters.inc.hpp
@@ -15,7 +15,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-- 
2.43.0


From 01e8dffe95c01076a45a440a2543be2a45a3bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 02/45] fix: \B must match where there is no word boundary

---
 include/ctre/actions/boundaries.inc.hpp | 2 +-
 include/ctre/first.hpp                  | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ctre/actions/boundaries.inc.hpp b/include/ctre/actions/boundaries.inc.hpp
index 097bc9d..aa84780 100644
--- a/include/ctre/actions/boundaries.inc.hpp
+++ b/include/ctre/actions/boundaries.inc.hpp
@@ -8,7 +8,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index bc54b76..2838807 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -51,6 +51,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+// not_boundary
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-- 
2.43.0


From 1ba96ce3450b79b866c16e7cd8e8d7d5e501a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 03/45] fix: a capture that did not participate compares
 unequal with !=

---
 include/ctre/return_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index e37e400..bf89dc0 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -207,13 +207,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
-- 
2.43.0


From a8cc43d43c1eba3a54db06cdeaa293d8f69bd66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 04/45] fix: multi_subject_range sentinel != iterator was
 inverted

---
 include/ctre/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index d1412c3..b75227f 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -114,7 +114,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
-- 
2.43.0


From 65dfe21f20863005683686dc6b240eb3efa6b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 05/45] fix: keep the order of possessive repeats fused into a
 sequence

---
 include/ctre/actions/fusion.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index bccb20b..bd77e16 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -62,7 +62,7 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
-- 
2.43.0


From 620ff03599dcb1462a587988380928e91c8e6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 06/45] fix: first-set calculation of mode switches, rejects
 and lookbehind ends

---
 include/ctre/first.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 2838807..36bfb34 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -34,6 +34,16 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Ta
 	return l;
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return l;
+}
+
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
+	return l;
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
@@ -248,6 +258,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<select<>, Tail...>) no
 }
 
 
+// mode switch => following characters can be compared differently
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
+}
+
 // unicode property => anything
 template <typename... Content, typename PropertyType, PropertyType Property, typename... Tail> 
 constexpr auto first(ctll::list<Content...>, ctll::list<ctre::binary_property<PropertyType, Property>, Tail...>) noexcept {
-- 
2.43.0


From a4557c07e63625081f771e5f77a872fc969e28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 07/45] fix: {0} repeats nothing instead of anything

---
 include/ctre/actions/repeat.inc.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index 98c2e0b..2c717c5 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -38,13 +38,16 @@ template <auto V, typename... Content, size_t A, size_t B, typename... Ts, typen
 	return pcre_context{ctll::push_front(repeat<A,B,Content...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// repeat exactly N times (zero as upper bound in `repeat` type means infinity, hence {0} needs a content which is never matched)
+template <size_t N, typename... Content> using exact_repeat = ctll::conditional<(N > 0), repeat<N,N,Content...>, repeat<0,1,reject,Content...>>;
+
 // repeat_exactly 
 template <auto V, typename Subject, size_t A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<A>, Subject, Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(repeat<A,A,Subject>(), ctll::list<Ts...>()), subject.parameters};
+	return pcre_context{ctll::push_front(exact_repeat<A,Subject>(), ctll::list<Ts...>()), subject.parameters};
 }
 // repeat_exactly A..B (sequence)
 template <auto V, typename... Content, size_t A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<A>, sequence<Content...>, Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(repeat<A,A,Content...>(), ctll::list<Ts...>()), subject.parameters};
+	return pcre_context{ctll::push_front(exact_repeat<A,Content...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // repeat_at_least (A+) 
-- 
2.43.0


From 8121b7a230e07d89347e6b5d9bb966c01e7a3a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 08/45] fix: reject repeat counts and hexadecimal characters
 which do not fit

---
 include/ctre/actions/hexdec.inc.hpp | 5 ++++-
 include/ctre/actions/repeat.inc.hpp | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/hexdec.inc.hpp b/include/ctre/actions/hexdec.inc.hpp
index ae30b6e..b26ff7d 100644
--- a/include/ctre/actions/hexdec.inc.hpp
+++ b/include/ctre/actions/hexdec.inc.hpp
@@ -8,7 +8,10 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 // hexdec character support (push value)
 template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_hexdec, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
 	constexpr auto previous = N << 4ull;	
-	if constexpr (V >= 'a' && V <= 'f') {
+	// value which doesn't fit into a character is an error, it must not wrap around
+	if constexpr (N > ((std::numeric_limits<char32_t>::max)() >> 4u)) {
+		return ctll::reject{};
+	} else if constexpr (V >= 'a' && V <= 'f') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'a' + 10))>(), ctll::list<Ts...>()), subject.parameters};
 	} else if constexpr (V >= 'A' && V <= 'F') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'A' + 10))>(), ctll::list<Ts...>()), subject.parameters};
diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index 2c717c5..ac39cf3 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -25,8 +25,13 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // push_number
 template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_number, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
-	constexpr size_t previous = N * 10ull;	
-	return pcre_context{ctll::push_front(number<(previous + (V - '0'))>(), ctll::list<Ts...>()), subject.parameters};
+	constexpr size_t digit = static_cast<size_t>(V - '0');
+	// number which doesn't fit is an error, it must not wrap around
+	if constexpr (N > ((std::numeric_limits<size_t>::max)() - digit) / 10u) {
+		return ctll::reject{};
+	} else {
+		return pcre_context{ctll::push_front(number<(N * 10u + digit)>(), ctll::list<Ts...>()), subject.parameters};
+	}
 }
 
 // repeat A..B
-- 
2.43.0


From ad877a7295280157d3720ce718d5880ffad855ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 09/45] fix: lazy repeat must not fall back to code units of an
 UTF-8 subject

---
 include/ctre/evaluation.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 7e9f0e4..09540d1 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -297,15 +297,16 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			// result's iterator type can be different from the type of current
+			captures = inner_result.unmatch();
+			current = inner_result.get_end_position();
+		
+			auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
 		
 			if (outer_result) {
 				return outer_result;
 			}
 		
-			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
-		
 			++i;
 		}
 	
-- 
2.43.0


From a726879352f85941ad6d9f3f929b15eab9c90c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 10/45] fix: backreference on an UTF-8 subject must compile

---
 include/ctre/evaluation.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 09540d1..54e3118 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -460,7 +460,13 @@ template <typename R, typename Id, typename BeginIterator, typename Iterator, ty
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
 	
 	if (const auto ref = captures.template get<Id>()) {
-		if (auto result = match_against_range(current, last, ref.begin(), ref.end(), f); result.match) {
+		// captured iterators can have a different type (code units of an UTF-8 subject)
+		Iterator ref_begin = current;
+		ref_begin = ref.begin();
+		Iterator ref_end = current;
+		ref_end = ref.end();
+		
+		if (auto result = match_against_range(current, last, ref_begin, ref_end, f); result.match) {
 			return evaluate(begin, result.position, last, consumed_something(f, ref.begin() != ref.end()), captures, ctll::list<Tail...>());
 		}
 	}
@@ -472,7 +478,13 @@ template <typename R, size_t Id, typename BeginIterator, typename Iterator, type
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference<Id>, Tail...>) noexcept {
 	
 	if (const auto ref = captures.template get<Id>()) {
-		if (auto result = match_against_range(current, last, ref.begin(), ref.end(), f); result.match) {
+		// captured iterators can have a different type (code units of an UTF-8 subject)
+		Iterator ref_begin = current;
+		ref_begin = ref.begin();
+		Iterator ref_end = current;
+		ref_end = ref.end();
+		
+		if (auto result = match_against_range(current, last, ref_begin, ref_end, f); result.match) {
 			return evaluate(begin, result.position, last, consumed_something(f, ref.begin() != ref.end()), captures, ctll::list<Tail...>());
 		}
 	}
-- 
2.43.0


From eb33c15cf28e3efa0e1f4d6d0c36185f5b928b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 11/45] fix: backreference respects case-insensitive mode

---
 include/ctre/atoms_characters.hpp | 5 +++++
 include/ctre/evaluation.hpp       | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index ed9e66e..3051dd7 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -31,6 +31,11 @@ template <typename T> constexpr CTRE_FORCE_INLINE bool is_ascii_alpha_uppercase(
 	return (v >= static_cast<T>('A')) && v <= (static_cast<T>('Z'));
 }
 
+template <typename T> constexpr CTRE_FORCE_INLINE bool is_same_char(T lhs, T rhs, const flags & f) {
+	if (lhs == rhs) return true;
+	return is_case_insensitive(f) && is_ascii_alpha(lhs) && static_cast<T>(lhs ^ static_cast<T>(0x20)) == rhs;
+}
+
 template <auto V> struct character {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
 		if constexpr (is_ascii_alpha(V)) {
diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 54e3118..0eded1f 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -443,9 +443,9 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (is_same_char<std::decay_t<decltype(*current)>>(*current, *range_current, f)) {
 			current++;
 			range_current++;
 		} else {
-- 
2.43.0


From b58baa1be8301234e68d1b5ab345d3db54e9cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 12/45] fix: repeat without any iteration is not a progress of
 an outer repeat

---
 include/ctre/evaluation.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 0eded1f..35b72a0 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -311,7 +311,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 	
 		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
 	}
 }
 
@@ -361,21 +361,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -396,6 +396,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 #endif
 	else {
 		// A..B
+		const Iterator backup_current = current;
+		
 		size_t i{0};
 		while (less_than<A>(i)) {
 			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
@@ -410,10 +412,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
-- 
2.43.0


From d53368ed11974067d379a8ba2f2ccf3123792c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 13/45] fix: atomic group can match an empty string

---
 include/ctre/evaluation.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 35b72a0..8420199 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -564,10 +564,19 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 template <typename...> constexpr auto dependent_false = false;
 
-// atomic_group<...> is just transformation to possessive_repeat<1,1,...>
+// atomic_group<...> is like possessive_repeat<1,1,...>, but it can match an empty string
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<atomic_group<Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<1,1,Content...>, Tail...>{});
+	auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
+	
+	if (!inner_result) return not_matched;
+	
+	const auto backup_current = current;
+	
+	captures = inner_result.unmatch();
+	current = inner_result.get_end_position();
+	
+	return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
 }
 
 // switching modes
-- 
2.43.0


From 447d7f32c5b0db5beea1b49a326ab5b49bcd3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 14/45] fix: mandatory iterations of a repeat can be empty

---
 include/ctre/evaluation.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 8420199..4096943 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -280,6 +280,12 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		while (less_than<A>(i)) {
 			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
+			if (!outer_result) {
+				// all remaining mandatory iterations can be only empty
+				outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
+				i = A - 1;
+			}
+		
 			if (!outer_result) return not_matched;
 		
 			captures = outer_result.unmatch();
@@ -330,7 +336,11 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
-				return not_matched;
+				// all remaining mandatory iterations can be only empty
+				inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
+				i = A - 1;
+				
+				if (!inner_result) return not_matched;
 			}
 		
 			captures = inner_result.unmatch();
@@ -402,6 +412,12 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		while (less_than<A>(i)) {
 			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
+			if (!inner_result) {
+				// all remaining mandatory iterations can be only empty
+				inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
+				i = A - 1;
+			}
+		
 			if (!inner_result) return not_matched;
 		
 			captures = inner_result.unmatch();
-- 
2.43.0


From 757ecb32d483227c4d30855c7fcb833d64f22cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 15/45] fix: do not use case-sensitive greedy optimization in
 case-insensitive mode

---
 include/ctre/evaluation.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 4096943..78f586b 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -399,12 +399,15 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		return not_matched;
 	}
 
+	else {
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
-		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
-	}
+		if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+			// first sets are calculated for case-sensitive matching
+			if (!is_case_insensitive(f)) {
+				return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+			}
+		}
 #endif
-	else {
 		// A..B
 		const Iterator backup_current = current;
 		
-- 
2.43.0


From ca7a9513d7b1be393bc55bdafb209619ffade135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 16/45] fix: a newline can follow an end of line assertion

---
 include/ctre/first.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 36bfb34..31b286e 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -79,9 +79,9 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	// in multiline mode there can be a newline after this position
+	return ctll::list<Content..., character<'\n'>>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -91,9 +91,9 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tai
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	// in multiline mode there can be a newline after this position
+	return ctll::list<Content..., character<'\n'>>{};
 }
 
 // sequence
-- 
2.43.0


From d67a7f3144e56b9ba38022216129b0319217bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 17/45] fix: repeat which can be skipped is not an anchor

---
 include/ctre/starts_with_anchor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 62c28b9..ae587c7 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -55,19 +55,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
-- 
2.43.0


From 096ad60f6d15788ee4f9492fb45c5be35318f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 18/45] fix: find captures inside atomic groups

---
 include/ctre/find_captures.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctre/find_captures.hpp b/include/ctre/find_captures.hpp
index 43a8f77..932d731 100644
--- a/include/ctre/find_captures.hpp
+++ b/include/ctre/find_captures.hpp
@@ -111,6 +111,11 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 
 
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+
 CTRE_EXPORT template <size_t Id, typename... Content, typename... Tail, typename... Output> constexpr auto find_captures(ctll::list<capture<Id,Content...>, Tail...>, ctll::list<Output...>) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), ctll::list<Output..., captured_content<Id>>());
 }
-- 
2.43.0


From 0b03f3aeac43c0dd6972d9d6a2bba2501185ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 19/45] fix: first-set calculation of nested negative sets

---
 include/ctre/first.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 31b286e..5fd197a 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -397,12 +397,21 @@ template <typename Head, typename... Rest, typename CB> constexpr int64_t negati
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
-template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
+// negated content inside a set doesn't exclude anything (result is a superset)
+template <typename... Content, typename CB> constexpr int64_t negative_helper(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> constexpr int64_t negative_helper(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename Head, typename... Rest, typename CB> constexpr void negative_set_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
 	start = negative_helper(Head{}, cb, start);
-	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
+	negative_set_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
-template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
+template <typename CB> constexpr void negative_set_helper(ctre::negative_set<>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
 	if (start < (std::numeric_limits<int64_t>::max)()) {
 		cb(start, (std::numeric_limits<int64_t>::max)());
 	}
@@ -520,11 +529,14 @@ public:
 	}
 	template <typename... Content> constexpr bool check(ctre::negative_set<Content...> nset) {
 		bool collision = false;
-		negative_helper(nset, [&](int64_t low, int64_t high){
+		negative_set_helper(nset, [&](int64_t low, int64_t high){
 			collision |= this->check(low, high);
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
@@ -549,7 +561,7 @@ public:
 		used = 1;
 	}
 	template <typename... Content> constexpr void populate(ctre::negative_set<Content...> nset) {
-		negative_helper(nset, [&](int64_t low, int64_t high){
+		negative_set_helper(nset, [&](int64_t low, int64_t high){
 			this->insert(low, high);
 		});
 	}
-- 
2.43.0


From 2d58fd7b9dfb177f80d65618a87df1bdb78db168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 20/45] fix: case-insensitive ranges which are not only
 lowercase or only uppercase

---
 include/ctre/atoms_characters.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index 3051dd7..3ba6c0d 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -71,18 +71,11 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			const auto other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if (other_case >= A && other_case <= B) {
+				return true;//
+			}
 		}
 		return (value >= A) && (value <= B);
 	}
-- 
2.43.0


From 841d8566d9c9c490b988fcccae712aa0fd7fb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 21/45] fix: UTF-8 iterator must not move behind the end of the
 subject

---
 include/ctre/utf8.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 6dfa027..fda7245 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -121,7 +121,15 @@ struct utf8_iterator {
 		// & 0b11u  selects only needed two bits
 		// +1  because each iteration is at least one code unit forward
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		const auto length = ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		
+		// truncated sequence must not move behind the end
+		if (end - ptr < static_cast<std::ptrdiff_t>(length)) CTRE_UNLIKELY {
+			ptr = end;
+		} else {
+			ptr += length;
+		}
+		
 		return *this;
 	}
 	
-- 
2.43.0


From e03ed0a67f7ccbc3286808feab93bc5c3e79d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 22/45] fix: UTF-8 iterator must not move before the beginning
 of the subject

---
 include/ctre/utf8.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index fda7245..9da2af3 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -60,6 +60,7 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr};
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -140,7 +141,7 @@ struct utf8_iterator {
 			--ptr;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
+		while (ptr != begin && (*ptr & 0b11000000u) == 0b10'000000) {
 			--ptr;
 		}
 		
@@ -244,7 +245,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
-- 
2.43.0


From cb0c9579b3d1aa29e71af1919e04f3b5fc89a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 23/45] fix: begin and end assertions swap their sides inside a
 lookbehind

---
 include/ctre/rotate.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index f232883..0dc044b 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -90,11 +90,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
+// the begin of the subject is the end of the reversed one (and vice versa)
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
 static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
-- 
2.43.0


From 003ba5cbdba640e9dd08cd06e6a961a3b137c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 24/45] fix: lookarounds swap their sides inside a lookbehind

---
 include/ctre/rotate.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index 0dc044b..b8f0bdf 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -75,11 +75,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// we don't rotate content of lookarounds, but ahead of the subject is behind in the reversed one (and vice versa)
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
-- 
2.43.0


From 365b1aa395c6f66207581ce025461c2c53732e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 25/45] fix: iteration over matches has to make progress after
 an empty match

---
 include/ctre/iterators.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 7964914..a38fb98 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -49,6 +49,9 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 		
+		// an empty match is not a progress
+		if (current_match && current_match.template get<0>().begin() == current_match.template get<0>().end()) ++current;
+		
 		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
 		
 		if (current_match) {
-- 
2.43.0


From d721b0819bce3ae7a861c9406396637acf59b62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 26/45] fix: the rest of a split subject goes to the end even
 if the pattern is anchored

---
 include/ctre/iterators.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index a38fb98..dce07c4 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -117,10 +117,11 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	}
 	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
+		// search_method doesn't go to the end if the pattern is anchored
 		current_match.set_start_mark(current);
+		while (current != end) ++current;
+		current_match.set_end_mark(current);
 		current_match.matched();
-		current = current_match.template get<0>().end();
 		last_match = true;
 	}
 
-- 
2.43.0


From 6a0068b1aaa0ab8dd9d031d91f5e233d32282783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 27/45] fix: splitting has to make progress after an empty
 separator

---
 include/ctre/iterators.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index dce07c4..591b12f 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -108,9 +108,11 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	EndIterator end{};
 	value_type current_match{};
 	bool last_match{false};
+	bool empty_separator{false};
 
 	constexpr CTRE_FORCE_INLINE void modify_match() {
 		auto tmp = current_match.template get<0>().end();
+		empty_separator = current_match.template get<0>().begin() == tmp;
 		current_match.set_end_mark(current_match.template get<0>().begin());
 		current_match.set_start_mark(current);
 		current = tmp;
@@ -148,8 +150,13 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			current_match = decltype(current_match){};
 			return *this;
 		}
+		
+		// an empty separator is not a progress, there can't be same one again
+		auto search_from = current;
+		const bool search_possible = !empty_separator || current != end;
+		if (empty_separator && search_possible) ++search_from;
 	
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		current_match = search_possible ? RE::template exec_with_result_iterator<ResultIterator>(orig_begin, search_from, end) : value_type{};
 	
 		if (current_match) {
 			modify_match();
-- 
2.43.0


From 3bceb7c2c8ac14a30400f4da2cc28aaf306717b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 28/45] fix: a pattern with broken encoding is rejected

---
 include/ctll/fixed_string.hpp | 14 +++++++++++++-
 include/ctll/parser.hpp       | 13 +++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/ctll/fixed_string.hpp b/include/ctll/fixed_string.hpp
index 148f377..088d5e9 100644
--- a/include/ctll/fixed_string.hpp
+++ b/include/ctll/fixed_string.hpp
@@ -24,7 +24,7 @@ constexpr length_value_t length_and_value_of_utf8_code_point(uint8_t first_unit)
 	else if ((first_unit & 0b1111'0000) == 0b1110'0000) return {static_cast<uint32_t>(first_unit & 0b0000'1111), 3};
 	else if ((first_unit & 0b1111'1000) == 0b1111'0000) return {static_cast<uint32_t>(first_unit & 0b0000'0111), 4};
 	else if ((first_unit & 0b1111'1100) == 0b1111'1000) return {static_cast<uint32_t>(first_unit & 0b0000'0011), 5};
-	else if ((first_unit & 0b1111'1100) == 0b1111'1100) return {static_cast<uint32_t>(first_unit & 0b0000'0001), 6};
+	else if ((first_unit & 0b1111'1110) == 0b1111'1100) return {static_cast<uint32_t>(first_unit & 0b0000'0001), 6};
 	else return {0, 0};
 }
 
@@ -59,18 +59,23 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 					switch (info.length) {
 						case 6:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false;
 							[[fallthrough]];
 						case 5:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false;
 							[[fallthrough]];
 						case 4:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false;
 							[[fallthrough]];
 						case 3:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false;
 							[[fallthrough]];
 						case 2:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+							else correct_flag = false;
 							[[fallthrough]];
 						case 1:
 							content[out++] = static_cast<char32_t>(info.value);
@@ -95,18 +100,23 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 				switch (info.length) {
 					case 6:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false;
 						[[fallthrough]];
 					case 5:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false;
 						[[fallthrough]];
 					case 4:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false;
 						[[fallthrough]];
 					case 3:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false;
 						[[fallthrough]];
 					case 2:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
+						else correct_flag = false;
 						[[fallthrough]];
 					case 1:
 						content[out++] = static_cast<char32_t>(info.value);
@@ -130,6 +140,8 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 							correct_flag = false;
 							break;
 						}
+					} else {
+						correct_flag = false;
 					}
 				} else {
 					content[out++] = info.value;
diff --git a/include/ctll/parser.hpp b/include/ctll/parser.hpp
index d3751f9..788c8b0 100644
--- a/include/ctll/parser.hpp
+++ b/include/ctll/parser.hpp
@@ -169,10 +169,15 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	
 	// trampolines with folded expression
 	template <typename Subject, size_t... Pos> static constexpr auto trampoline_decide(Subject, std::index_sequence<Pos...>) noexcept {
-		// parse everything for first char and than for next and next ...
-		// Pos+1 is needed as we want to finish calculation with epsilons on stack
-		auto v = (decide<0, typename grammar::start_stack, Subject>({}, {}) + ... + index_placeholder<Pos+1>());
-		return v;
+		if constexpr (!_input.correct()) {
+			// encoding of the input is broken
+			return results<0, typename grammar::start_stack, Subject, decision::reject>();
+		} else {
+			// parse everything for first char and than for next and next ...
+			// Pos+1 is needed as we want to finish calculation with epsilons on stack
+			auto v = (decide<0, typename grammar::start_stack, Subject>({}, {}) + ... + index_placeholder<Pos+1>());
+			return v;
+		}
 	}
 	
 	template <typename Subject = empty_subject> static constexpr auto trampoline_decide(Subject subject = {}) noexcept {
-- 
2.43.0


From c2f2b97a6bd435236007d7caee823b4984d893ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 29/45] fix: starting a group again must not change its last
 completed range

---
 include/ctre/return_type.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index bf89dc0..ce30795 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -41,6 +41,7 @@ template <size_t Id, typename Name = void> struct captured_content {
 	template <typename Iterator> class storage {
 		Iterator _begin{};
 		Iterator _end{};
+		Iterator _open{}; // begin of a participation which is not completed yet
 		
 		bool _matched{false};
 	public:
@@ -66,6 +67,14 @@ template <size_t Id, typename Name = void> struct captured_content {
 		constexpr CTRE_FORCE_INLINE Iterator get_end() const noexcept {
 			return _end;
 		}
+		constexpr CTRE_FORCE_INLINE void open(Iterator pos) noexcept {
+			_open = pos;
+		}
+		constexpr CTRE_FORCE_INLINE storage & close(Iterator pos) noexcept {
+			_begin = _open;
+			_end = pos;
+			return *this;
+		}
 		
 	
 		constexpr auto begin() const noexcept {
@@ -489,11 +498,11 @@ public:
 		return _captures.template select<0>().get_end();
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos).matched();
+		_captures.template select<Id>().close(pos).matched();
 		return *this;
 	}
 	constexpr auto begin() const noexcept {
-- 
2.43.0


From 4ff50929719aedafda1682c0f166840293340c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 30/45] fix: a switch of several modes applies all of them

---
 include/ctre/actions/mode.inc.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ctre/actions/mode.inc.hpp b/include/ctre/actions/mode.inc.hpp
index d4e612b..d0e39c4 100644
--- a/include/ctre/actions/mode.inc.hpp
+++ b/include/ctre/actions/mode.inc.hpp
@@ -10,6 +10,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// another letter of the same switch (the preparation of a capture is already reset)
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<Previous...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<Previous..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
-- 
2.43.0


From d6e9e8127f1de6101a63b1a75bcdad8a630587b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 31/45] fix: repetition with bounds out of order is rejected

---
 include/ctre/actions/repeat.inc.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index ac39cf3..768ed90 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -35,12 +35,22 @@ template <auto V, size_t N, typename... Ts, typename Parameters> static constexp
 }
 
 // repeat A..B
-template <auto V, typename Subject, size_t A, size_t B, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_ab, ctll::term<V>, pcre_context<ctll::list<number<B>, number<A>, Subject, Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(repeat<A,B,Subject>(), ctll::list<Ts...>()), subject.parameters};
+template <auto V, typename Subject, size_t A, size_t B, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_ab, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<number<B>, number<A>, Subject, Ts...>, Parameters> subject) {
+	// upper bound lower than the lower one is an error (zero means there is no upper bound)
+	if constexpr (B != 0 && B < A) {
+		return ctll::reject{};
+	} else {
+		return pcre_context{ctll::push_front(repeat<A,B,Subject>(), ctll::list<Ts...>()), subject.parameters};
+	}
 }
 // repeat A..B (sequence)
-template <auto V, typename... Content, size_t A, size_t B, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_ab, ctll::term<V>, pcre_context<ctll::list<number<B>, number<A>, sequence<Content...>, Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(repeat<A,B,Content...>(), ctll::list<Ts...>()), subject.parameters};
+template <auto V, typename... Content, size_t A, size_t B, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_ab, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<number<B>, number<A>, sequence<Content...>, Ts...>, Parameters> subject) {
+	// upper bound lower than the lower one is an error (zero means there is no upper bound)
+	if constexpr (B != 0 && B < A) {
+		return ctll::reject{};
+	} else {
+		return pcre_context{ctll::push_front(repeat<A,B,Content...>(), ctll::list<Ts...>()), subject.parameters};
+	}
 }
 
 // repeat exactly N times (zero as upper bound in `repeat` type means infinity, hence {0} needs a content which is never matched)
-- 
2.43.0


From 9081f10b3e3bc41886012b879536597f3892937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 32/45] fix: back reference to group zero is rejected

---
 include/ctre/actions/backreference.inc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/backreference.inc.hpp b/include/ctre/actions/backreference.inc.hpp
index 2a7de4d..0bb7cbb 100644
--- a/include/ctre/actions/backreference.inc.hpp
+++ b/include/ctre/actions/backreference.inc.hpp
@@ -9,7 +9,7 @@ template <auto... Str, auto V, typename... Ts, size_t Counter> static constexpr
 // with just a number
 template <auto V, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_back_reference, ctll::term<V>, pcre_context<ctll::list<number<Id>, Ts...>, pcre_parameters<Counter>>) {
 	// if we are looking outside of existing list of Ids ... reject input during parsing
-	if constexpr (Counter < Id) {
+	if constexpr (Id == 0 || Counter < Id) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(back_reference<Id>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
@@ -19,7 +19,7 @@ template <auto V, size_t Id, typename... Ts, size_t Counter> static constexpr au
 // relative backreference
 template <auto V, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_relative_back_reference, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<number<Id>, Ts...>, pcre_parameters<Counter>>) {	
 	// if we are looking outside of existing list of Ids ... reject input during parsing
-	if constexpr (Counter < Id) {
+	if constexpr (Id == 0 || Counter < Id) {
 		return ctll::reject{};
 	} else {
 		constexpr size_t absolute_id = (Counter + 1) - Id;
-- 
2.43.0


From 6e7a32d2b48a795f88a4d95ba4e6403e7c24de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 33/45] fix: possessive optional around a lazy optional
 compiles

---
 include/ctre/actions/repeat.inc.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index 768ed90..a85c453 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -99,6 +99,11 @@ template <auto V, typename... Subject, typename... Ts, typename Parameters> stat
 	return pcre_context{ctll::push_front(possessive_star<Subject...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// make_possessive (optional around lazy optional which wasn't wrapped)
+template <auto V, typename... Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_possessive, ctll::term<V>, pcre_context<ctll::list<lazy_optional<Subject...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(possessive_optional<lazy_optional<Subject...>>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 // make_possessive (repeat<A,B>)
 template <auto V, typename... Subject, size_t A, size_t B, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_possessive, ctll::term<V>, pcre_context<ctll::list<repeat<A,B,Subject...>, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(possessive_repeat<A,B,Subject...>(), ctll::list<Ts...>()), subject.parameters};
-- 
2.43.0


From 26ff4e1669a497a459befb6106b04e44a820ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 34/45] fix: group whose content starts with a reference by
 name compiles

---
 include/ctre/actions/capture.inc.hpp | 9 +++++++--
 include/ctre/pcre.gram               | 2 +-
 include/ctre/pcre.hpp                | 3 ++-
 include/ctre/pcre_actions.hpp        | 1 +
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/ctre/actions/capture.inc.hpp b/include/ctre/actions/capture.inc.hpp
index ebf5437..b533477 100644
--- a/include/ctre/actions/capture.inc.hpp
+++ b/include/ctre/actions/capture.inc.hpp
@@ -27,12 +27,17 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 template <auto... Str, auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<id<Str...>, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<Str..., V>(), ctll::list<Ts...>()), subject.parameters};
 }
+// name of the capture is complete (a name which follows belongs to somebody else)
+template <auto... Str, auto V, size_t Id, typename... Ts, typename Parameters> static constexpr auto apply(pcre::name_capture, ctll::term<V>, pcre_context<ctll::list<id<Str...>, capture_id<Id>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(named_capture_id<Id, id<Str...>>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 // capture with name
-template <auto... Str, auto V, typename A, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<A, id<Str...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
+template <auto... Str, auto V, typename A, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<A, named_capture_id<Id, id<Str...>>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture_with_name<Id, id<Str...>, A>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
 // capture with name (sequence)
-template <auto... Str, auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, id<Str...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
+template <auto... Str, auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, named_capture_id<Id, id<Str...>>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture_with_name<Id, id<Str...>, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
 
diff --git a/include/ctre/pcre.gram b/include/ctre/pcre.gram
index f86efdf..203138d 100644
--- a/include/ctre/pcre.gram
+++ b/include/ctre/pcre.gram
@@ -76,7 +76,7 @@ block->questionmark,angle_open,equal_sign,[reset_capture],[start_lookbehind_posi
 block->questionmark,exclamation_mark,[reset_capture],[start_lookahead_negative],<content_in_capture>,[look_finish],close
 block->questionmark,angle_open,exclamation_mark,[reset_capture],[start_lookbehind_negative],<content_in_capture>,[look_finish],close
 block->questionmark,colon,[reset_capture],<content_in_capture>,close
-block->questionmark,angle_open,<block_name>,angle_close,<content_in_capture>,[make_capture_with_name],close
+block->questionmark,angle_open,<block_name>,angle_close,[name_capture],<content_in_capture>,[make_capture_with_name],close
 
 block_name->alpha_characters,[push_name],<block_name2>
 block_name2->alphanum_characters,[push_name],<block_name2>|epsilon
diff --git a/include/ctre/pcre.hpp b/include/ctre/pcre.hpp
index 70ee731..8ed6c4f 100644
--- a/include/ctre/pcre.hpp
+++ b/include/ctre/pcre.hpp
@@ -99,6 +99,7 @@ struct pcre {
 	struct mode_case_sensitive: ctll::action {};
 	struct mode_multiline: ctll::action {};
 	struct mode_singleline: ctll::action {};
+	struct name_capture: ctll::action {};
 	struct negate_class_named: ctll::action {};
 	struct prepare_capture: ctll::action {};
 	struct push_assert_begin: ctll::action {};
@@ -391,7 +392,7 @@ struct pcre {
 
 	static constexpr auto rule(number, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2>;
 
-	static constexpr auto rule(o, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<block_name, ctll::term<'>'>, content_in_capture, make_capture_with_name, ctll::term<'\x29'>>;
+	static constexpr auto rule(o, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<block_name, ctll::term<'>'>, name_capture, content_in_capture, make_capture_with_name, ctll::term<'\x29'>>;
 	static constexpr auto rule(o, ctll::term<'!'>) -> ctll::push<ctll::anything, reset_capture, start_lookbehind_negative, content_in_capture, look_finish, ctll::term<'\x29'>>;
 	static constexpr auto rule(o, ctll::term<'='>) -> ctll::push<ctll::anything, reset_capture, start_lookbehind_positive, content_in_capture, look_finish, ctll::term<'\x29'>>;
 
diff --git a/include/ctre/pcre_actions.hpp b/include/ctre/pcre_actions.hpp
index c4483d4..d1b21b5 100644
--- a/include/ctre/pcre_actions.hpp
+++ b/include/ctre/pcre_actions.hpp
@@ -32,6 +32,7 @@ template <typename... Content, typename Parameters> pcre_context(ctll::list<Cont
 template <size_t Value> struct number { };
 
 template <size_t Id> struct capture_id { };
+template <size_t Id, typename Name> struct named_capture_id { };
 	
 struct pcre_actions {
 // i know it's ugly, but it's more readable
-- 
2.43.0


From 606563ffe361a29487bbaf1950ee502ff96efedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 35/45] fix: malformed code points in UTF-8 and UTF-16 patterns
 are rejected

---
 include/ctll/fixed_string.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ctll/fixed_string.hpp b/include/ctll/fixed_string.hpp
index 088d5e9..a541941 100644
--- a/include/ctll/fixed_string.hpp
+++ b/include/ctll/fixed_string.hpp
@@ -36,6 +36,14 @@ constexpr char32_t value_of_trailing_utf8_code_point(uint8_t unit, bool & correc
 	}
 }
 
+// overlong forms, surrogates, and values outside of unicode are not valid UTF-8
+constexpr bool is_valid_utf8_code_point(uint32_t value, uint8_t length) noexcept {
+	if (length == 1) return true;
+	if (length == 2) return value >= 0x80;
+	if (length == 3) return value >= 0x800 && (value < 0xD800 || value > 0xDFFF);
+	return length == 4 && value >= 0x10000 && value <= 0x10FFFF;
+}
+
 constexpr length_value_t length_and_value_of_utf16_code_point(uint16_t first_unit) noexcept {
 	if ((first_unit & 0b1111110000000000) == 0b1101'1000'0000'0000) return {static_cast<uint32_t>(first_unit & 0b0000001111111111), 2};
 	else return {first_unit, 1};
@@ -78,6 +86,7 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 							else correct_flag = false;
 							[[fallthrough]];
 						case 1:
+							if (!is_valid_utf8_code_point(info.value, info.length)) correct_flag = false;
 							content[out++] = static_cast<char32_t>(info.value);
 							real_size++;
 							break;
@@ -119,6 +128,7 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 						else correct_flag = false;
 						[[fallthrough]];
 					case 1:
+						if (!is_valid_utf8_code_point(info.value, info.length)) correct_flag = false;
 						content[out++] = static_cast<char32_t>(info.value);
 						real_size++;
 						break;
@@ -144,6 +154,8 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 						correct_flag = false;
 					}
 				} else {
+					// trailing surrogate without the leading one
+					if ((info.value & 0b1111'1100'0000'0000) == 0b1101'1100'0000'0000) correct_flag = false;
 					content[out++] = info.value;
 				}
 			}
-- 
2.43.0


From 4c12856180c5f1788ddf80c38d46baf9e46d8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 36/45] fix: malformed code points in UTF-8 subject are decoded
 as the replacement character

---
 include/ctre/utf8.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 9da2af3..ed34025 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -216,9 +216,9 @@ struct utf8_iterator {
 
 		char32_t result = static_cast<char32_t>((ptr[0] & mask) << 6u) | (ptr[1] & 0b0011'1111u);
 
-		// add rest of trailing units
+		// add rest of trailing units (overlong forms, surrogates, and values outside of unicode are malformed)
 		if (length == 1) CTRE_LIKELY {
-			return result;
+			return (result < 0x80u) ? mojibake : result;
 		}
 
 		if ((ptr[2] & 0b1100'0000u) != 0b1000'0000) CTRE_UNLIKELY {
@@ -228,14 +228,16 @@ struct utf8_iterator {
 		result = (result << 6) | (ptr[2] & 0b0011'1111u);
 
 		if (length == 2) CTRE_LIKELY {
-			return result;
+			return (result < 0x800u || (result >= 0xD800u && result <= 0xDFFFu)) ? mojibake : result;
 		}
 
 		if ((ptr[3] & 0b1100'0000u) != 0b1000'0000) CTRE_UNLIKELY {
 			return mojibake;
 		}
 
-		return (result << 6) | (ptr[3] & 0b0011'1111u);
+		result = (result << 6) | (ptr[3] & 0b0011'1111u);
+
+		return (result < 0x10000u || result > 0x10FFFFu) ? mojibake : result;
 	}
 };
 
-- 
2.43.0


From bc08461f51437398752a3b9fe4e55b3dea2b5c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 37/45] fix: unknown property with a value is rejected

---
 include/ctre/actions/properties.inc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/properties.inc.hpp b/include/ctre/actions/properties.inc.hpp
index 05f7e80..e483f36 100644
--- a/include/ctre/actions/properties.inc.hpp
+++ b/include/ctre/actions/properties.inc.hpp
@@ -37,7 +37,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
@@ -63,7 +63,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
-- 
2.43.0


From b6562d10beae41e73105aa2a3feadb117260bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 38/45] fix: tables of characters searched by bisection are
 sorted

---
 include/unicode-db/unicode-db.hpp | 37 +++++++++++++++++--------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 385576b..ee79ead 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -1975,10 +1975,10 @@ namespace detail::tables {
          0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6},
         {0x0000000000000000, 0x0800000008000002, 0x0020000000200000, 0x0000800000008000,
          0x0000020000000200, 0x0000000000000008, 0x0003000000000000}};
-    static constexpr flat_array<26> cat_pd{{0x1400, 0x1806,  0x058A, 0xFF0D, 0x2010, 0x2011, 0x2012,
-                                            0x2013, 0x2014,  0x2015, 0x2E17, 0x2E1A, 0x301C, 0x30A0,
-                                            0x002D, 0x10EAD, 0x3030, 0xFE31, 0xFE32, 0x2E3A, 0x2E3B,
-                                            0x05BE, 0x2E40,  0xFE58, 0x2E5D, 0xFE63}};
+    static constexpr flat_array<26> cat_pd{
+        {0x002D, 0x058A, 0x05BE, 0x1400, 0x1806, 0x2010, 0x2011, 0x2012, 0x2013,
+        0x2014, 0x2015, 0x2E17, 0x2E1A, 0x2E3A, 0x2E3B, 0x2E40, 0x2E5D, 0x301C,
+        0x3030, 0x30A0, 0xFE31, 0xFE32, 0xFE58, 0xFE63, 0xFF0D, 0x10EAD}};
     static constexpr bool_trie<32, 984, 5, 3, 9, 255, 1, 0, 414, 18, 16, 8> cat_nd{
         {0x03ff000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -5738,9 +5738,10 @@ namespace detail::tables {
         {0x0000000000000000, 0x0000001fc0000000, 0xf800000000000000, 0x0000000000000001,
          0xffffffffffffffff, 0x000000003fffffff}};
     static constexpr flat_array<30> prop_dash_data{
-        {0x1400, 0x1806, 0x058A, 0x208B, 0xFF0D, 0x2010, 0x2011, 0x2012,  0x2013, 0x2014,
-         0x2015, 0x2212, 0x2E17, 0x2E1A, 0x301C, 0x30A0, 0x002D, 0x10EAD, 0x3030, 0xFE31,
-         0xFE32, 0x2E3A, 0x2E3B, 0x05BE, 0x2E40, 0x2053, 0xFE58, 0x2E5D,  0xFE63, 0x207B}};
+        {0x002D, 0x058A, 0x05BE, 0x1400, 0x1806, 0x2010, 0x2011, 0x2012, 0x2013,
+        0x2014, 0x2015, 0x2053, 0x207B, 0x208B, 0x2212, 0x2E17, 0x2E1A, 0x2E3A,
+        0x2E3B, 0x2E40, 0x2E5D, 0x301C, 0x3030, 0x30A0, 0xFE31, 0xFE32, 0xFE58,
+        0xFE63, 0xFF0D, 0x10EAD}};
     static constexpr flat_array<15> prop_dep_data{{0xE0001, 0x17A3, 0x17A4, 0x0149, 0x206A, 0x206B,
                                                    0x206C, 0x206D, 0x206E, 0x206F, 0x2329, 0x232A,
                                                    0x0673, 0x0F77, 0x0F79}};
@@ -5918,11 +5919,12 @@ namespace detail::tables {
              0x1ff01800e0e7103f, 0x00010fff00000000, 0xf7fffffffffff000, 0xffffffffffffffbf,
              0x1f1f000000000000, 0x07ff1fffffff007f, 0x007f00ff03ff003f}};
     static constexpr flat_array<50> prop_ext_data{
-        {0x10781, 0x10782, 0x3005,  0x180A,  0xA60C, 0xA015, 0x11A98, 0x309D,  0x309E,  0x1AA7,
-         0x3031,  0x3032,  0x3033,  0x3034,  0x3035, 0x1C36, 0x00B7,  0x1E13C, 0x1E13D, 0x0640,
-         0x16B42, 0x1843,  0x16B43, 0x1E944, 0x0E46, 0x0EC6, 0x115C6, 0x115C7, 0x115C8, 0x1E945,
-         0x1E946, 0xA9CF,  0x02D0,  0x02D1,  0x0B55, 0xAADD, 0x1135D, 0x16FE0, 0x16FE1, 0x16FE3,
-         0xA9E6,  0xAA70,  0xFF70,  0xAAF3,  0xAAF4, 0x07FA, 0x1C7B,  0x30FC,  0x30FD,  0x30FE}};
+        {0x00B7, 0x02D0, 0x02D1, 0x0640, 0x07FA, 0x0B55, 0x0E46, 0x0EC6, 0x180A,
+        0x1843, 0x1AA7, 0x1C36, 0x1C7B, 0x3005, 0x3031, 0x3032, 0x3033, 0x3034,
+        0x3035, 0x309D, 0x309E, 0x30FC, 0x30FD, 0x30FE, 0xA015, 0xA60C, 0xA9CF,
+        0xA9E6, 0xAA70, 0xAADD, 0xAAF3, 0xAAF4, 0xFF70, 0x10781, 0x10782, 0x1135D,
+        0x115C6, 0x115C7, 0x115C8, 0x11A98, 0x16B42, 0x16B43, 0x16FE0, 0x16FE1, 0x16FE3,
+        0x1E13C, 0x1E13D, 0x1E944, 0x1E945, 0x1E946}};
     static constexpr bool_trie<32, 75, 96, 821, 22, 1, 15, 240, 44, 64, 20, 22>
         prop_extended_pictographic_data{
             {0x0000000000000000, 0x0000000000000000, 0x0000420000000000, 0x0000000000000000,
@@ -6487,11 +6489,12 @@ namespace detail::tables {
         0x00000000, 0x002E8001, 0x002E9A00, 0x002E9B01, 0x002EF400, 0x002F0001, 0x002FD600};
     static constexpr range_array prop_ri_data = {0x00000000, 0x01F1E601, 0x01F20000};
     static constexpr flat_array<47> prop_sd_data{
-        {0x1D48A, 0x1D48B, 0x1D58E, 0x1D58F, 0x1D692, 0x1D693, 0x1D96,  0x1DF1A, 0x029D, 0x1D422,
-         0x1D423, 0x1DA4,  0x1D526, 0x1D527, 0x1DA8,  0x1D62A, 0x1D62B, 0x1E2D,  0x012F, 0x02B2,
-         0x1D4BE, 0x1D4BF, 0x1D5C2, 0x1D5C3, 0x2148,  0x2149,  0x0249,  0x1ECB,  0x0456, 0x1D456,
-         0x0458,  0x1D457, 0x1D55A, 0x1D55B, 0x1D65E, 0x1D65F, 0x1D62,  0x0268,  0x0069, 0x006A,
-         0x2071,  0x1D4F2, 0x03F3,  0x1D4F3, 0x1D5F6, 0x1D5F7, 0x2C7C}};
+        {0x0069, 0x006A, 0x012F, 0x0249, 0x0268, 0x029D, 0x02B2, 0x03F3, 0x0456,
+        0x0458, 0x1D62, 0x1D96, 0x1DA4, 0x1DA8, 0x1E2D, 0x1ECB, 0x2071, 0x2148,
+        0x2149, 0x2C7C, 0x1D422, 0x1D423, 0x1D456, 0x1D457, 0x1D48A, 0x1D48B, 0x1D4BE,
+        0x1D4BF, 0x1D4F2, 0x1D4F3, 0x1D526, 0x1D527, 0x1D55A, 0x1D55B, 0x1D58E, 0x1D58F,
+        0x1D5C2, 0x1D5C3, 0x1D5F6, 0x1D5F7, 0x1D62A, 0x1D62B, 0x1D65E, 0x1D65F, 0x1D692,
+        0x1D693, 0x1DF1A}};
     static constexpr bool_trie<32, 991, 1, 0, 30, 255, 1, 0, 322, 41, 21, 25> prop_sterm_data{
         {0x8000400200000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
-- 
2.43.0


From 4e69113449f87b16431293218572cab231875da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 39/45] fix: category C contains the unassigned code points

---
 include/unicode-db/unicode-db.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index ee79ead..710f2f5 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -3195,7 +3195,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
-- 
2.43.0


From 81919f9ee15660c997ceefb38a2dd9af74ba6021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 40/45] fix: property Case_Ignorable is not empty

---
 include/unicode-db/unicode-db.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 710f2f5..affc090 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7425,8 +7425,18 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    if(detail::tables::cat_mn.lookup(cp) || detail::tables::cat_me.lookup(cp) ||
+       detail::tables::cat_cf.lookup(cp) || detail::tables::cat_lm.lookup(cp) ||
+       detail::tables::cat_sk.lookup(cp))
+        return true;
+    // Word_Break = MidLetter, MidNumLet, or Single_Quote
+    switch(cp) {
+        case 0x0027: case 0x002E: case 0x003A: case 0x00B7: case 0x0387: case 0x055F:
+        case 0x05F4: case 0x2018: case 0x2019: case 0x2024: case 0x2027: case 0xFE13:
+        case 0xFE52: case 0xFE55: case 0xFF07: case 0xFF0E: case 0xFF1A: return true;
+        default: return false;
+    }
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
-- 
2.43.0


From e311abca6e9fd29dcb081c7f0b92468f037d28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 41/45] fix: unassigned code points have no age

---
 include/ctre/atoms_unicode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ctre/atoms_unicode.hpp b/include/ctre/atoms_unicode.hpp
index 7e6ec8b..8718246 100644
--- a/include/ctre/atoms_unicode.hpp
+++ b/include/ctre/atoms_unicode.hpp
@@ -57,7 +57,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const auto age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
-- 
2.43.0


From 870fd28f1cecdbb020e451751686e19690d56aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 42/45] fix: \p{Assigned} accepts every assigned code point

Private use code points of the supplementary planes and surrogates have a general category other than Cn, UTS #18 defines Assigned as the complement of Cn.
---
 include/unicode-db/unicode-db.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index affc090..3d574c0 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7451,7 +7451,7 @@ constexpr bool cp_is_valid(char32_t cp) {
     return char32_t(cp) <= 0x10FFFF;
 }
 constexpr bool cp_is_assigned(char32_t cp) {
-    return detail::tables::prop_assigned.lookup(char32_t(cp));
+    return cp_category(cp) != category::unassigned;
 }
 
 constexpr bool cp_is_ascii(char32_t cp) {
-- 
2.43.0


From 9b8f474b3b73b46d8464e40f25bb80a66b5593b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 43/45] fix: strings of char8_t are decoded like views of them

A std::u8string went to the overload for any range, which matches the code units, while the same text as std::u8string_view or as a C string is decoded.
---
 include/ctre/wrapper.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index b31becf..03e5766 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -198,7 +198,13 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 	static constexpr CTRE_FORCE_INLINE auto exec(std::u32string_view sv) noexcept {
 		return exec(sv.begin(), sv.end());
 	}
-	template <typename Range, typename = typename std::enable_if<RangeLikeType<Range>::value>::type> static constexpr CTRE_FORCE_INLINE auto exec(Range && range) noexcept {
+#ifdef CTRE_ENABLE_UTF8_RANGE
+	// strings of char8_t are decoded the same way as a view of them
+	template <typename Range> static constexpr bool is_utf8_string = std::is_convertible_v<const std::remove_reference_t<Range> &, std::u8string_view>;
+#else
+	template <typename Range> static constexpr bool is_utf8_string = false;
+#endif
+	template <typename Range, typename = typename std::enable_if<RangeLikeType<Range>::value && !is_utf8_string<Range>>::type> static constexpr CTRE_FORCE_INLINE auto exec(Range && range) noexcept {
 		return exec(std::begin(range), std::end(range));
 	}
 
-- 
2.43.0


From 1defacccc221396ac62661eed6f5ea8fee3b3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 44/45] fix: ctre::pattern and ctre::fixed_string hold the text
 without its terminator

In C++17 both classes named ctll::fixed_string<N> for an array of N characters, whose constructor takes arrays of N + 1, so none could be initialised.
---
 include/ctre/functions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ctre/functions.hpp b/include/ctre/functions.hpp
index dfda985..66c410c 100644
--- a/include/ctre/functions.hpp
+++ b/include/ctre/functions.hpp
@@ -11,8 +11,8 @@ namespace ctre {
 
 #if !CTRE_CNTTP_COMPILER_CHECK
 // avoiding CTAD limitation in C++17
-template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N - 1> {
+	using parent = ctll::fixed_string<N - 1>;
 public:
 	constexpr pattern(const CharT (&input)[N]) noexcept: parent(input) { }
 };
@@ -20,8 +20,8 @@ public:
 template <typename CharT, size_t N> pattern(const CharT (&)[N]) -> pattern<CharT, N>;
 
 // for better examples
-template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N - 1> {
+	using parent = ctll::fixed_string<N - 1>;
 public:
 	constexpr fixed_string(const CharT (&input)[N]) noexcept: parent(input) { }
 };
-- 
2.43.0


From 13c63946b062ced836afaea8678a3cd33a92bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:23 +0000
Subject: [PATCH 45/45] fix: != of a pointer and a UTF-8 iterator is the
 negation of ==

With char8_t but without three-way comparison (C++17 with -fchar8_t) the
operator compared for equality.
---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index ed34025..38e8db7 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -92,7 +92,7 @@ struct utf8_iterator {
 	}
 	
 	constexpr friend bool operator!=(const char8_t * lhs, const utf8_iterator & rhs) {
-		return lhs == rhs.ptr;
+		return lhs != rhs.ptr;
 	}
 	
 	constexpr friend bool operator==(sentinel, const utf8_iterator & rhs) {
-- 
2.43.0

