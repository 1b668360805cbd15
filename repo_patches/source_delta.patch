From 77d52bd5e83ce071fce94773d86f1ef691d6f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 01/11] fix: look up the deduplicated variant index by position
 in the list of kept types

A choice whose alternatives repeat a non-first result type after a void
alternative or after another repeated type was given the wrong index: its
value was dropped (void index) or emplaced into the wrong variant member.
---
 include/k3/tok3n/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/filter.h b/include/k3/tok3n/detail/filter.h
index e4368af..4570917 100644
--- a/include/k3/tok3n/detail/filter.h
+++ b/include/k3/tok3n/detail/filter.h
@@ -87,7 +87,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, std::index_sequence_for<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
@@ -107,7 +107,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, std::index_sequence_for<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
-- 
2.43.0


From 14f4be70b975e2513a824ecbe89477585879d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 02/11] fix: run value-less elements of sequences and choices
 through parse instead of lookahead

---
 include/k3/tok3n/detail/helpers.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index 075f7ab..7ad9851 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -152,13 +152,16 @@ struct compound_executor
 		: input(input_)
 	{}
 
-	template <parser P, std::size_t I = static_cast<std::size_t>(-1)>
+	template <parser P>
 	constexpr bool execute()
 	{
-		if constexpr (I == static_cast<std::size_t>(-1))
-			return execute_lookahead<P>();
-		else
-			return execute_element<P, I>();
+		return execute_lookahead<P>();
+	}
+
+	template <parser P, std::size_t I>
+	constexpr bool execute()
+	{
+		return execute_element<P, I>();
 	}
 
 private:
@@ -178,7 +181,11 @@ private:
 			return false;
 
 		input = res.remaining();
-		if constexpr (unwrapped)
+		if constexpr (I == static_cast<std::size_t>(-1))
+		{
+			// This parser has no value to keep
+		}
+		else if constexpr (unwrapped)
 		{
 			if constexpr (std::is_move_assignable_v<ResultType>)
 				builder.assign(std::move(res));
-- 
2.43.0


From 07c4e09d78ca3badd193d8398f6111d96afd0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 03/11] fix: end a repetition when an iteration consumes
 nothing instead of looping forever

---
 .../detail/optimizations/join_one_or_more_basic.h    |  4 ++--
 .../detail/optimizations/join_zero_or_more_basic.h   |  4 ++--
 include/k3/tok3n/detail/parsers/delimit.h            |  4 ++++
 include/k3/tok3n/detail/parsers/one_or_more.h        | 12 ++++++------
 include/k3/tok3n/detail/parsers/zero_or_more.h       |  8 ++++----
 5 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h b/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
index c8adc2f..12a5ee5 100644
--- a/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
@@ -33,7 +33,7 @@ struct join_parser<one_or_more_parser<Basic<arr>>>
 		output_span<V> res = { input.data(), Traits::length };
 		input = input.subspan(Traits::length);
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			res = { res.data(), res.size() + Traits::length };
 			input = input.subspan(Traits::length);
@@ -55,7 +55,7 @@ struct join_parser<one_or_more_parser<Basic<arr>>>
 
 		input = input.subspan(Traits::length);
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			input = input.subspan(Traits::length);
 		}
diff --git a/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h b/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
index 53de522..fab11b7 100644
--- a/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
@@ -29,7 +29,7 @@ struct join_parser<zero_or_more_parser<Basic<arr>>>
 
 		output_span<V> res = { input.data(), 0 };
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			res = { res.data(), res.size() + Traits::length };
 			input = input.subspan(Traits::length);
@@ -46,7 +46,7 @@ struct join_parser<zero_or_more_parser<Basic<arr>>>
 
 		using Traits = impl::basic_parser_traits<Basic<arr>>;
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			input = input.subspan(Traits::length);
 		}
diff --git a/include/k3/tok3n/detail/parsers/delimit.h b/include/k3/tok3n/detail/parsers/delimit.h
index 1c63481..3a5e101 100644
--- a/include/k3/tok3n/detail/parsers/delimit.h
+++ b/include/k3/tok3n/detail/parsers/delimit.h
@@ -63,6 +63,8 @@ struct delimit_parser
 				break;
 
 			res = P::parse(delimit_res.remaining());
+			if (res.has_value() and res.remaining().size() == input.size()) // Stop when nothing is consumed
+				break;
 			if constexpr (not is_d_void)
 			{
 				if (res.has_value())
@@ -97,6 +99,8 @@ struct delimit_parser
 				break;
 
 			res = P::lookahead(delimit_result.remaining());
+			if (res.has_value() and res.remaining().size() == input.size()) // Stop when nothing is consumed
+				break;
 		}
 
 		return result<void, V>{ success_tag, input };
diff --git a/include/k3/tok3n/detail/parsers/one_or_more.h b/include/k3/tok3n/detail/parsers/one_or_more.h
index e3f3a62..035b6cb 100644
--- a/include/k3/tok3n/detail/parsers/one_or_more.h
+++ b/include/k3/tok3n/detail/parsers/one_or_more.h
@@ -36,10 +36,10 @@ struct one_or_more_parser
 		while (true)
 		{
 			auto res = P::parse(input);
-			input = res.remaining();
-			successful |= res.has_value();
-			if (not res.has_value())
+			if (not res.has_value() or (successful and res.remaining().size() == input.size())) // Stop when nothing is consumed
 				break;
+			successful = true;
+			input = res.remaining();
 			builder.insert_back(std::move(res));
 		}
 
@@ -60,10 +60,10 @@ struct one_or_more_parser
 		while (true)
 		{
 			auto res = P::lookahead(input);
-			input = res.remaining();
-			successful |= res.has_value();
-			if (not res.has_value())
+			if (not res.has_value() or (successful and res.remaining().size() == input.size())) // Stop when nothing is consumed
 				break;
+			successful = true;
+			input = res.remaining();
 		}
 
 		if (successful)
diff --git a/include/k3/tok3n/detail/parsers/zero_or_more.h b/include/k3/tok3n/detail/parsers/zero_or_more.h
index c865dbd..7d0cae0 100644
--- a/include/k3/tok3n/detail/parsers/zero_or_more.h
+++ b/include/k3/tok3n/detail/parsers/zero_or_more.h
@@ -35,9 +35,9 @@ struct zero_or_more_parser
 		while (true)
 		{
 			auto res = P::parse(input);
-			input = res.remaining();
-			if (not res.has_value())
+			if (not res.has_value() or res.remaining().size() == input.size()) // Stop when nothing is consumed
 				break;
+			input = res.remaining();
 			builder.insert_back(std::move(res));
 		}
 
@@ -53,9 +53,9 @@ struct zero_or_more_parser
 		while (true)
 		{
 			auto res = P::lookahead(input);
-			input = res.remaining();
-			if (not res.has_value())
+			if (not res.has_value() or res.remaining().size() == input.size()) // Stop when nothing is consumed
 				break;
+			input = res.remaining();
 		}
 
 		return result<void, V>{ success_tag, input };
-- 
2.43.0


From 3ffc44dbd4e80ddca4966ee329e97e72e8a94f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 04/11] fix: initialise the success flag of a
 default-constructed value-less result

---
 include/k3/tok3n/detail/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 863c4b2..b7b4913 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -83,7 +83,7 @@ public:
 	constexpr input_span<U> remaining() const noexcept { return _remaining; }
 
 private:
-	bool _successful;
+	bool _successful = false;
 	input_span<U> _remaining;
 };
 
-- 
2.43.0


From 6ce77711abafee4a923e16cc2511a4e9186e605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 05/11] fix: evaluate the exponent of a number as a power of
 ten

---
 examples/algebraic/evaluate.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/examples/algebraic/evaluate.h b/examples/algebraic/evaluate.h
index 25c16da..679e168 100644
--- a/examples/algebraic/evaluate.h
+++ b/examples/algebraic/evaluate.h
@@ -125,15 +125,13 @@ double evaluate(const number::result_type& val)
 		real += *val.decimal;
 	}
 
+	if (val.exponent)
+	{
+		real += "e";
+		real += *val.exponent;
+	}
+
 	double value;
 	from_chars(real, value);
-
-	if (not val.exponent)
-		return value;
-
-	int exp;
-	if (std::from_chars(val.exponent->data(), val.exponent->data() + val.exponent->size(), exp).ec != std::errc{})
-		throw;
-
-	return std::pow(value, exp);
+	return value;
 }
-- 
2.43.0


From ebe4fd9584779b8b022a3b1781ff74eb81539c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 06/11] fix: indent deeply nested output without reading past a
 fixed buffer

---
 examples/algebraic/print.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/examples/algebraic/print.h b/examples/algebraic/print.h
index 6e8f7bb..f1fb04a 100644
--- a/examples/algebraic/print.h
+++ b/examples/algebraic/print.h
@@ -6,10 +6,9 @@
 #include "parser.h"
 #include <iostream>
 
-std::string_view get_tabs(std::size_t tabs)
+std::string get_tabs(std::size_t tabs)
 {
-	static const std::string all_tabs(1024, '\t');
-	return { all_tabs.data(), tabs };
+	return std::string(tabs, '\t');
 }
 
 void print(std::string_view val, std::size_t tabs)
-- 
2.43.0


From ec922936f52d813d297782060ce7abc93601e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 07/11] fix: let exceptions from default construction of array
 elements pass through

The implicit default constructor of empty_if_void with 'T value{};' is deduced
noexcept by gcc and clang when T is a std::array, so a throwing default
constructor of an element type ended the program in std::terminate.
---
 include/k3/tok3n/detail/helpers.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index 7ad9851..53b1308 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -11,7 +11,11 @@ namespace k3::tok3n::detail {
 template <class T>
 struct empty_if_void
 {
-    T value{};
+    T value;
+
+    // With "T value{};", compilers deduce the implicit constructor to be noexcept for any std::array,
+    // even when constructing its elements can throw
+    constexpr empty_if_void() : value() {}
 };
 template <>
 struct empty_if_void<void> {};
-- 
2.43.0


From 53838b2829f3d69dafc6b7544a7ec71e7a852d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 08/11] fix: keep failure when converting a result to a value
 type constructible from an optional

A failed result<T2> converted to e.g. result<std::optional<T2>> (as a custom
parser with such a declared result_type does) reported success.
---
 include/k3/tok3n/detail/result.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index b7b4913..c21bfa5 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -32,11 +32,20 @@ public:
 
 	template <class T2>
 	constexpr result(const result<T2, U>& other)
-		: _result(other._result), _remaining(other._remaining) {}
+		: _result(), _remaining(other._remaining)
+	{
+		// Not through the converting constructor of `std::optional`, since `T` might also be constructible from `std::optional<T2>`
+		if (other._result.has_value())
+			_result.emplace(*other._result);
+	}
 
 	template <class T2>
 	constexpr result(result<T2, U>&& other)
-		: _result(std::move(other)._result), _remaining(other._remaining) {}
+		: _result(), _remaining(other._remaining)
+	{
+		if (other._result.has_value())
+			_result.emplace(*std::move(other)._result);
+	}
 
 	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }
 	constexpr bool has_value() const noexcept         { return _result.has_value(); }
-- 
2.43.0


From ff6a6229a006e08e4784351d04018e5186fb2168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 09/11] Revert "fix: indent deeply nested output without
 reading past a fixed buffer"

This reverts commit ebe4fd9584779b8b022a3b1781ff74eb81539c9f.
---
 examples/algebraic/print.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/algebraic/print.h b/examples/algebraic/print.h
index f1fb04a..6e8f7bb 100644
--- a/examples/algebraic/print.h
+++ b/examples/algebraic/print.h
@@ -6,9 +6,10 @@
 #include "parser.h"
 #include <iostream>
 
-std::string get_tabs(std::size_t tabs)
+std::string_view get_tabs(std::size_t tabs)
 {
-	return std::string(tabs, '\t');
+	static const std::string all_tabs(1024, '\t');
+	return { all_tabs.data(), tabs };
 }
 
 void print(std::string_view val, std::size_t tabs)
-- 
2.43.0


From 309126dde60656a437f7e69304cb7ec2dfbd3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 10/11] Revert "fix: evaluate the exponent of a number as a
 power of ten"

This reverts commit 6ce77711abafee4a923e16cc2511a4e9186e605a.
---
 examples/algebraic/evaluate.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/examples/algebraic/evaluate.h b/examples/algebraic/evaluate.h
index 679e168..25c16da 100644
--- a/examples/algebraic/evaluate.h
+++ b/examples/algebraic/evaluate.h
@@ -125,13 +125,15 @@ double evaluate(const number::result_type& val)
 		real += *val.decimal;
 	}
 
-	if (val.exponent)
-	{
-		real += "e";
-		real += *val.exponent;
-	}
-
 	double value;
 	from_chars(real, value);
-	return value;
+
+	if (not val.exponent)
+		return value;
+
+	int exp;
+	if (std::from_chars(val.exponent->data(), val.exponent->data() + val.exponent->size(), exp).ec != std::errc{})
+		throw;
+
+	return std::pow(value, exp);
 }
-- 
2.43.0


From ef3b27f04c379df79b20b0b042da4ae5f9a97f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 11/11] fix: substitute inside parts whose name consists of
 another character type

---
 include/k3/tok3n/detail/modifiers/sub.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/k3/tok3n/detail/modifiers/sub.h b/include/k3/tok3n/detail/modifiers/sub.h
index a496abd..ca3fb71 100644
--- a/include/k3/tok3n/detail/modifiers/sub.h
+++ b/include/k3/tok3n/detail/modifiers/sub.h
@@ -27,7 +27,6 @@ struct substitute_one<named_parser<P, str>, Sub>
 };
 
 template <parser P, static_array str, substitution Sub>
-requires (Sub::name != str)
 struct substitute_one<named_parser<P, str>, Sub>
 {
 	using type = named_parser<typename substitute_one<P, Sub>::type, str>;
-- 
2.43.0

