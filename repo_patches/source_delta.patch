From dea9f782a454e33451fbeb77f32616da0ac29cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 01/21] fix: print null character pointers instead of
 dereferencing them

Every call report prints all arguments, thus calling a mock with a null
C-string dereferenced that pointer, even when no expectation looked at it.
---
 include/mimic++/Printer.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index fb21304..7a594e1 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -478,6 +478,15 @@ namespace mimicpp::detail
 		template <std::common_reference_with<String> T, print_iterator OutIter>
 		static OutIter print(OutIter out, T&& str)
 		{
+			// pointers are the only string types, which may refer to nothing at all
+			if constexpr (std::is_pointer_v<String>)
+			{
+				if (nullptr == str)
+				{
+					return format::format_to(std::move(out), "nullptr");
+				}
+			}
+
 			if constexpr (constexpr auto prefix = string_literal_prefix<string_char_t<String>>;
 				!std::ranges::empty(prefix))
 			{
-- 
2.43.0


From d868ae41ceceb0562dd40970e6945343ab52c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 02/21] fix: each_element and any_element do not move from
 lvalue matchers

The element matcher was forwarded as its decayed type, thus lvalues have been
moved-from and const lvalues (e.g. matches::_) did not compile.
---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index db176c8..58459ed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -954,7 +954,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
@@ -983,7 +983,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
-- 
2.43.0


From ae1b29483cae4d034103b4aa01f05387f2d7c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 03/21] fix: each_element and any_element honour custom
 matcher_traits

The description already used the customization point, the match did not.
---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index 58459ed..3ac3598 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -945,7 +945,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::all_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"each el in range: el {}",
 			"not each el in range: el {}",
@@ -974,7 +974,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::any_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"any el in range: el {}",
 			"none el in range: el {}",
-- 
2.43.0


From b1328cd5efaee439a3edaffc2af34c81baaff69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 04/21] fix: matches::instance describes the address of
 character objects

A pointer to a character object has been printed as if it was a C-string,
which reads past the object.
---
 include/mimic++/Matcher.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index 3ac3598..d082e48 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -482,7 +482,25 @@ namespace mimicpp::matches
 			},
 			"is instance at {}",
 			"is not instance at {}",
-			std::tuple{std::addressof(instance)}
+			std::tuple{
+				mimicpp::detail::arg_storage<
+					decltype(std::addressof(instance)),
+					std::identity,
+					decltype([]<typename Object>(Object* const ptr)
+					{
+						// the address shall be printed, never the content a (potential) c-string refers to
+						if constexpr (std::is_object_v<Object>)
+						{
+							return mimicpp::print(static_cast<const volatile void*>(ptr));
+						}
+						else
+						{
+							return mimicpp::print(ptr);
+						}
+					})>{
+					std::addressof(instance)
+				}
+			}
 		};
 	}
 
-- 
2.43.0


From b5d0fc7e9659808923d746c18c723fa6f0038e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 05/21] fix: do not pass negative values to std::toupper

The behavior is undefined for arguments, which are neither EOF nor
representable as unsigned char.
---
 include/mimic++/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index 2656fdc..f3af18c 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -418,7 +418,7 @@ struct mimicpp::string_case_fold_converter<char>
 						// see notes of https://en.cppreference.com/w/cpp/string/byte/toupper
 						// This approach will fail, if str actually contains an utf8-encoded string.
 						return static_cast<char>(
-							static_cast<unsigned char>(std::toupper(c)));
+							std::toupper(static_cast<unsigned char>(c)));
 					});
 	}
 };
-- 
2.43.0


From f8ea3f655463cd92ebe7149d0b3b450f1c9c0c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 06/21] fix: support std::reference_wrapper as parameter type
 of mocks

std::ref unwraps reference_wrapper objects, thus mocks with such parameters
did not compile.
---
 include/mimic++/Mock.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/mimic++/Mock.hpp b/include/mimic++/Mock.hpp
index 7f8a049..1f8d8cb 100644
--- a/include/mimic++/Mock.hpp
+++ b/include/mimic++/Mock.hpp
@@ -85,7 +85,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current())
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -122,7 +122,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -159,7 +159,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) &
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -196,7 +196,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const &
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -233,7 +233,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) &&
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -270,7 +270,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const &&
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -307,7 +307,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -347,7 +347,7 @@ namespace mimicpp::detail
 		) const noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -384,7 +384,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) & noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -424,7 +424,7 @@ namespace mimicpp::detail
 		) const & noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -461,7 +461,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) && noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -501,7 +501,7 @@ namespace mimicpp::detail
 		) const && noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
-- 
2.43.0


From b8120986c1b6d5871ee3ebc92a9eabcb2e206f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 07/21] fix: report unfulfilled expectations during
 move-assignment

The currently held expectation has been destroyed from within std::unique_ptr
(noexcept), thus a throwing reporter terminated the program.
---
 include/mimic++/Expectation.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index 8e40c75..db4fc7b 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -698,9 +698,20 @@ namespace mimicpp
 		ScopedExpectation(ScopedExpectation&&) = default;
 
 		/**
-		 * \brief Defaulted move-assignment-operator.
+		 * \brief Move-assignment-operator.
+		 * \details The currently held expectation ends, as if its ScopedExpectation object had been destroyed.
 		 */
-		ScopedExpectation& operator =(ScopedExpectation&&) = default;
+		ScopedExpectation& operator =(ScopedExpectation&& other)
+		{
+			if (this != std::addressof(other))
+			{
+				// The currently held expectation may report an error, which must not be thrown from within std::unique_ptr.
+				std::unique_ptr<Concept> inner = std::exchange(m_Inner, std::move(other.m_Inner));
+				delete inner.release();
+			}
+
+			return *this;
+		}
 
 		/**
 		 * \brief Queries the stored expectation, whether it's satisfied.
-- 
2.43.0


From 9cd3e51f5cf2c2a09a160d62d935a529c5d89d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 08/21] fix: do not recurse infinitely when printing ranges of
 themselves

A std::filesystem::path is a range of std::filesystem::path, thus calling a
mock with such an argument exhausted the stack.
---
 include/mimic++/Printer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index 7a594e1..dd736ea 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -251,6 +251,12 @@ namespace mimicpp::detail
 	template <typename>
 	class Printer;
 
+	// Ranges, which have themselves as elements (e.g. std::filesystem::path), would lead to an infinite recursion.
+	template <typename Range>
+	inline constexpr bool is_self_containing_range = std::same_as<
+		std::remove_cvref_t<Range>,
+		std::remove_cvref_t<std::ranges::range_reference_t<Range>>>;
+
 	template <
 		print_iterator OutIter,
 		typename T,
@@ -267,6 +273,7 @@ namespace mimicpp::detail
 	}
 
 	template <print_iterator OutIter, std::ranges::forward_range Range>
+		requires (!is_self_containing_range<Range>)
 	OutIter print(
 		OutIter out,
 		Range&& range,
@@ -333,6 +340,7 @@ namespace mimicpp::detail
 	};
 
 	template <print_iterator OutIter, std::ranges::forward_range Range>
+		requires (!is_self_containing_range<Range>)
 	OutIter print(
 		OutIter out,
 		Range&& range,  // NOLINT(cppcoreguidelines-missing-std-forward)
-- 
2.43.0


From 756aaa7370194d0a8dfaa119778e175b14a392f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 09/21] fix: print tuple-like ranges as ranges

A std::ranges::subrange is tuple-like, thus its iterators have been printed
instead of its elements.
---
 include/mimic++/Printer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index dd736ea..1af4454 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -440,6 +440,7 @@ namespace mimicpp::detail
 			requires std::convertible_to<typename std::tuple_size<T>::type, std::size_t>;
 			requires 0u <= std::tuple_size_v<T>;
 		}
+		&& (!std::ranges::forward_range<T>)
 	class Printer<T>
 	{
 	public:
-- 
2.43.0


From ee8ff74f8b5ffde7d94da3edd85a8501f46c01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 10/21] fix: comparison matchers accept pairs and tuples as
 expected values

---
 include/mimic++/Matcher.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index d082e48..7ee3d7d 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -353,7 +353,7 @@ namespace mimicpp::matches
 			std::equal_to{},
 			"== {}",
 			"!= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -370,7 +370,7 @@ namespace mimicpp::matches
 			std::not_equal_to{},
 			"!= {}",
 			"== {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -387,7 +387,7 @@ namespace mimicpp::matches
 			std::less{},
 			"< {}",
 			">= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -404,7 +404,7 @@ namespace mimicpp::matches
 			std::less_equal{},
 			"<= {}",
 			"> {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -421,7 +421,7 @@ namespace mimicpp::matches
 			std::greater{},
 			"> {}",
 			"<= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -438,7 +438,7 @@ namespace mimicpp::matches
 			std::greater_equal{},
 			">= {}",
 			"< {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
-- 
2.43.0


From 7b594fffea7c568a9bb3da981c4df32dd62d9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 11/21] fix: print the elements of std::vector<bool>

---
 include/mimic++/Printer.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index 1af4454..acde4b0 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -23,6 +23,7 @@
 #include <string>
 #include <string_view>
 #include <utility>
+#include <vector>
 
 #ifndef MIMICPP_CONFIG_USE_FMT
 	#include <format>
@@ -400,6 +401,19 @@ namespace mimicpp::detail
 		}
 	};
 
+	// The elements of std::vector<bool> are accessed via a proxy.
+	template <>
+	class Printer<std::vector<bool>::reference>
+	{
+	public:
+		template <print_iterator OutIter>
+		static OutIter print(OutIter out, const bool value)
+		{
+			constexpr PrintFn print{};
+			return print(std::move(out), value);
+		}
+	};
+
 	template <typename T>
 	class Printer<std::optional<T>>
 	{
-- 
2.43.0


From 493b1b8c6c07f6083c74856122c1a154cbc77d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 12/21] fix: print user defined tuple-like types

Only types of the standard library could be accessed via std::get, any
other tuple-like argument type failed to compile.
---
 include/mimic++/Printer.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index acde4b0..7f57eae 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -441,10 +441,21 @@ namespace mimicpp::detail
 			out = format::format_to(std::move(out), ", ");
 		}
 
+		// user defined tuple-like types may provide either a member or a (via adl available) free get function
 		constexpr PrintFn printer{};
-		return printer(
-			std::move(out), 
-			std::get<index>(std::forward<Tuple>(tuple)));
+		if constexpr (requires { std::forward<Tuple>(tuple).template get<index>(); })
+		{
+			return printer(
+				std::move(out),
+				std::forward<Tuple>(tuple).template get<index>());
+		}
+		else
+		{
+			using std::get;
+			return printer(
+				std::move(out),
+				get<index>(std::forward<Tuple>(tuple)));
+		}
 	}
 
 	template <typename T>
-- 
2.43.0


From dd8e81a764840feac007d9ad856076aaa0c710ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 13/21] fix: accept arrays of non-character types

string_traits of such arrays derived from an incomplete type, thus
printing or comparing them failed to compile.
---
 include/mimic++/String.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index f3af18c..2010133 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -284,6 +284,7 @@ namespace mimicpp
 	 */
 	template <typename T>
 		requires std::is_array_v<T>
+				&& is_character_v<std::remove_cv_t<std::remove_extent_t<T>>>
 	struct string_traits<T>
 		: public string_traits<std::remove_extent_t<T>*>
 	{
-- 
2.43.0


From 9d4aab355e2abc1193abc0b809b006a650045da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 14/21] fix: determine noexcept of returns_result_of by the
 actual invocation

The stored function is invoked as mutable lvalue, but the exception
specification was derived from the category of the given argument; thus
exceptions of such functions could terminate the program.
---
 include/mimic++/ExpectationPolicies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/ExpectationPolicies.hpp b/include/mimic++/ExpectationPolicies.hpp
index de5e020..0c20fce 100644
--- a/include/mimic++/ExpectationPolicies.hpp
+++ b/include/mimic++/ExpectationPolicies.hpp
@@ -473,7 +473,7 @@ namespace mimicpp::finally
 		return expectation_policies::ReturnsResultOf{
 			[
 				fn = std::forward<Fun>(fun)
-			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<decltype(fun)>) -> decltype(auto)
+			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<std::remove_cvref_t<Fun>&>) -> decltype(auto)
 			{
 				return std::invoke(fn);
 			}
-- 
2.43.0


From c5b89da30ac3aefb450edbe421d3c789e3b1a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 15/21] fix: strip parentheses of types when building interface
 mock signatures

---
 include/mimic++/InterfaceMock.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/mimic++/InterfaceMock.hpp b/include/mimic++/InterfaceMock.hpp
index ea80a55..60d082c 100644
--- a/include/mimic++/InterfaceMock.hpp
+++ b/include/mimic++/InterfaceMock.hpp
@@ -147,6 +147,18 @@ namespace mimicpp
  */
 #define MIMICPP_DETAIL_EXPAND1(...) __VA_ARGS__
 
+/**
+ * \brief Pastes the first of the given arguments.
+ * \ingroup MOCK_INTERFACES_DETAIL_FOR_EACH
+ */
+#define MIMICPP_DETAIL_FIRST(...) MIMICPP_DETAIL_FIRST_(__VA_ARGS__, )
+
+/**
+ * \brief Pastes the first of the given arguments.
+ * \ingroup MOCK_INTERFACES_DETAIL_FOR_EACH
+ */
+#define MIMICPP_DETAIL_FIRST_(first, ...) first
+
 /**
  * \brief Calls the given macro with all other arguments.
  * \ingroup MOCK_INTERFACES_DETAIL_FOR_EACH
@@ -202,11 +214,15 @@ namespace mimicpp
  * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
  * \param sequence Unused.
  * \param bound_data Unused.
- * \param ret The return type.
- * \param param_type_list The parameter types.
+ * \param ret The return type. Enclosing parentheses will be stripped.
+ * \param param_type_list The parameter types. Used only if there is no list of named parameters.
  * \param specs Additional specs (e.g. ``const``, ``noexcept``).
+ * \param ... The list of named parameters, where the types are already stripped from enclosing parentheses, and further ignored elements.
  */
-#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...) ret param_type_list specs
+#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...)	\
+	MIMICPP_DETAIL_STRIP_PARENS(ret)															\
+	MIMICPP_DETAIL_FIRST(__VA_ARGS__ __VA_OPT__(,) param_type_list)								\
+	MIMICPP_DETAIL_STRIP_PARENS(specs)
 
 /**
  * \brief Converts all given arguments to a signature list (not enclosed by parentheses).
-- 
2.43.0


From d41e32a4c243915676cfcfb5f3a5472dca2b4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 16/21] fix: forward rvalue-qualified interface methods to the
 rvalue overload of the mock

---
 include/mimic++/InterfaceMock.hpp | 52 ++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/include/mimic++/InterfaceMock.hpp b/include/mimic++/InterfaceMock.hpp
index 60d082c..39e061d 100644
--- a/include/mimic++/InterfaceMock.hpp
+++ b/include/mimic++/InterfaceMock.hpp
@@ -368,6 +368,54 @@ namespace mimicpp
 	 */
 }
 
+namespace mimicpp::detail
+{
+	template <typename Signature>
+	struct is_rvalue_qualified
+		: public std::false_type
+	{
+	};
+
+	template <typename Return, typename... Params>
+	struct is_rvalue_qualified<Return(Params...) &&>
+		: public std::true_type
+	{
+	};
+
+	template <typename Return, typename... Params>
+	struct is_rvalue_qualified<Return(Params...) const &&>
+		: public std::true_type
+	{
+	};
+
+	template <typename Return, typename... Params>
+	struct is_rvalue_qualified<Return(Params...) && noexcept>
+		: public std::true_type
+	{
+	};
+
+	template <typename Return, typename... Params>
+	struct is_rvalue_qualified<Return(Params...) const && noexcept>
+		: public std::true_type
+	{
+	};
+
+	// Gives the mock the value category, with which the overridden method has been called.
+	template <typename Signature, typename Mock>
+	[[nodiscard]]
+	constexpr decltype(auto) forward_interface_mock(Mock& mock) noexcept
+	{
+		if constexpr (is_rvalue_qualified<Signature>::value)
+		{
+			return static_cast<Mock&&>(mock);
+		}
+		else
+		{
+			return static_cast<Mock&>(mock);
+		}
+	}
+}
+
 /**
  * \brief Create a single overload for the given information.
  * \ingroup MOCK_INTERFACES_DETAIL_MAKE_METHOD_OVERRIDES
@@ -383,7 +431,9 @@ namespace mimicpp
 #define MIMICPP_DETAIL_MAKE_METHOD_OVERRIDE(ignore, mock_name, fn_name, ret, param_type_list, specs, param_list, forward_list, ...)	\
 	inline MIMICPP_DETAIL_STRIP_PARENS(ret) fn_name param_list MIMICPP_DETAIL_STRIP_PARENS(specs) override 							\
 	{																																\
-		return mock_name (MIMICPP_DETAIL_STRIP_PARENS(forward_list));																\
+		return ::mimicpp::detail::forward_interface_mock<																			\
+			MIMICPP_DETAIL_STRIP_PARENS(ret) param_list MIMICPP_DETAIL_STRIP_PARENS(specs)>(mock_name)								\
+			(MIMICPP_DETAIL_STRIP_PARENS(forward_list));																			\
 	}
 
 /**
-- 
2.43.0


From 6aff8241f19e08a9f5988d3f72dc7ffbc2a308a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 17/21] fix: use the prefixed Catch2 warning macro whenever
 only that exists (CATCH_CONFIG_PREFIX_ALL)

---
 include/mimic++/adapters/Catch2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/adapters/Catch2.hpp b/include/mimic++/adapters/Catch2.hpp
index c32ff2c..a0fb906 100644
--- a/include/mimic++/adapters/Catch2.hpp
+++ b/include/mimic++/adapters/Catch2.hpp
@@ -43,7 +43,7 @@ namespace mimicpp::detail::catch2
 
 	inline void send_warning(const StringViewT msg)
 	{
-#ifdef CATCH_CONFIG_PREFIX_MESSAGES
+#ifdef CATCH_WARN
 		CATCH_WARN(msg);
 #else
 		WARN(msg);
-- 
2.43.0


From ba8cc8339883035ce4955594bae7564bbfe2d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 18/21] fix: don't race on the count of an expectation when
 several threads call a mock

---
 include/mimic++/ControlPolicy.hpp | 55 ++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/include/mimic++/ControlPolicy.hpp b/include/mimic++/ControlPolicy.hpp
index 6a5f28a..10af6c1 100644
--- a/include/mimic++/ControlPolicy.hpp
+++ b/include/mimic++/ControlPolicy.hpp
@@ -12,6 +12,7 @@
 #include "mimic++/Sequence.hpp"
 #include "mimic++/Utility.hpp"
 
+#include <atomic>
 #include <cassert>
 #include <limits>
 #include <memory>
@@ -84,6 +85,40 @@ namespace mimicpp::detail
 		int m_Min{1};
 		int m_Max{1};
 	};
+
+	// Calls from other threads may query the counter, while it's incremented.
+	class MatchCounter
+	{
+	public:
+		[[nodiscard]]
+		MatchCounter() = default;
+
+		[[nodiscard]]
+		MatchCounter(const MatchCounter& other) noexcept
+			: m_Value{other.value()}
+		{
+		}
+
+		MatchCounter& operator =(const MatchCounter& other) noexcept
+		{
+			m_Value.store(other.value(), std::memory_order_relaxed);
+			return *this;
+		}
+
+		[[nodiscard]]
+		int value() const noexcept
+		{
+			return m_Value.load(std::memory_order_relaxed);
+		}
+
+		void increment() noexcept
+		{
+			m_Value.fetch_add(1, std::memory_order_relaxed);
+		}
+
+	private:
+		std::atomic<int> m_Value{0};
+	};
 }
 
 namespace mimicpp
@@ -183,20 +218,22 @@ namespace mimicpp
 		[[nodiscard]]
 		constexpr bool is_satisfied() const noexcept
 		{
-			return m_Min <= m_Count
-					&& m_Count <= m_Max;
+			const int count = m_Count.value();
+
+			return m_Min <= count
+					&& count <= m_Max;
 		}
 
 		[[nodiscard]]
 		constexpr bool is_saturated() const noexcept
 		{
-			return m_Count == m_Max;
+			return m_Count.value() == m_Max;
 		}
 
 		[[nodiscard]]
 		constexpr bool is_applicable() const noexcept
 		{
-			return m_Count < m_Max
+			return m_Count.value() < m_Max
 					&& std::apply(
 						[](const auto&... entries) noexcept
 						{
@@ -216,7 +253,7 @@ namespace mimicpp
 				},
 				m_Sequences);
 
-			++m_Count;
+			m_Count.increment();
 
 			update_sequence_states();
 		}
@@ -227,20 +264,20 @@ namespace mimicpp
 			return detail::make_control_state(
 				m_Min,
 				m_Max,
-				m_Count,
+				m_Count.value(),
 				m_Sequences);
 		}
 
 	private:
 		int m_Min;
 		int m_Max;
-		int m_Count{};
+		detail::MatchCounter m_Count{};
 		std::tuple<
 			std::tuple<std::shared_ptr<Sequences>, sequence::Id>...> m_Sequences{};
 
 		constexpr void update_sequence_states() noexcept
 		{
-			if (m_Count == m_Min)
+			if (m_Count.value() == m_Min)
 			{
 				std::apply(
 					[](auto&... entries) noexcept
@@ -249,7 +286,7 @@ namespace mimicpp
 					},
 					m_Sequences);
 			}
-			else if (m_Count == m_Max)
+			else if (m_Count.value() == m_Max)
 			{
 				std::apply(
 					[](auto&... entries) noexcept
-- 
2.43.0


From 670a37979ffcae0a049aac469ae179f98ad49a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:48 +0000
Subject: [PATCH 19/21] fix: exceptions, thrown while a policy is added to an
 expectation, no longer terminate

---
 include/mimic++/ExpectationBuilder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mimic++/ExpectationBuilder.hpp b/include/mimic++/ExpectationBuilder.hpp
index aa7bcaa..3e4c752 100644
--- a/include/mimic++/ExpectationBuilder.hpp
+++ b/include/mimic++/ExpectationBuilder.hpp
@@ -40,7 +40,10 @@ namespace mimicpp
 			SequenceConfig sequenceConfig,
 			FinalizePolicyArg&& finalizePolicyArg,
 			PolicyListArg&& policyListArg
-		) noexcept
+		) noexcept(
+			std::is_nothrow_move_constructible_v<SequenceConfig>
+			&& std::is_nothrow_constructible_v<FinalizePolicy, FinalizePolicyArg>
+			&& std::is_nothrow_constructible_v<PolicyListT, PolicyListArg>)
 			: m_Storage{std::move(storage)},
 			m_TimesConfig{std::move(timesConfig)},
 			m_SequenceConfig{std::move(sequenceConfig)},
-- 
2.43.0


From bd6dc12213124551a0a879520bda962c9473abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 20/21] fix: an expectation, which can't be constructed, no
 longer leaves its entry in a sequence

---
 include/mimic++/Expectation.hpp        |  8 +++++---
 include/mimic++/ExpectationBuilder.hpp | 28 +++++++++++++++++++-------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index db4fc7b..5d9eb63 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -444,9 +444,9 @@ namespace mimicpp
 			&& std::is_nothrow_constructible_v<FinalizerT, FinalizerArg>
 			&& (std::is_nothrow_constructible_v<Policies, PolicyArgs> && ...))
 			: m_SourceLocation{sourceLocation},
-			m_ControlPolicy{std::forward<ControlPolicyArg>(controlArg)},
 			m_Policies{std::forward<PolicyArgs>(args)...},
-			m_Finalizer{std::forward<FinalizerArg>(finalizerArg)}
+			m_Finalizer{std::forward<FinalizerArg>(finalizerArg)},
+			m_ControlPolicy(std::forward<ControlPolicyArg>(controlArg))
 		{
 		}
 
@@ -554,9 +554,11 @@ namespace mimicpp
 
 	private:
 		std::source_location m_SourceLocation;
-		ControlPolicyT m_ControlPolicy;
 		PolicyListT m_Policies;
 		[[no_unique_address]] FinalizerT m_Finalizer{};
+
+		// must be constructed last, because it may register itself in sequences, which can't be undone
+		ControlPolicyT m_ControlPolicy;
 	};
 
 	/**
diff --git a/include/mimic++/ExpectationBuilder.hpp b/include/mimic++/ExpectationBuilder.hpp
index 3e4c752..8ef29aa 100644
--- a/include/mimic++/ExpectationBuilder.hpp
+++ b/include/mimic++/ExpectationBuilder.hpp
@@ -161,25 +161,39 @@ namespace mimicpp
 				finalize_policy_for<FinalizePolicy, Signature>,
 				"For non-void return types, a finalize policy must be set.");
 
+			using ControlPolicyT = decltype(
+				ControlPolicy{
+					std::declval<const detail::TimesConfig&>(),
+					std::declval<const SequenceConfig&>()
+				});
+
+			// Constructing the control-policy extends the sequences. This must not happen before all of the policies,
+			// whose constructors may throw, have been constructed.
+			struct DeferredControlPolicy
+			{
+				const detail::TimesConfig& times;
+				const SequenceConfig& sequences;
+
+				constexpr operator ControlPolicyT() const noexcept
+				{
+					return ControlPolicyT{times, sequences};
+				}
+			};
+
 			return ScopedExpectation{
 				std::move(m_Storage),
 				std::apply(
 					[&](auto&... policies)
 					{
-						ControlPolicy controlPolicy{
-							std::move(m_TimesConfig),
-							std::move(m_SequenceConfig)
-						};
-
 						using ExpectationT = BasicExpectation<
 							Signature,
-							decltype(controlPolicy),
+							ControlPolicyT,
 							FinalizePolicy,
 							Policies...>;
 
 						return std::make_unique<ExpectationT>(
 							sourceLocation,
-							std::move(controlPolicy),
+							DeferredControlPolicy{m_TimesConfig, m_SequenceConfig},
 							std::move(m_FinalizePolicy),
 							std::move(policies)...);
 					},
-- 
2.43.0


From 025f057793ccc002eade7faad8d340af3f4200df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:33 +0000
Subject: [PATCH 21/21] fix: the Catch2 adapter includes what its matcher
 integration specializes

With MIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION the header only compiled when
mimic++/Matcher.hpp happened to be included before it.
---
 include/mimic++/adapters/Catch2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mimic++/adapters/Catch2.hpp b/include/mimic++/adapters/Catch2.hpp
index a0fb906..8aeffa1 100644
--- a/include/mimic++/adapters/Catch2.hpp
+++ b/include/mimic++/adapters/Catch2.hpp
@@ -81,6 +81,8 @@ namespace mimicpp::detail::catch2
 
 #ifdef MIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION
 
+#include "mimic++/Matcher.hpp"
+
 #include <catch2/matchers/catch_matchers_templated.hpp>
 
 template <typename Matcher>
-- 
2.43.0

