// The test suite of one framework: FRAMEWORK 0 Catch2, 1 doctest, 2 GoogleTest, 3 Boost.Test.
// It writes what the framework reports to the file named by MIMIC_OUT.
#include "run.hpp"

using adapter::note;
using adapter::Owner;

namespace
{
	void failed(const std::string& text)
	{
		note("FAIL" + adapter::facts(text));
		note("TEXT " + adapter::flat(text));
	}
	void warned(const std::string& text) { note("WARN" + adapter::facts(text)); }
}

#define PLAIN(i) { Owner{}.run(i); }

#if FRAMEWORK == 0
#include <mimic++/adapters/Catch2.hpp>
#include <catch2/catch_test_case_info.hpp>
#include <catch2/reporters/catch_reporter_event_listener.hpp>
#include <catch2/reporters/catch_reporter_registrars.hpp>

#ifdef CATCH_CONFIG_PREFIX_ALL
#define TEST_CASE CATCH_TEST_CASE
#define TEST_CASE_METHOD CATCH_TEST_CASE_METHOD
#define CHECK CATCH_CHECK
#endif

namespace
{
	class Listener final : public Catch::EventListenerBase
	{
		using EventListenerBase::EventListenerBase;
		void testCaseStarting(const Catch::TestCaseInfo& i) override { note("BEGIN " + i.name); }
		void assertionEnded(const Catch::AssertionStats& s) override
		{
			const auto& r = s.assertionResult;
			if (r.getResultType() == Catch::ResultWas::ExplicitFailure) failed(std::string{r.getMessage()});
			if (r.getResultType() == Catch::ResultWas::Warning) warned(std::string{r.getMessage()});
		}
		void testCaseEnded(const Catch::TestCaseStats& s) override { note(s.totals.testCases.failed ? "END failed" : "END passed"); }
	};
	CATCH_REGISTER_LISTENER(Listener)
}
void adapter::nativeCheck(bool b) { CHECK(b); }
TEST_CASE("t0") PLAIN(0)
TEST_CASE_METHOD(Owner, "t1") { run(1); }
TEST_CASE("t2") PLAIN(2)
TEST_CASE_METHOD(Owner, "t3") { run(3); }
TEST_CASE("t4") PLAIN(4)
TEST_CASE_METHOD(Owner, "t5") { run(5); }

#elif FRAMEWORK == 1
#define DOCTEST_CONFIG_IMPLEMENT_WITH_MAIN
#include <mimic++/adapters/Doctest.hpp>

namespace
{
	struct Listener final : doctest::IReporter
	{
		explicit Listener(const doctest::ContextOptions&) {}
		void report_query(const doctest::QueryData&) override {}
		void test_run_start() override {}
		void test_run_end(const doctest::TestRunStats&) override {}
		void test_case_start(const doctest::TestCaseData& d) override { note(std::string{"BEGIN "} + d.m_name); }
		void test_case_reenter(const doctest::TestCaseData&) override {}
		void test_case_end(const doctest::CurrentTestCaseStats& s) override { note(s.testCaseSuccess ? "END passed" : "END failed"); }
		void test_case_exception(const doctest::TestCaseException&) override {}
		void subcase_start(const doctest::SubcaseSignature&) override {}
		void subcase_end() override {}
		void log_assert(const doctest::AssertData&) override {}
		void log_message(const doctest::MessageData& d) override
		{
			if (d.m_severity & doctest::assertType::is_warn) warned(d.m_string.c_str());
			else failed(d.m_string.c_str());
		}
		void test_case_skipped(const doctest::TestCaseData&) override {}
	};
	DOCTEST_REGISTER_LISTENER("listener", 1, Listener);
}
void adapter::nativeCheck(bool b) { DOCTEST_CHECK(b); }
DOCTEST_TEST_CASE("t0") PLAIN(0)
DOCTEST_TEST_CASE_FIXTURE(Owner, "t1") { run(1); }
DOCTEST_TEST_CASE("t2") PLAIN(2)
DOCTEST_TEST_CASE_FIXTURE(Owner, "t3") { run(3); }
DOCTEST_TEST_CASE("t4") PLAIN(4)
DOCTEST_TEST_CASE_FIXTURE(Owner, "t5") { run(5); }

#elif FRAMEWORK == 2
#include <mimic++/adapters/gtest.hpp>

namespace
{
	class Listener final : public testing::EmptyTestEventListener
	{
		void OnTestStart(const testing::TestInfo& i) override { note(std::string{"BEGIN "} + i.name()); }
		void OnTestPartResult(const testing::TestPartResult& r) override
		{
			const std::string t{r.message()};
			// of an exception that leaves the test body, or of a native check
			if (r.failed() && t.find("thrown in") == std::string::npos && t.find("Value of: b") == std::string::npos) failed(t);
		}
		void OnTestEnd(const testing::TestInfo& i) override { note(i.result()->Failed() ? "END failed" : "END passed"); }
	};
	struct Fixture : testing::Test, Owner {};
}
void adapter::nativeCheck(bool b) { EXPECT_TRUE(b); }
TEST(Plain, t0) PLAIN(0)
TEST_F(Fixture, t1) { run(1); }
TEST(Plain, t2) PLAIN(2)
TEST_F(Fixture, t3) { run(3); }
TEST(Plain, t4) PLAIN(4)
TEST_F(Fixture, t5) { run(5); }

int main(int argc, char** argv)
{
	testing::InitGoogleTest(&argc, argv);
	testing::UnitTest::GetInstance()->listeners().Append(new Listener{});
	return RUN_ALL_TESTS();
}

#else
#define BOOST_TEST_MODULE suite
#include <mimic++/adapters/BoostTest.hpp>
#include <boost/test/results_collector.hpp>
#include <boost/test/unit_test_log_formatter.hpp>

namespace but = boost::unit_test;
namespace
{
	struct Formatter final : but::unit_test_log_formatter
	{
		log_entry_types type{};
		std::string text{};
		void log_start(std::ostream&, but::counter_t) override {}
		void log_finish(std::ostream&) override {}
		void log_build_info(std::ostream&, bool) override {}
		void test_unit_start(std::ostream&, const but::test_unit&) override {}
		void test_unit_finish(std::ostream&, const but::test_unit&, unsigned long) override {}
		void test_unit_skipped(std::ostream&, const but::test_unit&, but::const_string) override {}
		void log_exception_start(std::ostream&, const but::log_checkpoint_data&, const boost::execution_exception&) override {}
		void log_exception_finish(std::ostream&) override {}
		void log_entry_start(std::ostream&, const but::log_entry_data&, log_entry_types t) override
		{
			type = t;
			text.clear();
		}
		void log_entry_value(std::ostream&, but::const_string v) override { text.append(v.begin(), v.end()); }
		void log_entry_finish(std::ostream&) override
		{
			if (text.find("native") != std::string::npos) return;
			if (type == BOOST_UTL_ET_ERROR || type == BOOST_UTL_ET_FATAL_ERROR) failed(text);
			// a message: warnings begin with this word
			else if (text.rfind("warning", 0) == 0 || type == BOOST_UTL_ET_WARNING)
			{
				if (!adapter::facts(text).empty()) warned(text);
			}
		}
		void entry_context_start(std::ostream&, but::log_level) override {}
		void log_entry_context(std::ostream&, but::log_level, but::const_string) override {}
		void entry_context_finish(std::ostream&, but::log_level) override {}
	};
	struct Observer final : but::test_observer
	{
		int priority() override { return 100; }
		void test_unit_start(const but::test_unit& u) override
		{
			if (u.p_type == but::TUT_CASE) note("BEGIN " + u.p_name.get());
		}
		void test_unit_finish(const but::test_unit& u, unsigned long) override
		{
			if (u.p_type == but::TUT_CASE) note(but::results_collector.results(u.p_id).passed() ? "END passed" : "END failed");
		}
	};
	struct Global
	{
		static Observer& observer()
		{
			static Observer o{};
			return o;
		}
		Global()
		{
			but::unit_test_log.set_formatter(new Formatter{});
			but::unit_test_log.set_threshold_level(but::log_successful_tests);
			but::framework::register_observer(observer());
		}
	};
}
BOOST_TEST_GLOBAL_FIXTURE(Global);
void adapter::nativeCheck(bool b) { BOOST_CHECK_MESSAGE(b, "native check"); }
BOOST_AUTO_TEST_CASE(t0) PLAIN(0)
BOOST_FIXTURE_TEST_CASE(t1, Owner) { run(1); }
BOOST_AUTO_TEST_CASE(t2) PLAIN(2)
BOOST_FIXTURE_TEST_CASE(t3, Owner) { run(3); }
BOOST_AUTO_TEST_CASE(t4) PLAIN(4)
BOOST_FIXTURE_TEST_CASE(t5, Owner) { run(5); }
#endif
