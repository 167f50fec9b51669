// Call sites with known file, line and function. Every site is one line: at(file, line, function), the statement, done().
#ifdef PRETTY_FUNCTION
#define FN __PRETTY_FUNCTION__
#else
#define FN __FUNCTION__
#endif
#line 7 "plain.cpp"
static void s0(const LEVELS& l, const std::string& t, Exp& e) { e.at("plain.cpp", 7, FN); LOG(l) << t; e.done(); }
#line 1 "/abs/dir.with.dots/name with blanks.cc"
static void s1(const LEVELS& l, const std::string& t, Exp& e) { e.at("/abs/dir.with.dots/name with blanks.cc", 1, FN); LOG(l) << t.substr(0, 5) << t.substr(5); e.done(); }
#line 999999 "..\\win\\style\\file.cpp"
static void s2_a_function_with_a_rather_long_name_that_has_to_survive_unchanged_and_untruncated_in_the_record(const LEVELS& l, const std::string& t, Exp& e) { e.at("..\\win\\style\\file.cpp", 999999, FN); LOG_IF(l, t.size() > 2) << t; e.done(); }
#line 65536 "/p/(copy)/main (1).cpp"
static void s3(const LEVELS& l, const std::string& t, Exp& e) { e.at("/p/(copy)/main (1).cpp", 65536, FN); auto f = [&] { e.fn = FN; LOG(l) << t; }; f(); e.done(); }
#line 2147483647 "/mixed\\sep/x.hpp"
static void s4(const LEVELS& l, const std::string& t, Exp& e) { e.at("/mixed\\sep/x.hpp", 2147483647, FN); LOG(l) << std::string() << t << ""; e.done(); }
#line 65535 "/very/long/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/end_of_a_very_long_file_name_0123456789012345678901234567890123456789012345678901234567890123456789.cpp"
template <int N> static void s5(const LEVELS& l, const std::string& t, Exp& e) { e.at("/very/long/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/0123456789012345678901234567890123456789/end_of_a_very_long_file_name_0123456789012345678901234567890123456789012345678901234567890123456789.cpp", 65535, FN); LOG(l) << t; e.done(); }
#line 32768 "fmt/printf.c++"
static void s6(const LEVELS& l, const std::string& t, Exp& e) { if (!e.printable()) { s0(l, t, e); return; } e.at("fmt/printf.c++", 32768, FN); LOGF(l, "%s", t.c_str()); e.done(); }
#line 100 "/f"
static void s7(const LEVELS& l, const std::string& t, Exp& e) { if (!e.printable()) { s1(l, t, e); return; } e.at("/f", 100, FN); LOGF_IF(l, !t.empty(), "%s%s", t.substr(0, 3).c_str(), t.c_str() + 3); e.done(); }
#line 4242 "dir/ends/here/"
static void s8(const LEVELS& l, const std::string& t, Exp& e) { e.at("dir/ends/here/", 4242, FN); LOG(l) << t; e.done(); }
#line 12 "op.cpp"
struct S9 { void operator()(const LEVELS& l, const std::string& t, Exp& e) const { e.at("op.cpp", 12, FN); LOG(l) << t; e.done(); } };
#line 13 "spaces in/\xc3\xa5\xc3\xa4\xc3\xb6.cpp"
static void s10(const LEVELS& l, const std::string& t, Exp& e) { e.at("spaces in/\xc3\xa5\xc3\xa4\xc3\xb6.cpp", 13, FN); LOG(l) << t; e.done(); }
#line 31 "chk/contract.cpp"
static void c0(const LEVELS&, const std::string& t, Exp& e) { e.at("chk/contract.cpp", 31, FN); e.expr = "t == \"a \\\"quoted\\\" text\""; e.lv = &g3::internal::CONTRACT; CHECK(t == "a \"quoted\" text") << t; e.done(); }
#line 33 "/chk/contractf.cpp"
static void c1(const LEVELS&, const std::string& t, Exp& e) { if (!e.printable()) { c0(INFO, t, e); return; } e.at("/chk/contractf.cpp", 33, FN); e.expr = "t.empty() && (1 < 2) && (t.size() % 7) == 99"; e.lv = &g3::internal::CONTRACT; CHECKF(t.empty() && (1 < 2) && (t.size() % 7) == 99, "%s", t.c_str()); e.done(); }
#line 35 "/chk/contract_f.cpp"
static void c2(const LEVELS&, const std::string& t, Exp& e) { if (!e.printable()) { c0(INFO, t, e); return; } e.at("/chk/contract_f.cpp", 35, FN); e.expr = "false"; e.lv = &g3::internal::CONTRACT; CHECK_F(false, "%s", t.c_str()); e.done(); }
#line 36 "chk/macro.cpp"
static void c3(const LEVELS&, const std::string& t, Exp& e) { e.at("chk/macro.cpp", 36, FN); e.expr = "SIGABRT == VF_NEVER"; e.lv = &g3::internal::CONTRACT; CHECK(SIGABRT == VF_NEVER) << t; e.done(); }
#line 26 "sites.inc"
