// Stand-in for <cassert>, first on the include path of the harnesses: assertion reports of the code under
// test become observations of the explorer instead of ending the process. With NDEBUG the real rule holds.
#undef assert
#ifdef NDEBUG
#define assert(...) ((void)0)
#else
namespace mc {
[[noreturn]] void on_assert(const char* expr, const char* file, int line);
}
#define assert(...) ((__VA_ARGS__) ? (void)0 : ::mc::on_assert(#__VA_ARGS__, __FILE__, __LINE__))
#endif
