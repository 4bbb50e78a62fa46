// Bitcode bodies for the few library symbols that the C++ headers expect from the shared libraries
// (C string functions, std::string members, std::__sort instantiations, prime table helper).
// They follow the documented behaviour of those functions and are part of the trusted base.
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <memory>
#include <cmath>
template class std::basic_string<char>;
template std::string std::operator+<char, std::char_traits<char>, std::allocator<char>>(char const*, std::string const&);
namespace std { inline namespace __1 {
// std::sort on plain numbers: the result is the unique ordered permutation, so a branch-free network stands in
// for the library's introsort on short arrays; long ones use libc++'s own introsort.
template <class C, class I> void __sort(I f, I l, C comp) {
  ptrdiff_t n = l - f; less<void> lt;
  if (n > 48) { std::__introsort<_ClassicAlgPolicy, less<void>&, I, false>(f, l, lt, 64); return; }
  for (ptrdiff_t i = 0; i + 1 < n; i++) for (ptrdiff_t j = 0; j + 1 < n - i; j++) { auto a = f[j], b = f[j + 1]; bool s = b < a; f[j] = s ? b : a; f[j + 1] = s ? a : b; }
}
} }
#define SORT(T) template void std::__sort<std::__less<T>&, T*>(T*, T*, std::__less<T>&);
SORT(char) SORT(signed char) SORT(unsigned char) SORT(short) SORT(unsigned short) SORT(int) SORT(unsigned) SORT(long) SORT(unsigned long) SORT(long long) SORT(unsigned long long) SORT(float) SORT(double)
namespace std { inline namespace __1 {
size_t __next_prime(size_t n) { if (n <= 2) return n < 2 ? (n ? 2 : 0) : 2; for (n |= 1;; n += 2) { bool p = true; for (size_t d = 3; d * d <= n; d += 2) if (n % d == 0) { p = false; break; } if (p) return n; } }
__shared_count::~__shared_count() {}
__shared_weak_count::~__shared_weak_count() {}
void __shared_weak_count::__release_weak() noexcept { if (__shared_weak_owners_-- == 0) __on_zero_shared_weak(); }
const void* __shared_weak_count::__get_deleter(const type_info&) const noexcept { return nullptr; }
} }
