PRELUDE = r'''
#include <strf.hpp>
extern "C" {
int sa_pick(int lo, int hi) noexcept;
int sa_unit(int lo, int hi) noexcept;
unsigned long sa_num(int base, int ndigits, unsigned long max) noexcept;
int sa_digit(int i) noexcept;
long sa_nd(long lo, long hi) noexcept;
void sa_assert(bool, const char*) noexcept;
void sa_assume(bool) noexcept;
void* sa_region(int kind_and_index, int unit) noexcept;
void sa_window(const void* lo, const void* hi) noexcept;
void sa_touch(const void* p, long bytes) noexcept;
void sa_peek(const void* p, long bytes) noexcept;
void sa_inside(const void* p, const void* lo, const void* hi, const char*) noexcept;
void sa_copied(const void* dst, const void* src, long bytes, const char*) noexcept;
bool sa_same(const void*, const void*) noexcept;
void sa_zeroed(const void* p, long bytes, const char*) noexcept;
}
'''
