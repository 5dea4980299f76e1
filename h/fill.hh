// Gives every object made with `new` a definite garbage content, so that a member that is read before it is set has a wrong value.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
static unsigned char fill_byte = 0xa5;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, fill_byte, n < 65536 ? n : 65536); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
