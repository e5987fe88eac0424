// Memory accesses as scheduling points.  Code compiled with -fsanitize=thread and linked without its
// run-time calls these functions at every access.  First the accesses of one run are collected: code which
// touches data that several fibers use, one of them writing, is "hot"; then each hot access is a place
// where another fiber may go on.
#include "vos.h"
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace vos
{
bool onOwnStack(const void* p);
namespace fine
{
static int mode = 0;			// 0 off, 1 collect, 2 schedule, 3 ignore
bool busy = false;
struct Use
{
	uint64_t readers = 0, writers = 0;
	std::unordered_set<uintptr_t> pcs;
};
static std::unordered_map<uintptr_t, Use>* uses;
static std::unordered_set<uintptr_t> hot, dull;
long accesses = 0;
static long window = 0;
static std::unordered_map<int, long> used;

static inline void touch(const void* p, size_t n, bool write, void* pc)
{
	if (!mode || busy)
		return;
	if (mode == 3)
	{
		dull.insert((uintptr_t) pc);
		return;
	}
	int c = current();
	if (c < 0 || onOwnStack(p))
		return;
	if (mode == 2)
	{
		if (!hot.count((uintptr_t) pc))
			return;
		accesses++;
		if (window && ++used[c] > window)
			return;
		yieldPoint("data");
		return;
	}
	busy = true;
	for (uintptr_t a = (uintptr_t) p >> 3; a <= ((uintptr_t) p + n - 1) >> 3; a++)
	{
		Use& u = (*uses)[a];
		(write ? u.writers : u.readers) |= 1ull << (c & 63);
		u.pcs.insert((uintptr_t) pc);
	}
	busy = false;
}
void collect()
{
	uses = new std::unordered_map<uintptr_t, Use>;
	mode = 1;
}
void ignore(bool on) { mode = on ? 3 : 0; }
std::vector<uintptr_t> hotCode()
{
	mode = 0;
	std::unordered_set<uintptr_t> s;
	for (auto& u : *uses)
	{
		uint64_t all = u.second.readers | u.second.writers;
		if (!u.second.writers || !(all & (all - 1)))
			continue;
		for (uintptr_t pc : u.second.pcs)
			if (!dull.count(pc))
				s.insert(pc);
	}
	return std::vector<uintptr_t>(s.begin(), s.end());
}
void off() { mode = 0; }
void schedule(const std::vector<uintptr_t>& pcs, long most)
{
	window = most;
	used.clear();
	hot.clear();
	hot.insert(pcs.begin(), pcs.end());
	mode = 2;
}
}
}
using vos::fine::touch;
#define PC __builtin_return_address(0)
#define RW(n) \
	void __tsan_read##n(void* p) { touch(p, n, false, PC); } \
	void __tsan_write##n(void* p) { touch(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { touch(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { touch(p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { touch(p, n, false, PC); } \
	void __tsan_volatile_write##n(void* p) { touch(p, n, true, PC); }
extern "C" {
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { touch(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { touch(p, 8, false, PC); }
void __tsan_read_range(void* p, size_t n) { if (n) touch(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) touch(p, n, true, PC); }
// atomic operations of the code under test
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int) { touch((const void*) p, sizeof(T), false, PC); return *p; } \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int) { touch((const void*) p, sizeof(T), true, PC); *p = v; } \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { touch((const void*) p, sizeof(T), true, PC); T o = *p; *p = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { touch((const void*) p, sizeof(T), true, PC); T o = *p; *p = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { touch((const void*) p, sizeof(T), true, PC); T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { touch((const void*) p, sizeof(T), true, PC); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { touch((const void*) p, sizeof(T), true, PC); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { touch((const void*) p, sizeof(T), true, PC); T o = *p; *p = o ^ v; return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { touch((const void*) p, sizeof(T), true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { touch((const void*) p, sizeof(T), true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
