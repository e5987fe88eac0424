#include <algorithm>
#include "vos.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <netdb.h>
#include <netinet/in.h>
#include <termios.h>
#include <arpa/inet.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/syscall.h>
#include <time.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, size_t* size);
#else
#define __sanitizer_start_switch_fiber(a, b, c) ((void) 0)
#define __sanitizer_finish_switch_fiber(a, b, c) ((void) 0)
#endif
namespace __cxxabiv1
{
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals();
}

// swapcontext without its system call
extern "C" void vos_switch(void** save, void* to);
asm(R"(
.text
.globl vos_switch
.type vos_switch, @function
vos_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size vos_switch, .-vos_switch
)");

namespace vos
{
static const size_t STACK = 256 * 1024;
struct Fiber
{
	std::string name;
	std::function<void()> body;
	void* ctx = nullptr;
	char* stack = nullptr;
	void* fake = nullptr;
	char eh[16];
	int err = 0;
	bool done = false, blocked = false, timedOut = false;
	std::function<bool()> ready;	// empty while sleeping only
	int64_t deadline = -1;			// -1 none
	const char* where = "";
};

std::vector<Out> outs;
size_t recvCap;
bool failResolve = false;
bool refuseConnect = false, failSocket = false, started = false;
std::function<int(const char*)> faulter;
int64_t stepLimit = 200000;
std::function<int(const std::vector<int>&, const std::vector<int>&, int, const char*)> picker;
std::function<void(const Out&)> onOut;
std::function<void(const std::string&)> onMisuse;

static std::vector<Fiber*> fibers;
static void* schedCtx;
static void* schedFake;
static const void* schedBottom;
static size_t schedSize;
static int cur = -1, last = -1;
static int64_t timeUs = 1000000000LL * 1000000;
static std::map<int, SockP> fds;
static std::vector<SockP> connList;
static std::map<int, void (*)(int)> handlers;
static int forced = -1;
static std::set<const void*> quiet;
static bool noting = false;
void ignoreMutexOf(const std::function<void()>& f)
{
	noting = true;
	fine::ignore(true);
	f();
	fine::ignore(false);
	noting = false;
}

static void out(const Out& o)
{
	outs.push_back(o);
	bool was = fine::busy;
	fine::busy = true;
	if (onOut)
		onOut(o);
	fine::busy = was;
}
static void misuse(const std::string& s)
{
	if (onMisuse)
		onMisuse(s);
	else
	{
		fprintf(stderr, "vos: %s\n", s.c_str());
		abort();
	}
}

int current() { return cur; }
int process = 0;
bool onOwnStack(const void* p)
{
	return cur >= 0 && (char*) p >= fibers[cur]->stack && (char*) p < fibers[cur]->stack + STACK + 4096;
}
int64_t nowUs() { return timeUs; }
bool fiberDone(int n) { return fibers[n]->done; }
int fiberCount() { return fibers.size(); }
const std::string& fiberName(int n) { return fibers[n]->name; }

void init()
{
	started = true;
}

static void toScheduler()
{
	Fiber* f = fibers[cur];
	f->err = errno;
	memcpy(f->eh, (void*) __cxxabiv1::__cxa_get_globals(), 16);
	__sanitizer_start_switch_fiber(f->done ? nullptr : &f->fake, schedBottom, schedSize);
	vos_switch(&f->ctx, schedCtx);
	__sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
	memcpy((void*) __cxxabiv1::__cxa_get_globals(), f->eh, 16);
	errno = f->err;
}

static void trampoline()
{
	__sanitizer_finish_switch_fiber(nullptr, &schedBottom, &schedSize);
	Fiber* f = fibers[cur];
	memset((void*) __cxxabiv1::__cxa_get_globals(), 0, 16);
	f->body();
	f->done = true;
	toScheduler();
}

int spawn(const char* name, std::function<void()> body)
{
	Fiber* f = new Fiber();
	f->name = name;
	f->body = body;
	memset(f->eh, 0, sizeof f->eh);
	f->stack = (char*) mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	mprotect(f->stack, 4096, PROT_NONE);
	void** top = (void**) (f->stack + 4096 + STACK - 64);	// all zero: no caller
	top[0] = (void*) trampoline;
	f->ctx = top - 6;
	fibers.push_back(f);
	return fibers.size() - 1;
}

void forget()
{
	while (!fibers.empty() && fibers.back()->done)
	{
		munmap(fibers.back()->stack, STACK + 4096);
		delete fibers.back();
		fibers.pop_back();
	}
	last = -1;
}

static bool canRun(Fiber* f)
{
	if (f->done)
		return false;
	if (!f->blocked)
		return true;
	if (f->ready && f->ready())
		return true;
	return f->deadline >= 0 && f->deadline <= timeUs;
}

static void switchTo(int n)
{
	Fiber* f = fibers[n];
	if (f->blocked)
	{
		if (!canRun(f) && f->deadline > timeUs)
			timeUs = f->deadline;
		bool r = f->ready && f->ready();
		f->timedOut = !r;
		f->blocked = false;
	}
	cur = last = n;
	char eh[16];
	memcpy(eh, (void*) __cxxabiv1::__cxa_get_globals(), 16);
	int e = errno;
	__sanitizer_start_switch_fiber(&schedFake, f->stack + 4096, STACK);
	vos_switch(&schedCtx, f->ctx);
	__sanitizer_finish_switch_fiber(schedFake, nullptr, nullptr);
	errno = e;
	memcpy((void*) __cxxabiv1::__cxa_get_globals(), eh, 16);
	cur = -1;
}

static void readyList(std::vector<int>& r)
{
	r.clear();
	int n = fibers.size();
	for (int i = 1; i <= n; i++)
	{
		int k = (last + i + n) % n;
		if (canRun(fibers[k]))
			r.push_back(k);
	}
}

static const std::vector<int>& timedList()
{
	static std::vector<int> t;
	t.clear();
	for (size_t i = 0; i < fibers.size(); i++)
		if (!fibers[i]->done && fibers[i]->blocked && fibers[i]->deadline >= 0 && !canRun(fibers[i]))
			t.push_back(i);
	return t;
}

void quiesce()
{
	std::vector<int> r;
	int64_t steps = 0;
	while (true)
	{
		if (fibers.empty())
			return;
		readyList(r);
		if (r.empty())
			return;
		if (++steps > stepLimit)
		{
			misuse("the program does not come to rest (livelock): " + fiberState());
			return;
		}
		int n = r[0];
		if (forced >= 0)
			n = forced;
		else if (picker)
			n = picker(r, timedList(), -1, "block");
		forced = -1;
		switchTo(n);
	}
}

void advance(int64_t usec)
{
	int64_t target = timeUs + usec;
	while (true)
	{
		quiesce();
		int64_t d = -1;
		for (Fiber* f : fibers)
			if (!f->done && f->blocked && f->deadline >= 0 && (d < 0 || f->deadline < d))
				d = f->deadline;
		if (d < 0 || d > target)
			break;
		if (d > timeUs)
			timeUs = d;
	}
	timeUs = target;
	quiesce();
}

std::string fiberState()
{
	std::string s;
	for (Fiber* f : fibers)
		s += f->name + "=" + (f->done ? "done" : f->blocked ? f->where : "running") + " ";
	return s;
}

// true: the condition holds; false: the deadline has passed
static bool block(const char* where, std::function<bool()> ready, int64_t deadline)
{
	if (cur < 0)
	{
		if (ready && ready())
			return true;
		misuse(std::string("blocking call outside a thread: ") + where);
		return false;
	}
	Fiber* f = fibers[cur];
	f->ready = ready;
	f->deadline = deadline;
	f->blocked = true;
	f->where = where;
	toScheduler();
	f->ready = nullptr;
	f->deadline = -1;
	return !f->timedOut;
}

void yieldPoint(const char* what)
{
	if (cur < 0 || !picker)
		return;
	std::vector<int> r;
	bool was = fine::busy;
	fine::busy = true;
	readyList(r);
	// the running fiber is not blocked, so it is in r
	int n = picker(r, timedList(), cur, what);
	fine::busy = was;
	if (n == cur)
		return;
	// let n run next: leave through the scheduler, which asks nobody
	Fiber* f = fibers[cur];
	f->blocked = false;
	f->where = what;
	forced = n;
	toScheduler();
}
// A call which fails at once, probably in a loop: no scheduler lets the loop run for ever while others can go on.
static void spinning()
{
	if (cur < 0 || !picker)
		return;
	std::vector<int> r;
	readyList(r);
	if (r.size() < 2)
		return;
	Fiber* f = fibers[cur];
	f->blocked = false;
	f->where = "spinning";
	forced = r[0] == cur ? r[1] : r[0];
	toScheduler();
}
bool inject(uint16_t port, uint32_t ip, uint16_t sport, const std::string& data)
{
	for (auto& p : fds)
		if (!p.second->tcp && p.second->port == port)
		{
			p.second->dgrams.push_back({ ip, sport, data });
			return true;
		}
	return false;
}
static std::vector<SockP> made;
static std::vector<std::string> hosts;
static uint32_t addressOf(const std::string& host)
{
	if (inet_addr(host.c_str()) != INADDR_NONE)
		return inet_addr(host.c_str());
	size_t i = 0;
	while (i < hosts.size() && hosts[i] != host)
		i++;
	if (i == hosts.size())
		hosts.push_back(host);
	return htonl(0xc6120001 + i);
}
std::string hostOf(uint32_t ip)
{
	uint32_t i = ntohl(ip) - 0xc6120001;
	char b[32];
	return i < hosts.size() ? hosts[i] : inet_ntop(AF_INET, &ip, b, sizeof b);
}
std::vector<SockP> sockets() { return made; }
SockP tty(int n)
{
	for (auto& s : made)
		if (s->tty && s->conn == 1000 + n)
			return s;
	return nullptr;
}
int incoming(const SockP& l, const std::string& addr)
{
	static int n = 500;
	SockP s = std::make_shared<Sock>();
	s->tcp = s->connected = true;
	s->family = l->family;
	s->conn = n++;
	made.push_back(s);
	l->pending.push_back({ s, addr });
	return s->conn;
}
SockP conn(int n)
{
	return n >= 0 && n < (int) connList.size() ? connList[n] : SockP();
}
int conns() { return connList.size(); }
int openFds() { return fds.size(); }

bool raiseSignal(int sig)
{
	if (!handlers.count(sig))
		return false;
	handlers[sig](sig);
	return true;
}

static const int FDBASE = 600;
static int newFd(SockP s)
{
	int fd = FDBASE;
	while (fds.count(fd))
		fd++;
	fds[fd] = s;
	return fd;
}
static SockP sock(int fd)
{
	auto it = fds.find(fd);
	return it == fds.end() ? SockP() : it->second;
}
static bool readable(SockP s)
{
	return s->tcp ? (!s->pending.empty() || !s->rx.empty() || s->fin || s->rst) : !s->dgrams.empty();
}

// ---- locks ---------------------------------------------------------------------------------------
struct VMutex		// lives in the pthread_mutex_t (40 bytes)
{
	uint32_t magic;
	int32_t owner;	// fiber + 1, 0 = free
	int32_t count;
	int32_t kind;
};
static_assert(sizeof(VMutex) <= sizeof(pthread_mutex_t), "");
static const uint32_t MUTEX_MAGIC = 0x4d757478, MUTEX_DEAD = 0xdead4d75;

struct VSem			// lives in the sem_t (32 bytes)
{
	uint32_t magic;
	uint32_t value;
};
static_assert(sizeof(VSem) <= sizeof(sem_t), "");
static const uint32_t SEM_MAGIC = 0x53656d61, SEM_DEAD = 0xdead5365;

static VMutex* vm(pthread_mutex_t* m)
{
	VMutex* v = (VMutex*) m;
	if (v->magic == 0)	// PTHREAD_MUTEX_INITIALIZER
	{
		v->magic = MUTEX_MAGIC;
		v->owner = v->count = v->kind = 0;
	}
	if (v->magic != MUTEX_MAGIC)
		misuse(v->magic == MUTEX_DEAD ? "use of a destroyed mutex" : "use of an uninitialised mutex");
	return v;
}
static VSem* vs(sem_t* s)
{
	VSem* v = (VSem*) s;
	if (v->magic != SEM_MAGIC)
		misuse(v->magic == SEM_DEAD ? "use of a destroyed semaphore" : "use of an uninitialised semaphore");
	return v;
}
static std::map<std::string, sem_t*> namedSems;
struct Shm
{
	key_t key;
	size_t size;
	char* mem;				// ends at the end of its last page, after which nothing can be touched
	bool removed;
	std::vector<int> by;	// the processes which have attached it
	char* map;
	size_t mapped;
};
static std::vector<Shm> shms;
} // namespace vos

using namespace vos;

extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_fcntl(int, int, ...);
int __real_shmctl(int, int, struct shmid_ds*);

// ---- threads ---------------------------------------------------------------------------------------
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
	char nm[16];
	snprintf(nm, sizeof nm, "t%d", (int) fibers.size());
	int n = spawn(nm, [fn, arg]() { fn(arg); });
	*t = n + 1;
	yieldPoint("create");
	return 0;
}
int __wrap_pthread_join(pthread_t t, void** ret)
{
	int n = (int) t - 1;
	if (ret)
		*ret = nullptr;
	if (n < 0 || n >= (int) fibers.size())
		return ESRCH;
	if (cur < 0 && !fibers[n]->done)
	{
		misuse("a thread is joined which never ends: " + fiberState());
		return EDEADLK;
	}
	block("join", [n]() { return fibers[n]->done; }, -1);
	return 0;
}
pthread_t __wrap_pthread_self(void) { return cur + 1; }
int __wrap_pthread_detach(pthread_t) { return 0; }

int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	VMutex* v = (VMutex*) m;
	v->magic = MUTEX_MAGIC;
	v->owner = v->count = 0;
	int kind = PTHREAD_MUTEX_DEFAULT;
	if (a)
		pthread_mutexattr_gettype(a, &kind);
	v->kind = kind;
	return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
	VMutex* v = vm(m);
	if (v->owner)
		return EBUSY;
	v->magic = MUTEX_DEAD;
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	VMutex* v = vm(m);
	if (noting)
		quiet.insert(m);
	if (!quiet.count(m))
		yieldPoint("lock");
	if (v->owner == cur + 2)
	{
		if (v->kind == PTHREAD_MUTEX_RECURSIVE)
		{
			v->count++;
			return 0;
		}
		if (v->kind == PTHREAD_MUTEX_ERRORCHECK)
			return EDEADLK;
		misuse("a thread locks a mutex it already holds");
		return EDEADLK;
	}
	if (v->owner)
		block("mutex", [v]() { return v->owner == 0; }, -1);
	v->owner = cur + 2;
	v->count = 1;
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	VMutex* v = vm(m);
	yieldPoint("trylock");
	if (v->owner)
	{
		if (v->owner == cur + 2 && v->kind == PTHREAD_MUTEX_RECURSIVE)
		{
			v->count++;
			return 0;
		}
		return EBUSY;
	}
	v->owner = cur + 2;
	v->count = 1;
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	VMutex* v = vm(m);
	if (v->owner != cur + 2)
	{
		if (v->kind == PTHREAD_MUTEX_ERRORCHECK || v->kind == PTHREAD_MUTEX_RECURSIVE)
			return EPERM;
		misuse(v->owner ? "a thread unlocks a mutex held by another" : "a thread unlocks a mutex nobody holds");
		return 0;
	}
	if (--v->count == 0)
		v->owner = 0;
	if (!quiet.count(m))
		yieldPoint("unlock");
	return 0;
}

struct VCond
{
	uint32_t magic;
	uint32_t seq;		// wakeups granted
	uint32_t waiters;
	uint32_t grants;
};
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
	memset(c, 0, sizeof(VCond));
	return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
	VCond* v = (VCond*) c;
	v->waiters++;
	__wrap_pthread_mutex_unlock(m);
	bool ok = block("cond", [v]() { return v->grants > 0; }, deadline);
	if (ok)
		v->grants--;
	v->waiters--;
	__wrap_pthread_mutex_lock(m);
	return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	return condWait(c, m, ts->tv_sec * 1000000LL + ts->tv_nsec / 1000);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
	VCond* v = (VCond*) c;
	if (v->grants < v->waiters)
		v->grants++;
	yieldPoint("signal");
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
	VCond* v = (VCond*) c;
	v->grants = v->waiters;
	yieldPoint("broadcast");
	return 0;
}

int __wrap_sem_init(sem_t* s, int, unsigned val)
{
	VSem* v = (VSem*) s;
	v->magic = SEM_MAGIC;
	v->value = val;
	return 0;
}
int __wrap_sem_destroy(sem_t* s)
{
	vs(s)->magic = SEM_DEAD;
	return 0;
}
int __wrap_sem_post(sem_t* s)
{
	vs(s)->value++;
	yieldPoint("post");
	return 0;
}
int __wrap_sem_wait(sem_t* s)
{
	VSem* v = vs(s);
	yieldPoint("wait");
	if (v->value == 0)
		block("sem", [v]() { return v->value > 0; }, -1);
	v->value--;
	return 0;
}
int __wrap_sem_trywait(sem_t* s)
{
	VSem* v = vs(s);
	yieldPoint("trywait");
	if (v->value == 0)
	{
		errno = EAGAIN;
		return -1;
	}
	v->value--;
	return 0;
}
int __wrap_sem_timedwait(sem_t* s, const struct timespec* ts)
{
	VSem* v = vs(s);
	yieldPoint("timedwait");
	if (v->value == 0)
	{
		if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		{
			errno = EINVAL;
			return -1;
		}
		if (!block("semtimed", [v]() { return v->value > 0; }, ts->tv_sec * 1000000LL + ts->tv_nsec / 1000))
		{
			errno = ETIMEDOUT;
			return -1;
		}
	}
	v->value--;
	return 0;
}
int __wrap_sem_getvalue(sem_t* s, int* val)
{
	*val = vs(s)->value;
	return 0;
}
sem_t* __wrap_sem_open(const char* name, int, ...)
{
	va_list ap;
	va_start(ap, name);
	sem_t*& s = namedSems[name];
	if (!s)
	{
		s = (sem_t*) malloc(sizeof(sem_t));
		((VSem*) s)->magic = SEM_MAGIC;
		((VSem*) s)->value = 0;
	}
	va_end(ap);
	return s;
}
int __wrap_sem_close(sem_t*) { return 0; }
int __wrap_sem_unlink(const char* name)
{
	namedSems.erase(name);
	return 0;
}

// ---- time --------------------------------------------------------------------------------------------
int __wrap_gettimeofday(struct timeval* tv, void*)
{
	tv->tv_sec = timeUs / 1000000;
	tv->tv_usec = timeUs % 1000000;
	return 0;
}
int __wrap_clock_gettime(clockid_t, struct timespec* ts)
{
	ts->tv_sec = timeUs / 1000000;
	ts->tv_nsec = timeUs % 1000000 * 1000;
	return 0;
}
time_t __wrap_time(time_t* t)
{
	if (t)
		*t = timeUs / 1000000;
	return timeUs / 1000000;
}
static void sleepUs(int64_t us)
{
	block("sleep", nullptr, timeUs + us);
}
unsigned __wrap_sleep(unsigned s)
{
	sleepUs(s * 1000000LL);
	return 0;
}
int __wrap_usleep(useconds_t us)
{
	sleepUs(us);
	return 0;
}
int __wrap_nanosleep(const struct timespec* ts, struct timespec*)
{
	sleepUs(ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000);
	return 0;
}
int __wrap_sched_yield(void)
{
	yieldPoint("yield");
	return 0;
}

// ---- sockets --------------------------------------------------------------------------------------------
#define FAULT(call) if (faulter) { int err = faulter(call); if (err) { errno = err; return -1; } }
int __wrap_socket(int family, int type, int)
{
	if (failSocket)
	{
		if ((type & 0xff) == SOCK_STREAM)
		{
			Out o;
			o.kind = Out::OPENFAIL;
			out(o);
		}
		errno = EMFILE;
		return -1;
	}
	FAULT("socket")
	SockP s = std::make_shared<Sock>();
	s->tcp = (type & 0xff) == SOCK_STREAM;
	s->family = family;
	made.push_back(s);
	return newFd(s);
}
#define SOCK_OR_EBADF(s, fd) SockP s = sock(fd); if (!s) { errno = EBADF; return -1; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t len)
{
	SOCK_OR_EBADF(s, fd);
	FAULT("bind")
	s->local.assign((const char*) a, len);
	s->port = ntohs(((const sockaddr_in*) a)->sin_port);
	return 0;
}
int __wrap_setsockopt(int fd, int level, int opt, const void* val, socklen_t len)
{
	SOCK_OR_EBADF(s, fd);
	FAULT("setsockopt")
	if (level == IPPROTO_IPV6 && opt == IPV6_MULTICAST_HOPS)
	{
		s->ttl = *(const int*) val;
		return 0;
	}
	if (level == IPPROTO_IP && opt == IP_MULTICAST_TTL)
	{
		int ttl = len >= 4 ? *(const int*) val : len ? *(const unsigned char*) val : -2;
		if (ttl < -1 || ttl > 255)
		{
			errno = EINVAL;
			return -1;
		}
		s->ttl = ttl < 0 ? 1 : ttl;
		return 0;
	}
	if (level == IPPROTO_IP && opt == IP_ADD_MEMBERSHIP)
	{
		if ((ntohl(((const ip_mreq*) val)->imr_multiaddr.s_addr) >> 28) != 14)
		{
			errno = EINVAL;
			return -1;
		}
		s->mcast = true;
		s->group.assign((const char*) val, sizeof(in_addr));
		return 0;
	}
	if (level == IPPROTO_IPV6 && opt == IPV6_JOIN_GROUP)
		s->group.assign((const char*) val, len);
	return 0;
}
int __wrap_listen(int fd, int)
{
	SOCK_OR_EBADF(s, fd);
	s->listening = true;
	return 0;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* alen)
{
	SOCK_OR_EBADF(s, fd);
	if (!s->pending.empty())
	{
		auto p = s->pending.front();
		s->pending.pop_front();
		if (a)
		{
			memcpy(a, p.second.data(), std::min<size_t>(*alen, p.second.size()));
			*alen = p.second.size();
		}
		return newFd(p.first);
	}
	errno = EAGAIN;
	return -1;
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t)
{
	SOCK_OR_EBADF(s, fd);
	s->remoteIp = ((const sockaddr_in*) a)->sin_addr.s_addr;
	s->remotePort = ntohs(((const sockaddr_in*) a)->sin_port);
	yieldPoint("connect");
	if (refuseConnect)
	{
		Out o;
		o.kind = Out::OPENFAIL;
		out(o);
		errno = ECONNREFUSED;
		return -1;
	}
	s->connected = true;
	s->conn = connList.size();
	connList.push_back(s);
	Out o;
	o.kind = Out::OPEN;
	o.conn = s->conn;
	out(o);
	return 0;
}
int __wrap_close(int fd)
{
	if (fd < FDBASE)
		return __real_close(fd);
	yieldPoint("close");
	SOCK_OR_EBADF(s, fd);
	fds.erase(fd);
	s->open = false;
	if (s->connected)
	{
		Out o;
		o.kind = Out::CLOSE;
		o.conn = s->conn;
		out(o);
	}
	return 0;
}
int __wrap_shutdown(int fd, int)
{
	SOCK_OR_EBADF(s, fd);
	return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (fd < FDBASE)
		return __real_fcntl(fd, cmd, arg);
	return 0;
}
int __wrap_poll(struct pollfd* f, nfds_t n, int timeout)
{
	yieldPoint("poll");
	FAULT("poll")
	std::vector<SockP> ss;
	for (nfds_t i = 0; i < n; i++)
	{
		f[i].revents = 0;
		ss.push_back(f[i].fd >= 0 ? sock(f[i].fd) : SockP());
		if (!ss.back() && f[i].fd >= 0)
			f[i].revents = POLLNVAL;
	}
	auto rdy = [&ss]() {
		for (auto& s : ss)
			if (s && readable(s))
				return true;
		return false;
	};
	if (timeout != 0)		// even when ready: a thread which polls in a circle must not keep out the others
		block("poll", rdy, timeout < 0 ? -1 : timeUs + timeout * 1000LL);
	int c = 0;
	for (nfds_t i = 0; i < n; i++)
	{
		if (ss[i] && readable(ss[i]) && (f[i].events & POLLIN))
			f[i].revents |= POLLIN;
		if (f[i].revents)
			c++;
	}
	return c;
}
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set*, struct timeval* tv)
{
	yieldPoint("select");
	FAULT("select")
	std::vector<std::pair<int, SockP>> ss;
	for (int i = 0; i < n; i++)
		if (r && FD_ISSET(i, r))
		{
			SockP s = sock(i);
			if (!s)
			{
				spinning();
				errno = EBADF;
				return -1;
			}
			ss.push_back({ i, s });
		}
	auto rdy = [&ss]() {
		for (auto& s : ss)
			if (readable(s.second))
				return true;
		return false;
	};
	block("select", rdy, tv ? timeUs + tv->tv_sec * 1000000LL + tv->tv_usec : -1);
	int c = 0;
	for (auto& s : ss)
	{
		if (readable(s.second))
			c++;
		else
			FD_CLR(s.first, r);
	}
	return c;
}
ssize_t __wrap_recvfrom(int fd, void* buf, size_t len, int, struct sockaddr* a, socklen_t* alen)
{
	SOCK_OR_EBADF(s, fd);
	FAULT("recvfrom")
	if (s->dgrams.empty())
		block("recvfrom", [s]() { return !s->dgrams.empty(); }, -1);
	Sock::Dg d = s->dgrams.front();
	s->dgrams.pop_front();
	size_t n = d.data.size() < len ? d.data.size() : len;
	memcpy(buf, d.data.data(), n);
	if (a && !d.raw.empty())
	{
		memcpy(a, d.raw.data(), std::min<size_t>(*alen, d.raw.size()));
		*alen = d.raw.size();
	}
	else if (a)
	{
		sockaddr_in* in = (sockaddr_in*) a;
		memset(in, 0, sizeof *in);
		in->sin_family = AF_INET;
		in->sin_addr.s_addr = d.ip;
		in->sin_port = d.port;
		if (alen)
			*alen = sizeof *in;
	}
	return n;
}
ssize_t __wrap_recv(int fd, void* buf, size_t len, int flags)
{
	SOCK_OR_EBADF(s, fd);
	if (!s->tcp)
		return __wrap_recvfrom(fd, buf, len, 0, nullptr, nullptr);
	yieldPoint("recv");
	if (len == 0)
		return 0;
	FAULT("recv")
	if (!readable(s) && (flags & MSG_DONTWAIT))
	{
		errno = EAGAIN;
		return -1;
	}
	if (!readable(s))
		block("recv", [s]() { return readable(s); }, -1);
	if (!s->rx.empty())
	{
		size_t n = s->rx.size() < len ? s->rx.size() : len;
		if (recvCap && n > recvCap)
			n = recvCap;
		memcpy(buf, s->rx.data(), n);
		s->rx.erase(0, n);
		return n;
	}
	if (s->rst)
	{
		errno = ECONNRESET;
		return -1;
	}
	return 0;
}
ssize_t __wrap_sendto(int fd, const void* buf, size_t len, int, const struct sockaddr* a, socklen_t alen)
{
	SOCK_OR_EBADF(s, fd);
	yieldPoint("sendto");
	Out o;
	o.kind = Out::DGRAM;
	o.ip = ((const sockaddr_in*) a)->sin_addr.s_addr;
	o.port = ((const sockaddr_in*) a)->sin_port;
	o.from = s->port;
	if (s->family != AF_INET)
	{
		o.raw.assign((const char*) a, alen);
		if (s->family == AF_INET6 && ((const sockaddr_in6*) a)->sin6_addr.s6_addr[0] == 0xff)
			o.ttl = s->ttl;
	}
	else if ((ntohl(o.ip) >> 28) == 14)
		o.ttl = s->ttl;
	o.data.assign((const char*) buf, len);
	out(o);
	FAULT("sendto")		// a datagram which could not be sent counts as lost later
	yieldPoint("sent");
	return len;
}
ssize_t __wrap_send(int fd, const void* buf, size_t len, int flags)
{
	SOCK_OR_EBADF(s, fd);
	yieldPoint("send");
	std::string d((const char*) buf, len);	// reads all of it
	if (!s->connected)
	{
		errno = ENOTCONN;
		return -1;
	}
	if (s->rst || s->sendFail)
	{
		if (!(flags & MSG_NOSIGNAL) && (!handlers.count(SIGPIPE) || handlers[SIGPIPE] == SIG_DFL))
			misuse("the process is killed by SIGPIPE: it sends on a broken connection");
		errno = EPIPE;
		return -1;
	}
	Out o;
	o.kind = Out::DATA;
	o.conn = s->conn;
	o.data = d;
	out(o);
	yieldPoint("sent");
	return len;
}
ssize_t __wrap_read(int fd, void* buf, size_t len)
{
	return fd < FDBASE ? __real_read(fd, buf, len) : __wrap_recv(fd, buf, len, 0);
}
ssize_t __wrap_write(int fd, const void* buf, size_t len)
{
	return fd < FDBASE ? __real_write(fd, buf, len) : __wrap_send(fd, buf, len, 0);
}
int __wrap_open(const char* path, int flags, ...)
{
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	if (strncmp(path, "/sys/", 5) == 0)
	{
		errno = ENOENT;
		return -1;
	}
	if (strncmp(path, "/dev/vtty", 9) == 0)
	{
		SockP s = std::make_shared<Sock>();
		s->tcp = s->connected = s->tty = true;
		s->conn = 1000 + atoi(path + 9);
		made.push_back(s);
		return newFd(s);
	}
	return __real_open(path, flags, mode);
}
int __wrap_tcsetattr(int fd, int action, const struct termios* t)
{
	SOCK_OR_EBADF(s, fd);
	s->iflag = t->c_iflag, s->oflag = t->c_oflag, s->cflag = t->c_cflag, s->lflag = t->c_lflag;
	if (action == TCSAFLUSH)
		s->rx.clear();
	return 0;
}
int __wrap_getaddrinfo(const char* host, const char* service, const struct addrinfo* h, struct addrinfo** res)
{
	if (failResolve && host && inet_addr(host) == INADDR_NONE)
	{
		Out o;
		o.kind = Out::OPENFAIL;
		out(o);
		return EAI_AGAIN;		// *res stays as it was
	}
	char* m = (char*) calloc(1, sizeof(addrinfo));
	sockaddr_in* in = (sockaddr_in*) calloc(1, sizeof(sockaddr_in));
	addrinfo* a = (addrinfo*) m;
	a->ai_family = AF_INET;
	a->ai_socktype = h ? h->ai_socktype : SOCK_STREAM;
	a->ai_addrlen = sizeof(sockaddr_in);
	a->ai_addr = (sockaddr*) in;
	in->sin_family = AF_INET;
	in->sin_port = htons(service ? atoi(service) : 0);
	in->sin_addr.s_addr = host ? addressOf(host) : htonl(INADDR_LOOPBACK);
	*res = a;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* a)
{
	free(a->ai_addr);
	free(a);
}

// ---- shared memory, signals ---------------------------------------------------------------------------
int __wrap_shmget(key_t key, size_t size, int flg)
{
	for (size_t i = 0; i < shms.size(); i++)
		if (!shms[i].removed && shms[i].key == key)
		{
			if ((flg & IPC_CREAT) && (flg & IPC_EXCL))
			{
				errno = EEXIST;
				return -1;
			}
			if (size > shms[i].size)
			{
				errno = EINVAL;
				return -1;
			}
			return 1000 + i;
		}
	if (!(flg & IPC_CREAT))
	{
		errno = ENOENT;
		return -1;
	}
	size_t pages = (size + 4095) & ~4095ul;
	char* map = (char*) mmap(nullptr, pages + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(map + pages, 4096, PROT_NONE);
	shms.push_back({ key, size, map + pages - ((size + 7) & ~7ul), false, {}, map, pages });
	return 1000 + shms.size() - 1;
}
void* __wrap_shmat(int id, const void*, int)
{
	id -= 1000;
	if (id < 0 || id >= (int) shms.size())
		return (void*) -1;
	if (shms[id].removed && shms[id].by.empty())
	{
		errno = EIDRM;
		return (void*) -1;
	}
	shms[id].by.push_back(process);
	return shms[id].mem;
}
static void detached(Shm& m)
{
	if (m.removed && m.by.empty())
		mprotect(m.map, m.mapped, PROT_NONE);
}
int __wrap_shmdt(const void* p)
{
	for (auto& m : shms)
		if (m.mem == p && !m.by.empty())
		{
			auto i = std::find(m.by.begin(), m.by.end(), process);
			m.by.erase(i == m.by.end() ? m.by.begin() : i);
			detached(m);
			return 0;
		}
	errno = EINVAL;
	return -1;
}
int __wrap_shmctl(int id, int cmd, struct shmid_ds* ds)
{
	id -= 1000;
	if (id < 0 || id >= (int) shms.size() || (shms[id].removed && shms[id].by.empty()))
	{
		errno = EINVAL;
		return -1;
	}
	if (cmd == IPC_STAT)
	{
		memset(ds, 0, sizeof *ds);
		ds->shm_segsz = shms[id].size;
		ds->shm_nattch = shms[id].by.size();
	}
	if (cmd == IPC_RMID)
	{
		shms[id].removed = true;
		detached(shms[id]);
	}
	return 0;
}
typedef void (*sighandler_t_)(int);
sighandler_t_ __wrap_signal(int sig, sighandler_t_ h)
{
	sighandler_t_ old = handlers.count(sig) ? handlers[sig] : SIG_DFL;
	handlers[sig] = h;
	return old;
}
}
namespace vos
{
void processExit(int p)
{
	for (auto& m : shms)
	{
		m.by.erase(std::remove(m.by.begin(), m.by.end(), p), m.by.end());
		detached(m);
	}
}
int segments()
{
	int n = 0;
	for (auto& m : shms)
		n += !m.removed || !m.by.empty();
	return n;
}
}
