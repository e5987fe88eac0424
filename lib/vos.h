// Virtual operating system: the code under test runs unmodified, as fibers of one OS thread, with
// threads, locks, semaphores, time, sockets and shared memory provided by the functions in vos.cpp
// (linked with --wrap).  Everything is deterministic and the whole state lives in this process, so
// a state can be kept by fork().
#ifndef VOS_H
#define VOS_H
#include <cstdint>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace vos
{
struct Out
{
	enum Kind
	{
		DGRAM, OPEN, OPENFAIL, DATA, CLOSE
	} kind;
	uint32_t ip = 0;		// DGRAM: destination, network order
	uint16_t port = 0;		// network order
	int conn = -1;			// OPEN, DATA, CLOSE: number of the TCP connection
	std::string data, raw;	// raw: destination address other than IPv4
	uint16_t from = 0;		// DGRAM: port of the socket it was sent with, host order
	int ttl = 0;			// DGRAM to a multicast address: how far it goes
};

struct Sock
{
	bool tcp = false, open = true, mcast = false, connected = false, listening = false;
	uint16_t port = 0;
	int conn = -1;
	int family = 2;
	std::string local, group;			// address bound to, multicast request
	uint32_t remoteIp = 0;				// TCP: connected to, network order
	uint16_t remotePort = 0;
	int ttl = 1;						// of multicasts
	std::deque<std::pair<std::shared_ptr<Sock>, std::string>> pending;	// to be accepted, with the peer's address
	bool tty = false;
	unsigned iflag = 0, oflag = 0, cflag = 0, lflag = 0;	// of a tty, as last set
	struct Dg
	{
		uint32_t ip;
		uint16_t port;
		std::string data, raw;
	};
	std::deque<Dg> dgrams;
	std::string rx;			// TCP bytes which have arrived
	bool fin = false, rst = false;
	bool sendFail = false;
	int closes = 0;
};
typedef std::shared_ptr<Sock> SockP;

// ---- control ------------------------------------------------------------------------------
void init();
int spawn(const char* name, std::function<void()> f);	// a new fiber; returns its number
void quiesce();							// run until no fiber can go on without time passing
void advance(int64_t usec);				// let time pass, running fibers at their deadlines
int64_t nowUs();
bool fiberDone(int n);
void forget();									// the newest fibers which are done
int fiberCount();
std::string fiberState();				// description of where every fiber is blocked
int current();							// number of the running fiber, -1 = harness
extern int64_t stepLimit;				// scheduler steps without quiescence = livelock

// ---- the network ----------------------------------------------------------------------------
extern std::vector<Out> outs;			// everything the code under test sent since last cleared
extern size_t recvCap;					// a TCP read returns at most so many bytes; 0: all there are
extern bool refuseConnect;				// TCP connects fail
extern bool failResolve;				// no name can be resolved
extern bool failSocket;					// no sockets can be made
// called by every system call which may fail: the errno with which it does, or 0
extern std::function<int(const char* call)> faulter;
std::string hostOf(uint32_t ip);		// the name which was resolved to an address
bool inject(uint16_t portHost, uint32_t ip, uint16_t port, const std::string& data);	// datagram to a bound socket
// opening /dev/vtty<n> gives a serial line, which appears as connection 1000 + n
SockP tty(int n);
// sockets by the order in which they were made
std::vector<SockP> sockets();
// somebody connects to a listening socket; returns the other end's connection number (from 500)
int incoming(const SockP& listening, const std::string& addr);
SockP conn(int n);						// TCP connection by number, NULL if there never was one
int conns();
int openFds();

// ---- signals ----------------------------------------------------------------------------------
bool raiseSignal(int sig);				// runs the installed handler; false: there is none

// ---- schedule control ---------------------------------------------------------------------------
// Called at every scheduling point with the numbers of the fibers which can run (cur is the one
// running, or -1 when it is blocked), and of those which could if time passed; returns the one to run.
// NULL: run cur on, else round robin.
extern std::function<int(const std::vector<int>& ready, const std::vector<int>& timed, int cur, const char* point)> picker;
// called whenever the code under test has sent, opened or closed something
extern std::function<void(const Out&)> onOut;
const std::string& fiberName(int n);
// misuse of a lock, semaphore or descriptor by the code under test
extern std::function<void(const std::string&)> onMisuse;
void yieldPoint(const char* what);
// f locks and unlocks a mutex at which no schedule need branch
void ignoreMutexOf(const std::function<void()>& f);
extern bool started;
extern int process;						// whose calls these are, for shared memory
void processExit(int process);			// all its memory is detached
int segments();							// of shared memory which exist
// Accesses to data as scheduling points (lib/fine.cpp), of code compiled with -fsanitize=thread
namespace fine
{
extern bool busy;						// the harness is at work
void ignore(bool on);					// code which runs now is never a scheduling point
void collect();							// watch which code uses data of several fibers
std::vector<uintptr_t> hotCode();		// ends collecting
void schedule(const std::vector<uintptr_t>& pcs, long window = 0);	// yieldPoint("data") before each (the first of each fiber) access of that code
void off();
}
} // namespace vos
#endif
