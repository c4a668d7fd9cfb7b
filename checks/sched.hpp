// Runs threads one at a time in an order chosen by the explorer. The threads can be switched at operations with locks and files,
// allocations and wherever the harness wants. The way of passing control is invisible to ThreadSanitizer, so with it, each
// execution is also checked for data races.
#ifndef SCHED_HPP
#define SCHED_HPP
#include "mc.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <functional>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace sched {
#define SCHED_HIDDEN __attribute__((no_sanitize("thread"), noinline))

enum Kind { Start, Point, File, Memory, ReadLock, WriteLock, Unlock, Waiting, Finished };
struct Thread {
	volatile int go = 0;
	volatile int kind = Start;
	void* volatile lock = nullptr;
	volatile bool refused = false; // The lock cannot be obtained, because of a deadlock
	int quiet = 0;
};
inline thread_local Thread* self = nullptr;
inline volatile int controllerGo = 0;
inline volatile int clockNow = 0; // Counts switches
inline volatile bool alone = false; // Only one thread remains, it does not have to be switched
inline volatile bool memoryPoints = false;
inline volatile bool deadlocked = false;

SCHED_HIDDEN inline void waitFor(volatile int* what) {
	while (!*what) syscall(SYS_futex, what, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	*what = 0;
}
SCHED_HIDDEN inline void signal(volatile int* what) {
	*what = 1;
	syscall(SYS_futex, what, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
SCHED_HIDDEN inline int time() { return clockNow; }
SCHED_HIDDEN inline void resetClock() { clockNow = 0; }
// Returns if it can go on, always unless it's a lock
SCHED_HIDDEN inline bool point(Kind kind, void* lock = nullptr) {
	Thread* me = self;
	if (!me) return true;
	if (kind <= Memory && (me->quiet || alone || deadlocked)) return true;
	if (kind == Memory && !memoryPoints) return true;
	int previous = errno;
	me->kind = kind;
	me->lock = lock;
	me->refused = false;
	signal(&controllerGo);
	waitFor(&me->go);
	errno = previous;
	return !me->refused;
}
SCHED_HIDDEN inline void resume(Thread& thread) {
	clockNow = clockNow + 1;
	signal(&thread.go);
	waitFor(&controllerGo);
}
SCHED_HIDDEN inline int kindOf(Thread& t) { return t.kind; }
SCHED_HIDDEN inline void* lockOf(Thread& t) { return t.lock; }
SCHED_HIDDEN inline void refuse(Thread& t) { t.refused = true; deadlocked = true; }
SCHED_HIDDEN inline void set(volatile bool& what, bool value) { what = value; }
SCHED_HIDDEN inline void begin(Thread* me) {
	self = me;
	waitFor(&me->go);
}
SCHED_HIDDEN inline void finish() {
	Thread* me = self;
	self = nullptr;
	me->kind = Finished;
	signal(&controllerGo);
}
inline bool minor(int kind) { return kind == File || kind == Memory || kind == Unlock; }
#ifdef __SANITIZE_THREAD__
extern "C" void AnnotateIgnoreReadsBegin(const char*, int);
extern "C" void AnnotateIgnoreReadsEnd(const char*, int);
extern "C" void AnnotateIgnoreWritesBegin(const char*, int);
extern "C" void AnnotateIgnoreWritesEnd(const char*, int);
struct Ignored { // Parts of the harness used by several threads, which is not visible to ThreadSanitizer
	Ignored() { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); }
	~Ignored() { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); }
	Ignored(const Ignored&) = delete;
};
#else
struct Ignored { Ignored() {} ~Ignored() {} };
#endif
struct Quiet {
	Quiet() { if (self) self->quiet++; }
	~Quiet() { if (self) self->quiet--; }
};

// Stops until something becomes true
inline void waitUntil(std::function<bool()> condition) {
	Ignored ignored;
	if (self) point(Waiting, &condition);
}

struct Lock { int readers = 0; bool writer = false; };

// Threads are reused, because starting them takes long
struct Worker {
	Thread* thread = nullptr;
	std::function<void()> program;
	sem_t starting, ended;
	Worker() {
		sem_init(&starting, 0, 0);
		sem_init(&ended, 0, 0);
		std::thread([this] {
			while (true) {
				while (sem_wait(&starting)) {}
				begin(thread);
				try {
					program();
				} catch (...) {} // Programs catch their exceptions, except those caused by deadlocks
				finish();
				sem_post(&ended);
			}
		}).detach();
	}
};

// Runs them in one of the possible orders
// Switching a thread that could go on is counted as a deviation if everything is bounded or at places where it matters less
inline std::vector<std::unique_ptr<Thread>> threads; // Of this execution
inline std::map<pthread_t, Thread*> started; // By the tested code
inline void run(std::vector<std::function<void()>> programs, bool bounded, bool withMemory) {
	Ignored ignored;
	threads.clear();
	started.clear();
	static std::vector<Worker*> workers;
	if (workers.empty()) { // Switching is much faster on a single processor
		cpu_set_t usable, one;
		CPU_ZERO(&one);
		if (!sched_getaffinity(0, sizeof(usable), &usable) && CPU_COUNT(&usable) > 0) {
			int which = getpid() % CPU_COUNT(&usable);
			for (int i = 0; i < CPU_SETSIZE; i++)
				if (CPU_ISSET(i, &usable) && which-- == 0) CPU_SET(i, &one);
			sched_setaffinity(0, sizeof(one), &one);
		}
	}
	std::map<void*, Lock> locks;
	set(memoryPoints, withMemory);
	set(alone, false);
	set(deadlocked, false);
	resetClock();
	while (workers.size() < programs.size()) workers.push_back(new Worker);
	for (size_t i = 0; i < programs.size(); i++) {
		threads.push_back(std::make_unique<Thread>());
		workers[i]->thread = threads[i].get();
		workers[i]->program = std::move(programs[i]);
		sem_post(&workers[i]->starting);
	}
	int last = -1;
	std::string order;
	while (true) {
		std::vector<int> enabled;
		int unfinished = 0;
		auto can = [&] (int i) {
			int kind = kindOf(*threads[i]);
			if (kind == Finished) return false;
			unfinished++;
			if (kind == Waiting) return (*static_cast<std::function<bool()>*>(lockOf(*threads[i])))();
			if (kind == ReadLock) return !locks[lockOf(*threads[i])].writer;
			if (kind == WriteLock) return !locks[lockOf(*threads[i])].writer && locks[lockOf(*threads[i])].readers == 0;
			return true;
		};
		bool lastCan = last >= 0 && can(last);
		if (lastCan) enabled.push_back(last);
		for (int i = 0; i < int(threads.size()); i++)
			if (i != last && can(i)) enabled.push_back(i);
		if (unfinished == 0) break;
		set(alone, unfinished == 1);
		if (enabled.empty()) {
			for (auto& it : threads) if (kindOf(*it) == Waiting) { // It can't be refused
				fprintf(stderr, "deadlock: some of %d threads wait forever, order of threads: %s\n", unfinished, order.c_str());
				_exit(97);
			}
			mc::fail("deadlock", mc::fmt("%d threads wait for each other, order of threads: ", unfinished) + order);
			for (auto& it : threads) if (kindOf(*it) == ReadLock || kindOf(*it) == WriteLock) {
				refuse(*it);
				resume(*it);
			}
			// They get refused everything until they give up
			bool any = true;
			for (int rounds = 0; any && rounds < 1000; rounds++) {
				any = false;
				for (auto& it : threads) if (kindOf(*it) != Finished) {
					any = true;
					if (kindOf(*it) == ReadLock || kindOf(*it) == WriteLock) refuse(*it);
					resume(*it);
				}
			}
			if (any) _exit(98);
			break;
		}
		int chosen = enabled[lastCan && (bounded || minor(kindOf(*threads[last]))) ? mc::chooseDev(int(enabled.size())) : mc::choose(int(enabled.size()))];
		if (chosen != last && order.size() < 300) order += char('A' + chosen);
		auto& thread = *threads[chosen];
		switch (kindOf(thread)) {
		case ReadLock: locks[lockOf(thread)].readers++; break;
		case WriteLock: locks[lockOf(thread)].writer = true; break;
		case Unlock:
			if (auto& lock = locks[lockOf(thread)]; lock.writer) lock.writer = false;
			else lock.readers--;
			break;
		}
		mc::step(mc::mix(mc::hash(order), kindOf(thread)));
		resume(thread);
		last = chosen;
	}
	for (size_t i = 0; i < programs.size(); i++) while (sem_wait(&workers[i]->ended)) {}
	mc::describeMore(", order " + order);
}
} // namespace sched

#define SCHED_REAL(NAME, ...) static auto next = reinterpret_cast<int (*)(__VA_ARGS__)>(dlsym(RTLD_NEXT, NAME))
extern "C" {
// A thread that is not controlled uses the real ones
int pthread_rwlock_rdlock(pthread_rwlock_t* lock) { SCHED_REAL("pthread_rwlock_rdlock", pthread_rwlock_t*); if (!sched::point(sched::ReadLock, lock)) return EDEADLK; return next(lock); }
int pthread_rwlock_wrlock(pthread_rwlock_t* lock) { SCHED_REAL("pthread_rwlock_wrlock", pthread_rwlock_t*); if (!sched::point(sched::WriteLock, lock)) return EDEADLK; return next(lock); }
int pthread_rwlock_unlock(pthread_rwlock_t* lock) { SCHED_REAL("pthread_rwlock_unlock", pthread_rwlock_t*); sched::point(sched::Unlock, lock); return next(lock); }
int pthread_mutex_lock(pthread_mutex_t* lock) { SCHED_REAL("pthread_mutex_lock", pthread_mutex_t*); if (!sched::point(sched::WriteLock, lock)) return EDEADLK; return next(lock); }
int pthread_create(pthread_t* result, const pthread_attr_t* attributes, void* (*start)(void*), void* argument) {
	SCHED_REAL("pthread_create", pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
	if (!sched::self) return next(result, attributes, start, argument);
	struct Started {
		sched::Thread* thread;
		void* (*start)(void*);
		void* argument;
		static void* run(void* data) {
			Started mine;
			{
				sched::Ignored ignored;
				mine = *static_cast<Started*>(data);
				free(data);
			}
			sched::begin(mine.thread);
			void* result = mine.start(mine.argument);
			sched::finish();
			return result;
		}
	};
	sched::Quiet quiet;
	sched::Ignored ignored;
	sched::threads.push_back(std::make_unique<sched::Thread>());
	auto thread = sched::threads.back().get();
	auto made = static_cast<Started*>(malloc(sizeof(Started)));
	*made = {thread, start, argument};
	int error = next(result, attributes, &Started::run, made);
	if (error) abort();
	sched::started[*result] = thread;
	sched::set(sched::alone, false);
	return 0;
}
int pthread_join(pthread_t joined, void** result) {
	SCHED_REAL("pthread_join", pthread_t, void**);
	if (sched::self) {
		sched::Ignored ignored;
		auto found = sched::started.find(joined);
		if (found != sched::started.end()) sched::waitUntil([thread = found->second] { return sched::kindOf(*thread) == sched::Finished; });
	}
	return next(joined, result);
}
int pthread_mutex_unlock(pthread_mutex_t* lock) { SCHED_REAL("pthread_mutex_unlock", pthread_mutex_t*); sched::point(sched::Unlock, lock); return next(lock); }
}
void* operator new(size_t size) {
	sched::point(sched::Memory);
	void* made = malloc(size ? size : 1);
	if (!made) throw std::bad_alloc();
	return made;
}
void* operator new(size_t size, const std::nothrow_t&) noexcept {
	sched::point(sched::Memory);
	return malloc(size ? size : 1);
}
void operator delete(void* freed, const std::nothrow_t&) noexcept { sched::point(sched::Memory); free(freed); }
void operator delete(void* freed) noexcept { sched::point(sched::Memory); free(freed); }
void operator delete(void* freed, size_t) noexcept { sched::point(sched::Memory); free(freed); }
#endif
