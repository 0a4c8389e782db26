#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <time.h>
#include <errno.h>
#include <sched.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <unordered_map>
#include <vector>
#include <deque>
#include <algorithm>
#include <new>

namespace {
	constexpr int MAXT = 24;
	constexpr uint64_t NEVER = ~0ull;
	struct vclock { uint32_t c[MAXT] = {}; void join(const vclock& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
	enum st_t { RUN, MUTEX, COND, JOIN, SLEEP, RDLOCK, WRLOCK, DONE };
	struct thr {
		int id; sem_t sem; st_t st = RUN; const void* on = nullptr; const void* mtx = nullptr; uint64_t deadline = NEVER; bool timedout = false, woken = false;
		pthread_t real{}; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool detached = false; thr* target = nullptr;
		vclock vc; long prio = 0; long streak = 0; int ign = 0;
	};
	struct mstate { thr* owner = nullptr; int depth = 0; vclock vc; };
	struct rwstate { thr* w = nullptr; int readers = 0; vclock vc, rvc; };
	struct acc { uint32_t clk; uint8_t mask; };
	struct shadow { int wt = -1; uint32_t wclk = 0; uint8_t wmask = 0; acc rd[MAXT] = {}; uint32_t any = 0; };

	// All of it is touched by one thread at a time only.
	struct world {
		std::vector<thr*> th;
		std::unordered_map<const void*, mstate> mx;
		std::unordered_map<const void*, rwstate> rw;
		std::unordered_map<const void*, vclock> at;
		std::unordered_map<uintptr_t, shadow> sh;
		uint64_t now = 0;
		long steps = 0, next = 0, change[8] = {}; int nchange = 0;
		uint64_t rng = 1;
		bool race = false;
		sched::params p;
		// systematic
		size_t pos = 0; int preempted = 0;
	};
	struct choice { int n, at; };
	std::vector<choice> path;            // of mode 2
	world* W = nullptr;
	thread_local thr* me = nullptr;
	thread_local int rt = 0;
	sem_t finished; int outcome;

	struct in_rt { in_rt() { ++rt; } ~in_rt() { --rt; } };

	template <class F> F real(const char* name) { in_rt q; return (F)dlsym(RTLD_NEXT, name); }
#define REAL(n) (*[]{ static auto f = real<decltype(&n)>(#n); return f; }())

	inline bool active() { return me && !rt && W; }
	uint64_t rnd() { uint64_t& x = W->rng; x += 0x9e3779b97f4a7c15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

	bool enabled(thr* t)
	{
		switch (t->st) {
		case RUN: return true;
		case MUTEX: { auto& m = W->mx[t->on]; return !m.owner; }
		case COND: return t->woken;
		case JOIN: return t->target->st == DONE;
		case SLEEP: return t->deadline <= W->now;
		case RDLOCK: return !W->rw[t->on].w;
		case WRLOCK: { auto& r = W->rw[t->on]; return !r.w && !r.readers; }
		default: return false;
		}
	}
	int decide(int n)           // mode 2: one of n alternatives, the 0th first
	{
		if (n <= 1) return 0;
		if (W->pos < path.size()) { int x = path[W->pos].at; W->pos++; return x < n ? x : 0; }
		path.push_back({ n, 0 }); W->pos++;
		return 0;
	}
	[[noreturn]] void park_forever() { for (;;) pause(); }
	void finish(int what) { outcome = what; sem_post(&finished); }

	void give(thr* to, thr* from)
	{
		if (to == from) return;
		sem_post(&to->sem);
		if (from && from->st != DONE) { while (sem_wait(&from->sem) != 0); }
	}
	uint64_t gap()
	{
		// distance to the next preemption
		if (W->p.mode == 0) {
			uint64_t a = W->p.stutter ? W->p.stutter : 1 + (W->p.seed % 5) * (W->p.seed % 5) * 6;
			return 1 + rnd() % (2 * a);
		}
		return 1;
	}
	// Chooses who goes on. The current thread may have changed to a blocked state before.
	void reschedule(bool force)
	{
		thr* self = me;
		for (;;) {
			thr* en[MAXT]; int n = 0; bool self_en = false;
			for (auto t : W->th) if (t->st != DONE && enabled(t)) { if (t == self) self_en = true; en[n++] = t; }
			thr* timed = nullptr;
			for (auto t : W->th) if ((t->st == COND && !t->woken || t->st == SLEEP && !enabled(t)) && t->deadline != NEVER && (!timed || t->deadline < timed->deadline)) timed = t;
			if (timed && (!n || (W->p.early && (int)(rnd() % 1000) < W->p.early))) {
				if (timed->deadline > W->now) W->now = timed->deadline;
				if (timed->st == COND) { timed->timedout = true; timed->woken = true; }
				continue;
			}
			if (W->p.spurious && (int)(rnd() % 1000) < W->p.spurious)
				for (auto t : W->th) if (t->st == COND && !t->woken) { t->woken = true; break; }
			if (!n) { finish(1); if (self->st == DONE) return; park_forever(); }
			thr* to = nullptr;
			switch (W->p.mode) {
			case 0:
				to = en[rnd() % n];
				if (force && n > 1) while (to == self) to = en[rnd() % n];
				break;
			case 1:
				if (force && self_en) self->prio = -W->steps;
				for (int i = 0; i < n; ++i) if (!to || en[i]->prio > to->prio) to = en[i];
				if (to == self && ++self->streak > 3000 && n > 1) { self->streak = 0; self->prio = -W->steps; continue; }
				break;
			case 2: {
				if (self_en && ((!force && W->preempted >= W->p.bound) || n == 1) && self->streak < 60) to = self;
				else {
					std::vector<thr*> o;
					bool stale = self_en && self->streak >= 60;
					if (self_en && !force && !stale) o.push_back(self);
					// round robin order after the current thread
					for (size_t k = 1; k <= W->th.size(); ++k) { thr* t = W->th[(self->id + k) % W->th.size()]; if (t != self && t->st != DONE && enabled(t)) o.push_back(t); }
					if (o.empty()) o.push_back(self);
					// A thread gone blocked or yielding costs nothing, but when the budget is used up, is not branched on for yields.
					to = o[stale || (force && self_en && W->preempted >= W->p.bound) ? 0 : decide((int)o.size())];
					if (self_en && !force && !stale && to != self) W->preempted++;
				}
				break;
			}
			default:
				to = self_en && !force ? self : en[0];
				if (!(self_en && !force)) for (size_t k = 1; k <= W->th.size(); ++k) { thr* t = W->th[(self->id + k) % W->th.size()]; if (t->st != DONE && enabled(t)) { to = t; break; } }
			}
			if (to == self) { self->streak++; return; }
			to->streak = 0;
			give(to, self);
			return;
		}
	}
	void step(bool memory, bool force = false)
	{
		if (!active()) return;
		in_rt q;
		if (++W->steps > W->p.max_steps) { finish(2); park_forever(); }
		if (W->p.mode == 0) {
			if (memory && !W->p.memory) return;
			if (!force && W->steps < W->next) return;
			if (!memory || force || W->p.memory) { reschedule(force); W->next = W->steps + gap(); }
			return;
		}
		if (W->p.mode == 1) {
			if (memory && !W->p.memory) { return; }
			for (int i = 0; i < W->nchange; ++i) if (W->change[i] == W->steps) { me->prio = -W->steps; reschedule(false); return; }
			if (!memory || force) reschedule(force);
			return;
		}
		if (memory && !force && !(W->p.mode == 2 && W->p.memory)) return;
		if (W->p.mode == 3 && !force) return;
		reschedule(force);
	}
	// Blocks until the state is enabled again
	void wait_until_enabled()
	{
		while (!enabled(me)) reschedule(false);
	}

	// ---------------------------------------------------------------- race detection
	void access(uintptr_t a, size_t size, bool write)
	{
		if (!W->p.races || W->race) return;
		while (size) {
			uintptr_t g = a >> 3; unsigned o = a & 7; size_t n = std::min<size_t>(size, 8 - o);
			uint8_t mask = (uint8_t)(((1u << n) - 1) << o);
			shadow& s = W->sh[g];
			int t = me->id;
			if (s.wt >= 0 && s.wt != t && (s.wmask & mask) && s.wclk > me->vc.c[s.wt]) { W->race = true; }
			if (write) {
				if (s.any & ~(1u << t)) for (int i = 0; i < MAXT; ++i) if (i != t && (s.rd[i].mask & mask) && s.rd[i].clk > me->vc.c[i]) { W->race = true; }
				if (s.wt == t && s.wclk == me->vc.c[t]) s.wmask |= mask; else { s.wt = t; s.wclk = me->vc.c[t]; s.wmask = mask; }
			}
			else {
				auto& r = s.rd[t];
				if (r.clk == me->vc.c[t]) r.mask |= mask; else { r.clk = me->vc.c[t]; r.mask = mask; }
				s.any |= 1u << t;
			}
			a += n; size -= n;
		}
		if (W->race && getenv("VF_RACE_TRAP")) __builtin_trap();
	}
	void fresh(void* p, size_t n)
	{
		if (!p || !active() || !W->p.races) return;
		in_rt q;
		uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
		if (e - a > W->sh.size()) { for (auto i = W->sh.begin(); i != W->sh.end();) if (i->first >= a && i->first < e) i = W->sh.erase(i); else ++i; }
		else for (; a < e; ++a) W->sh.erase(a);
	}
	void mem(void* p, size_t n, bool write)
	{
		if (!active() || me->ign) return;
		step(true);
		in_rt q;
		access((uintptr_t)p, n, write);
	}
	void tick() { me->vc.c[me->id]++; }
	void acquire(const vclock& v) { me->vc.join(v); }
	void release(vclock& v) { v.join(me->vc); tick(); }

	void lock(const void* m, bool recursive)
	{
		auto& x = W->mx[m];
		if (x.owner == me && recursive) { x.depth++; return; }
		if (x.owner) { me->st = MUTEX; me->on = m; wait_until_enabled(); me->st = RUN; }
		auto& y = W->mx[m];
		y.owner = me; y.depth = 1; acquire(y.vc);
	}
	void unlock(const void* m)
	{
		auto& x = W->mx[m];
		if (x.owner != me) { if (!x.owner) return; }
		if (--x.depth > 0) return;
		x.owner = nullptr; release(x.vc);
	}
	void* entry(void* a)
	{
		thr* t = (thr*)a;
		while (sem_wait(&t->sem) != 0);
		me = t;
		void* r = t->fn(t->arg);
		{
			in_rt q;
			t->ret = r; t->st = DONE;
			bool any = false;
			for (auto x : W->th) if (x->st != DONE) any = true;
			if (!any) finish(0);
			else reschedule(true);
		}
		me = nullptr;
		return r;
	}
	thr* add(void* (*fn)(void*), void* arg)
	{
		thr* t = new thr; t->id = (int)W->th.size(); t->fn = fn; t->arg = arg; sem_init(&t->sem, 0, 0);
		if (t->id >= MAXT) { fprintf(stderr, "too many threads\n"); _exit(3); }
		t->prio = 1 + (long)(rnd() % 100000);
		if (me) { t->vc = me->vc; tick(); }
		t->vc.c[t->id] = 1;
		W->th.push_back(t);
		return t;
	}
	int condwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
	{
		in_rt q;
		++W->steps;
		if (W->p.mode != 3) reschedule(false);
		unlock(m);
		me->st = COND; me->on = c; me->deadline = deadline; me->timedout = false; me->woken = false;
		if (deadline <= W->now) { me->timedout = me->woken = true; }
		while (!me->woken) reschedule(false);
		me->st = RUN; me->deadline = NEVER;
		bool to = me->timedout;
		lock(m, false);
		return to ? ETIMEDOUT : 0;
	}
	uint64_t ns(const timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
	constexpr uint64_t BASE = 1000000000000000000ull;
}

namespace sched {
	int self() { return me ? me->id : -1; }
	uint64_t now() { return W ? W->now : 0; }
	long steps() { return W ? W->steps : 0; }
	bool raced() { return W && W->race; }
	void point() { step(false); }
	void advance(uint64_t n) { if (active()) { W->now += n; step(false); } }
	void sleep(uint64_t n) { in_rt q; me->st = SLEEP; me->deadline = W->now + n; while (!enabled(me)) reschedule(false); me->st = RUN; me->deadline = NEVER; }
	uint64_t rnd() { in_rt q; return ::rnd(); }
	quiet::quiet() { ++rt; }
	quiet::~quiet() { --rt; }

	static const std::function<void()>* the_body;
	int run(const params& p, const std::function<void(int)>& before, const std::function<void()>& body, const std::function<void(int)>& after)
	{
		int runs = 0;
		path.clear();
		for (;;) {
			W = new world; W->p = p; W->rng = p.seed * 7919 + runs + 1;
			W->next = 1 + (p.mode == 0 ? (long)(rnd() % 20) : 0);
			if (p.mode == 1) { W->nchange = (int)(p.seed % 5); long span = 60l << (2 * ((p.seed / 5) % 4)); for (int i = 0; i < W->nchange; ++i) W->change[i] = 1 + (long)(rnd() % span); }
			sem_init(&finished, 0, 0);
			before(runs);
			the_body = &body;
			thr* t = add([](void*) -> void* { (*the_body)(); return nullptr; }, nullptr);
			pthread_attr_t at; pthread_attr_init(&at);
			REAL(pthread_create)(&t->real, &at, entry, t);
			sem_post(&t->sem);
			while (sem_wait(&finished) != 0);
			int what = outcome;
			++runs;
			after(what);
			if (!what) {
				for (auto x : W->th) { if (!x->detached && (x == t)) REAL(pthread_join)(x->real, nullptr); }
				usleep(0);
			}
			world* old = W;
			W = nullptr;
			// threads left behind by a deadlock keep their world
			if (!what) { for (auto x : old->th) if (x == t) { } delete old; }
			if (p.mode != 2) break;
			while (!path.empty() && path.back().at + 1 >= path.back().n) path.pop_back();
			if (path.empty() || runs >= p.max_runs || what == 2) break;
			path.back().at++;
		}
		return runs;
	}
}

// -------------------------------------------------------------------- pthread
extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
	if (!active()) return REAL(pthread_create)(h, at, fn, arg);
	{
		in_rt q;
		thr* t = add(fn, arg);
		int r = REAL(pthread_create)(&t->real, at, entry, t);
		if (r) return r;
		*h = t->real;
	}
	step(false);
	return 0;
}
static thr* find(pthread_t h) { for (auto i = W->th.rbegin(); i != W->th.rend(); ++i) if (pthread_equal((*i)->real, h)) return *i; return nullptr; }
int pthread_join(pthread_t h, void** ret)
{
	if (!active()) return REAL(pthread_join)(h, ret);
	step(false);
	in_rt q;
	thr* t = find(h);
	if (!t) return ESRCH;
	me->st = JOIN; me->target = t;
	wait_until_enabled();
	me->st = RUN;
	acquire(t->vc);
	return REAL(pthread_join)(h, ret);
}
int pthread_detach(pthread_t h)
{
	if (!active()) return REAL(pthread_detach)(h);
	in_rt q;
	thr* t = find(h); if (t) t->detached = true;
	return REAL(pthread_detach)(h);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!active()) return W && me ? 0 : REAL(pthread_mutex_lock)(m);
	step(false);
	in_rt q;
	lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!active()) return W && me ? 0 : REAL(pthread_mutex_trylock)(m);
	step(false);
	in_rt q;
	auto& x = W->mx[m];
	if (x.owner && !(x.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
	lock(m, true);
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!active()) return W && me ? 0 : REAL(pthread_mutex_unlock)(m);
	{ in_rt q; unlock(m); }
	step(false);
	return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!active()) return REAL(pthread_cond_wait)(c, m);
	return condwait(c, m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
	if (!active()) return REAL(pthread_cond_timedwait)(c, m, t);
	uint64_t x = ns(t);
	return condwait(c, m, x > BASE ? x - BASE : 0);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
	if (!active()) return REAL(pthread_cond_clockwait)(c, m, k, t);
	uint64_t x = ns(t);
	return condwait(c, m, x > BASE ? x - BASE : 0);
}
int pthread_cond_signal(pthread_cond_t* c)
{
	if (!active()) return REAL(pthread_cond_signal)(c);
	{
		in_rt q;
		thr* w[MAXT]; int n = 0;
		for (auto t : W->th) if (t->st == COND && !t->woken && t->on == c) w[n++] = t;
		if (n) { int k = W->p.mode == 2 ? decide(n) : (int)(rnd() % n); w[k]->woken = true; }
	}
	step(false);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!active()) return REAL(pthread_cond_broadcast)(c);
	{ in_rt q; for (auto t : W->th) if (t->st == COND && t->on == c) t->woken = true; }
	step(false);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
	if (!active()) return W && me ? 0 : REAL(pthread_rwlock_rdlock)(l);
	step(false);
	in_rt q;
	if (W->rw[l].w) { me->st = RDLOCK; me->on = l; wait_until_enabled(); me->st = RUN; }
	auto& x = W->rw[l]; x.readers++; acquire(x.vc);
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
	if (!active()) return W && me ? 0 : REAL(pthread_rwlock_wrlock)(l);
	step(false);
	in_rt q;
	if (W->rw[l].w || W->rw[l].readers) { me->st = WRLOCK; me->on = l; wait_until_enabled(); me->st = RUN; }
	auto& x = W->rw[l]; x.w = me; acquire(x.vc); acquire(x.rvc);
	return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
	if (!active()) return W && me ? 0 : REAL(pthread_rwlock_tryrdlock)(l);
	step(false);
	in_rt q;
	auto& x = W->rw[l]; if (x.w) return EBUSY; x.readers++; acquire(x.vc); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
	if (!active()) return W && me ? 0 : REAL(pthread_rwlock_trywrlock)(l);
	step(false);
	in_rt q;
	auto& x = W->rw[l]; if (x.w || x.readers) return EBUSY; x.w = me; acquire(x.vc); acquire(x.rvc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
	if (!active()) return W && me ? 0 : REAL(pthread_rwlock_unlock)(l);
	{
		in_rt q;
		auto& x = W->rw[l];
		if (x.w == me) { x.w = nullptr; release(x.vc); } else if (x.readers) { x.readers--; release(x.rvc); }
	}
	step(false);
	return 0;
}
int sched_yield()
{
	if (!active()) return REAL(sched_yield)();
	step(false, true);
	return 0;
}
int clock_gettime(clockid_t k, struct timespec* t)
{
	if (!active()) return REAL(clock_gettime)(k, t);
	uint64_t x = BASE + W->now;
	t->tv_sec = x / 1000000000ull; t->tv_nsec = x % 1000000000ull;
	return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem)
{
	if (!active()) return REAL(nanosleep)(t, rem);
	sched::sleep(ns(t));
	return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* t, struct timespec* rem)
{
	if (!active()) return REAL(clock_nanosleep)(k, flags, t, rem);
	uint64_t x = ns(t);
	sched::sleep(flags & TIMER_ABSTIME ? (x > BASE + W->now ? x - BASE - W->now : 0) : x);
	return 0;
}

// -------------------------------------------------------------------- compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { mem(p, n, false); } void __tsan_write##n(void* p) { mem(p, n, true); } \
	void __tsan_read##n##_pc(void* p, void*) { mem(p, n, false); } void __tsan_write##n##_pc(void* p, void*) { mem(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { mem(p, n, false); } void __tsan_unaligned_write##n(void* p) { mem(p, n, true); } \
	void __tsan_read_write##n(void* p) { mem(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { mem(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { mem(p, n, false); } void __tsan_volatile_write##n(void* p) { mem(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem(p, 8, true); }
void __tsan_vptr_read(void** p) { mem(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { mem(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { mem(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { mem((void*)s, n, false); mem(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { mem((void*)s, n, false); mem(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) mem(d, n, true); return memset(d, c, n); }
}
namespace {
	enum { relaxed, consume, acq, rel, acqrel, seqcst };
	struct atomic_op {
		vclock* v; bool on;
		atomic_op(const volatile void* p, int mo, bool reads, bool writes) {
			on = active() && !me->ign;
			if (!on) return;
			step(false);
			in_rt q;
			vclock& s = W->at[(const void*)p];
			if (reads && (mo == acq || mo == consume || mo == acqrel || mo == seqcst)) acquire(s);
			if (writes) {
				if (mo == rel || mo == acqrel || mo == seqcst) { if (!reads) s = vclock(); release(s); }
				else if (!reads) s = vclock();          // a relaxed store breaks the release sequence
			}
		}
	};
}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int mo) { atomic_op o(a, mo, true, false); return *a; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomic_op o(a, mo, false, true); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { atomic_op o(a, mo, true, true); T r = *a; *a = v; return r; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { atomic_op o(a, mo, true, true); T r = *a; *a = r + v; return r; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { atomic_op o(a, mo, true, true); T r = *a; *a = r - v; return r; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { atomic_op o(a, mo, true, true); T r = *a; *a = r & v; return r; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { atomic_op o(a, mo, true, true); T r = *a; *a = r | v; return r; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { atomic_op o(a, mo, true, true); T r = *a; *a = r ^ v; return r; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { atomic_op o(a, mo, true, true); T r = *a; *a = ~(r & v); return r; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
	step(false); if (*a == *c) { cas_sync(a, mo, true); *a = v; return 1; } cas_sync(a, fmo, false); *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { T e = c; __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
static void cas_sync(const volatile void* p, int mo, bool writes)
{
	if (!active() || me->ign) return;
	in_rt q;
	vclock& s = W->at[(const void*)p];
	if (mo == acq || mo == consume || mo == acqrel || mo == seqcst) acquire(s);
	if (writes && (mo == rel || mo == acqrel || mo == seqcst)) release(s);
}
extern "C" {
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { step(false); }
void __tsan_atomic_signal_fence(int) {}
}

// Memory handed out again is new memory.
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fresh(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); fresh(p, n); return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); fresh(p, n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
