// Threads handing work to a performer, interleaved by a deterministic scheduler: one thread runs at a time, and
// every pthread mutex or condition operation, read, write and poll of theirs is a point where another may take over.
#include "sim.hpp"
#include "rtmfp/Performer.hpp"
#include "rtmfp/SelectRunLoop.hpp"
#include "rtmfp/EPollRunLoop.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <thread>
using namespace sim;

namespace sch {
	enum St { RUN, MUTEX, COND, POLL, DONE };
	struct Th { sem_t sem; St st = RUN; void *on = nullptr; int fdDirty = 0; };
	static Th th[8]; static int n = 0; static int cur = -1; static bool active = false; static Rng *R = nullptr;
	static __thread int me = -1; static int preempt = 50; static bool ioSince = true; static bool stuck = false;
	static bool runnable(int i) { return th[i].st == RUN || (th[i].st == POLL && ioSince); }
	static void stuckNow();
	static void handOver(bool must)
	{
		// choose the next to run; must: the caller cannot go on
		int c[8], k = 0; for(int i = 0; i < n; i++) if(i != me && runnable(i)) c[k++] = i;
		if(!must && (k == 0 || !R->chance(preempt))) return;
		if(k == 0) { stuckNow(); }
		int to = c[R->u32() % unsigned(k)]; cur = to;
		if(th[to].st == POLL) { ioSince = false; th[to].st = RUN; }
		sem_post(&th[to].sem);
		if(th[me].st != DONE) while(sem_wait(&th[me].sem)) ;
	}
	static bool on() { return active && me >= 0; }
	static void point() { if(on()) handOver(false); }
}
using MutexFn = int (*)(pthread_mutex_t *); using CondFn = int (*)(pthread_cond_t *); using CondWaitFn = int (*)(pthread_cond_t *, pthread_mutex_t *);
template <class F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
static MutexFn rLock() { static MutexFn f = real<MutexFn>("pthread_mutex_lock"); return f; }
static MutexFn rTry() { static MutexFn f = real<MutexFn>("pthread_mutex_trylock"); return f; }
static MutexFn rUnlock() { static MutexFn f = real<MutexFn>("pthread_mutex_unlock"); return f; }

extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
	if(!sch::on()) return rLock()(m);
	sch::point();
	while(rTry()(m)) { sch::th[sch::me].st = sch::MUTEX; sch::th[sch::me].on = m; sch::handOver(true); }
	return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
	int rv = rUnlock()(m);
	if(sch::on()) { for(int i = 0; i < sch::n; i++) if(sch::th[i].st == sch::MUTEX && sch::th[i].on == m) sch::th[i].st = sch::RUN; sch::point(); }
	return rv;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if(!sch::on()) { static CondWaitFn f = real<CondWaitFn>("pthread_cond_wait"); return f(c, m); }
	sch::th[sch::me].st = sch::COND; sch::th[sch::me].on = c;
	rUnlock()(m); for(int i = 0; i < sch::n; i++) if(sch::th[i].st == sch::MUTEX && sch::th[i].on == m) sch::th[i].st = sch::RUN;
	sch::handOver(true);
	while(rTry()(m)) { sch::th[sch::me].st = sch::MUTEX; sch::th[sch::me].on = m; sch::handOver(true); }
	return 0;
}
static void wake(void *c, bool all) { for(int i = 0; i < sch::n; i++) if(sch::th[i].st == sch::COND && sch::th[i].on == c) { sch::th[i].st = sch::RUN; if(!all) break; } }
extern "C" int pthread_cond_signal(pthread_cond_t *c) { if(!sch::on()) { static CondFn f = real<CondFn>("pthread_cond_signal"); return f(c); } wake(c, false); sch::point(); return 0; }
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) { if(!sch::on()) { static CondFn f = real<CondFn>("pthread_cond_broadcast"); return f(c); } wake(c, true); sch::point(); return 0; }
extern "C" ssize_t write(int fd, const void *b, size_t len) { if(sch::on()) sch::point(); ssize_t rv = syscall(SYS_write, fd, b, len); if(sch::on()) { sch::ioSince = true; sch::point(); } return rv; }
extern "C" ssize_t read(int fd, void *b, size_t len) { if(sch::on()) sch::point(); ssize_t rv = syscall(SYS_read, fd, b, len); if(sch::on()) sch::point(); return rv; }
extern "C" int epoll_wait(int ep, struct epoll_event *ev, int max, int ms)
{
	if(!sch::on()) return int(syscall(SYS_epoll_pwait, ep, ev, max, ms, nullptr, 8));
	sch::point();
	while(true)
	{
		int rv = int(syscall(SYS_epoll_pwait, ep, ev, max, 0, nullptr, 8));
		if(rv != 0 || ms == 0) { if(rv == 0) sch::point(); return rv; }
		sch::th[sch::me].st = sch::POLL; sch::handOver(true); // nothing to do until somebody writes
	}
}
extern "C" int select(int nfds, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	if(!sch::on()) return int(syscall(SYS_select, nfds, r, w, x, tv));
	sch::point();
	bool zero = tv && tv->tv_sec == 0 && tv->tv_usec < 2; fd_set r0 = *r, w0 = *w, x0 = *x;
	while(true)
	{
		*r = r0; *w = w0; *x = x0; struct timeval z = { 0, 0 };
		int rv = int(syscall(SYS_select, nfds, r, w, x, &z));
		if(rv != 0 || zero) { if(rv == 0) sch::point(); return rv; }
		sch::th[sch::me].st = sch::POLL; sch::handOver(true);
	}
}

static std::vector<std::string> theLog; // only the running thread appends
static void out(J &j) { theLog.push_back(j.done()); }
static void writeOut() { Trace &t = theTrace(); for(auto &s : theLog) { fputs(s.c_str(), t.f); fputc('\n', t.f); } theLog.clear(); t.flush(); }
static bool loopIdleOk = false; // the loop polling with nothing to do and everyone else finished
static void sch::stuckNow()
{
	// nobody can go on: threads wait for work that never runs
	sch::active = false;
	{ J j; j.str("e", "stuck"); out(j); }
	{ J j; j.str("e", "end"); out(j); }
	writeOut(); _exit(95);
}

int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	theTrace().open(argv[1]); uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]);
	rLock(); rTry(); rUnlock();

	for(int scn = 0; scn < count; scn++)
	{
		Rng R(seed * 1000003ull + uint64_t(scn) * 31 + 7);
		alarm(20);
		{ J j; j.str("e", "reset").str("mod", "performer").i("scn", scn); out(j); }
		int producers = R.range(1, 4); bool useEpoll = R.chance(50); int closeAt = R.chance(45) ? R.range(0, 12) : -1; bool fromOutside = R.chance(25);
		sch::preempt = R.pick({ 10, 30, 60, 90 });
		RunLoop *loop = useEpoll ? (RunLoop *)new EPollRunLoop() : (RunLoop *)new SelectRunLoop();
		std::shared_ptr<Performer> perf = share_ref(new Performer(loop), false);
		int nid = 0, ran = 0, left = producers; bool closed = false; pthread_t loopThread = 0; int nest = R.pick({ 0, 0, 20, 50 }); bool strayStop = false; (void)fromOutside; (void)strayStop;
		auto doClose = [&] { if(closed) return; closed = true; { J j; j.str("e", "close"); out(j); } perf->close(); { J j; j.str("e", "closed"); out(j); } };
		std::function<void(int, bool, int)> submit;
		submit = [&] (int t, bool wait, int depth) {
			int id = ++nid; bool onLoop = t == 0;
			{ J j; j.str("e", "sub").i("t", t).i("id", id).b("wait", wait).b("on", onLoop); out(j); }
			perf->perform([&, id, t, depth] {
				{ J j; j.str("e", "run").i("id", id).b("on", sch::me == 0); out(j); }
				ran++;
				if(closeAt >= 0 && ran == closeAt) doClose();
				if(depth < 3 && R.chance(nest)) submit(0, R.chance(50), depth + 1);
				{ J j; j.str("e", "fin").i("id", id); out(j); }
			}, wait);
			{ J j; j.str("e", "ret").i("t", t).i("id", id); out(j); }
		};
		// thread 0 runs the loop
		auto loopBody = [&] {
			sch::me = 0; while(sem_wait(&sch::th[0].sem)) ;
			loopThread = pthread_self();
			if(closeAt == 0) loop->doLater([&] { doClose(); });
			loop->onEveryCycle = [&] { if(left == 0 && sch::n) loop->stop(); };
			loop->run();
			sch::th[0].st = sch::DONE;
			for(int i = 1; i < sch::n; i++) if(sch::runnable(i)) { sch::handOver(true); return; }
		};
		for(int i = 0; i <= producers; i++) { sem_init(&sch::th[i].sem, 0, 0); sch::th[i].st = sch::RUN; sch::th[i].on = nullptr; }
		sch::n = producers + 1; sch::R = &R; sch::ioSince = true;
		std::vector<std::thread> ts; ts.emplace_back(loopBody);
		int wake[2]; (void)!pipe(wake);
		loop->registerDescriptor(wake[0], RunLoop::READABLE, [&] { char b[1]; (void)!syscall(SYS_read, wake[0], b, 1); });
		for(int p = 1; p <= producers; p++) ts.emplace_back([&, p] {
			sch::me = p; while(sem_wait(&sch::th[p].sem)) ;
			int k = R.range(1, 6); int w = R.pick({ 0, 30, 100 });
			for(int i = 0; i < k; i++) { submit(p, R.chance(w), 0); sch::point(); }
			left--; char b[1] = {}; (void)!syscall(SYS_write, wake[1], b, 1); sch::ioSince = true; // the loop looks whether everyone is done
			sch::th[p].st = sch::DONE; sch::handOver(true);
		});
		sch::cur = 0; sch::active = true; sem_post(&sch::th[R.u32() % unsigned(producers + 1)].sem);
		for(auto &x : ts) x.join();
		sch::active = false;
		// what was handed over before everybody finished may still be pending: one more pass
		sch::me = 0; sch::n = 0; loop->onEveryCycle = nullptr; { J j; j.str("e", "drain"); out(j); }
		for(int k = 0; k < 3; k++) { bool more = true; loop->doLater([&] { loop->doLater([&] { }); }); (void)more; loop->run(0); }
		{ J j; j.str("e", "quiet"); out(j); }
		if(!closed && R.chance(50)) { int before = nid; (void)before; if(R.chance(50)) submit(9, false, 3); doClose(); }
		if(closed) { submit(9, R.chance(50), 3); loop->run(0); }
		loop->unregisterDescriptor(wake[0]); ::close(wake[0]); ::close(wake[1]);
		perf.reset();
		{ J j; j.str("e", "end"); out(j); }
		delete loop;
		for(int i = 0; i <= producers; i++) sem_destroy(&sch::th[i].sem);
		sch::me = -1;
		writeOut();
	}
	{ J j; j.str("e", "eof"); out(j); } writeOut();
	_exit(0);
}
