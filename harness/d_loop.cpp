// Real run loops over real pipes and socket pairs: which handlers, tasks and timers they call, pass by pass.
#include "sim.hpp"
#include "rtmfp/SelectRunLoop.hpp"
#include "rtmfp/EPollRunLoop.hpp"
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace sim;

static void out(J &j) { theTrace().line(j); }

struct End { int fd; bool open; };
int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	theTrace().open(argv[1]); uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]);
	signal(SIGPIPE, SIG_IGN);
	for(int scn = 0; scn < count; scn++)
	{
		Rng R(seed * 1000003ull + uint64_t(scn) * 31 + 11);
		alarm(20);
		{ J j; j.str("e", "reset").str("mod", "loop").i("scn", scn); out(j); }
		std::unique_ptr<RunLoop> loop(R.chance(50) ? (RunLoop *)new EPollRunLoop() : (RunLoop *)new SelectRunLoop());
		Time base = loop->getCurrentTimeNoCache(); auto us = [&] (Time t) { return (long long)floorl((t - base) * 1e6L); };
		std::vector<End> ends; std::vector<std::pair<int, int>> pairs; // pairs: (reading or first end, writing or second end)
		auto mkPair = [&] {
			int p[2]; bool sock = R.chance(25);
			if(sock) { if(socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort(); int z = 4096; setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); }
			else { if(pipe(p)) abort(); fcntl(p[1], F_SETPIPE_SZ, 4096); }
			for(int k = 0; k < 2; k++) fcntl(p[k], F_SETFL, O_NONBLOCK);
			int a = int(ends.size()); ends.push_back({ p[0], true }); ends.push_back({ p[1], true }); pairs.push_back({ a, a + 1 });
		};
		int np = R.range(1, 5); for(int i = 0; i < np; i++) mkPair();
		int nh = 0, nl = 0, nt = 0, cycles = 0, maxCycles = 8, budget = 150, depth = 0; bool running = false, ending = false;
		std::map<std::pair<int, int>, int> reg; std::function<void()> op;
		auto cond = [&] (int i, int c) { if(!ends[size_t(i)].open) return false; struct pollfd p = { ends[size_t(i)].fd, short(c ? POLLOUT : POLLIN), 0 }; poll(&p, 1, 0); return c ? (p.revents & POLLOUT) != 0 : (p.revents & (POLLIN | POLLHUP)) != 0; };
		auto ready = [&] (const char *name) {
			std::vector<std::string> r; for(size_t i = 0; i < ends.size(); i++) for(int c = 0; c < 2; c++) if(cond(int(i), c)) r.push_back("[" + std::to_string(i) + "," + std::to_string(c) + "]");
			J j; j.str("e", name).raw("rdy", arr(r)); out(j);
		};
		auto work = [&] { depth++; int k = R.range(0, 3); if(!ending) while(k-- > 0) op(); depth--; };
		auto doReg = [&] (int i, int c) {
			if(!ends[size_t(i)].open) return;
			int h = ++nh; reg[{ i, c }] = h; { J j; j.str("e", "reg").i("fd", i).i("c", c).i("h", h); out(j); }
			auto called = [&, h, i, c] (int fd, int cc) {
				J j; j.str("e", "call").i("h", h).i("fd", i).i("c", c).b("args", fd == ends[size_t(i)].fd && cc == c).b("rdy", cond(i, c)).b("on", loop->isRunningInThisThread()); out(j);
				if(c == 0 && R.chance(50)) { uint8_t b[4096]; (void)!read(ends[size_t(i)].fd, b, R.chance(50) ? sizeof b : 1); }
				if(c == 1 && R.chance(50)) { uint8_t b[4096] = {}; (void)!write(ends[size_t(i)].fd, b, sizeof b); }
				work();
			};
			if(R.chance(30)) loop->registerDescriptor(ends[size_t(i)].fd, RunLoop::Condition(c), Task([&, called, i, c] { called(ends[size_t(i)].fd, c); }));
			else loop->registerDescriptor(ends[size_t(i)].fd, RunLoop::Condition(c), [called] (RunLoop *, int fd, RunLoop::Condition cc) { called(fd, int(cc)); });
		};
		auto doUnreg = [&] (int i, int c) { { J j; j.str("e", "unreg").i("fd", i).i("c", c); out(j); } if(c == 2) { loop->unregisterDescriptor(ends[size_t(i)].fd); reg.erase({ i, 0 }); reg.erase({ i, 1 }); } else { loop->unregisterDescriptor(ends[size_t(i)].fd, RunLoop::Condition(c)); reg.erase({ i, c }); } };
		auto later = [&] { int id = ++nl; { J j; j.str("e", "later").i("id", id); out(j); } loop->doLater([&, id] { { J j; j.str("e", "task").i("id", id); out(j); } work(); }); };
		op = [&] {
			if(budget-- <= 0) return;
			int i = R.range(0, int(ends.size()) - 1), c = R.range(0, 1);
			switch(R.range(0, 15))
			{
			case 0: case 1: case 2: doReg(i, c); break;
			case 3: case 4: if(ends[size_t(i)].open) doUnreg(i, R.range(0, 2)); break;
			case 5: case 6: case 7: if(ends[size_t(i)].open) { uint8_t b[4096] = {}; (void)!write(ends[size_t(i)].fd, b, R.chance(70) ? 1 : sizeof b); } break;
			case 8: if(ends[size_t(i)].open) { uint8_t b[4096]; (void)!read(ends[size_t(i)].fd, b, sizeof b); } break;
			case 9: case 10: later(); break;
			case 11: case 12: { int id = ++nt; auto t = loop->scheduleRel(R.pick({ 0, 0, 1, 2 }) * 0.0003L); { J j; j.str("e", "tsch").i("id", id).i("due", us(t->getNextFireTime())); out(j); } t->action = [&, id] (const std::shared_ptr<Timer> &, Time now) { { J j; j.str("e", "tfire").i("id", id).i("now", us(now)); out(j); } work(); }; break; }
			case 13: if(running && R.chance(20)) { { J j; j.str("e", "stop"); out(j); } loop->stop(); } break;
			case 14: // close the writing end: end of file
				{ auto &p = R.pick(pairs); if(!ends[size_t(p.second)].open || !R.chance(50)) break; doUnreg(p.second, 2); ::close(ends[size_t(p.second)].fd); ends[size_t(p.second)].open = false; break; }
			case 15: // close a pair and make another, likely with the same descriptors
				{ auto &p = R.pick(pairs); if(!R.chance(40) || !ends[size_t(p.first)].open) break; for(int x : { p.second, p.first }) if(ends[size_t(x)].open) { doUnreg(x, 2); ::close(ends[size_t(x)].fd); ends[size_t(x)].open = false; } mkPair(); if(R.chance(70)) doReg(int(ends.size()) - 2, 0); if(R.chance(50)) { uint8_t b[1] = {}; (void)!write(ends.back().fd, b, 1); } break; }
			}
		};
		loop->onEveryCycle = [&] {
			ready("pass"); if(R.chance(20)) op();
			if(++cycles >= maxCycles) { { J j; j.str("e", "stop"); out(j); } loop->stop(); }
			else ready("begin");
		};
		int runs = R.range(1, 4);
		for(int r = 0; r < runs; r++)
		{
			int k = R.range(1, 8); while(k--) op();
			cycles = 0; maxCycles = R.range(2, 10); long long iv = R.pick({ 0, 200, 1500 });
			{ J j; j.str("e", "run").i("iv", iv); out(j); } ready("begin");
			Time t0 = loop->getCurrentTimeNoCache(); running = true;
			loop->run(Duration(iv) / 1e6L);
			running = false;
			{ J j; j.str("e", "ended").i("el", (long long)floorl((loop->getCurrentTimeNoCache() - t0) * 1e6L + 0.5L)).b("on", loop->isRunningInThisThread()); out(j); }
			if(R.chance(10)) { { J j; j.str("e", "clear"); out(j); } loop->clear(); reg.clear(); }
		}
		ending = true;
		for(auto &e : ends) if(e.open) ::close(e.fd);
		loop->clear(); loop.reset();
		{ J j; j.str("e", "end"); out(j); }
		theTrace().flush();
	}
	{ J j; j.str("e", "eof"); out(j); } theTrace().flush(); _exit(0);
}
