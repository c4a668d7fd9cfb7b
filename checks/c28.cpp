// C28: a server running in the background can be measured and stopped at any moment
#include "mc.hpp"
#include "sched.hpp"
#define FAKENET_POINT sched::point(sched::File); sched::Ignored ignored;
#include "fakenet.hpp"
#include "zoo.hpp"
#include <mutex>
#include <thread>
#include "bomba_tcp_server.hpp"
using namespace Bomba;

// Answers every byte, and checks it's not used when it should not
static int sessionsAlive = 0;
static bool usable = false;
struct Responder {
	struct Session {
		int handled = 0;
		Session() { sched::Quiet quiet; sessionsAlive++; MC_CHECK(usable, "used-late", "a session is made when the server does not exist"); }
		Session(const Session& other) : handled(other.handled) { sessionsAlive++; }
		~Session() { sessionsAlive--; }
		std::pair<ServerReaction, int64_t> respond(std::span<char> input, Callback<void(std::span<const char>)> writer) {
			MC_CHECK(usable, "used-late", "a session is used when the server does not exist");
			sched::point(sched::Point);
			if (input.size() < 2) return {ServerReaction::READ_ON, int64_t(input.size())};
			if (input[0] == 'D') return {ServerReaction::DISCONNECT, 0};
			std::string output = mc::fmt("%d%c%c;", handled++, input[0], input[1]);
			writer(std::span<const char>(output.data(), output.size()));
			return {ServerReaction::OK, 2};
		}
	};
	Session getSession() { return {}; }
};

struct Client {
	std::shared_ptr<fakenet::Connection> connection;
	std::string sent;
	bool closed = false;
};
static std::string due(std::string_view sent) {
	std::string r;
	for (int i = 0; sent.size() >= 2 && sent[0] != 'D'; i++, sent.remove_prefix(2)) r += mc::fmt("%d%c%c;", i, sent[0], sent[1]);
	return r;
}
static bool dropped(std::string_view sent) {
	while (sent.size() >= 2 && sent[0] != 'D') sent.remove_prefix(2);
	return sent.size() >= 2;
}

enum Operation { Connect, SendWhole, SendHalf, SendDrop, Close, Measure, Settle, operations };
static const char* names[] = {"connect", "send", "send half", "send D", "close", "measure", "settle"};
enum Kind { Background, BackgroundThreads, OwnThread, StoppedByHandler, kinds };

static void session(Kind kind, const std::vector<int>& program, bool bounded, bool withMemory) {
	fakenet::Use use;
	auto& net = use.made;
	sessionsAlive = 0;
	Responder responder;
	std::vector<Client> clients;
	volatile int waiting = 0; // If the server waits
	bool idle = false;
	std::function<bool()> ready;
	net.onWait = [&] (std::function<bool()> isReady) {
		sched::Quiet quiet;
		sched::Ignored ignored;
		ready = isReady;
		idle = true;
		sched::waitUntil(isReady);
		idle = false;
	};
	auto check = [&] (bool ended) {
		for (size_t i = 0; i < clients.size(); i++) {
			auto& it = clients[i];
			auto whole = due(it.sent);
			if (ended) MC_CHECK(whole.starts_with(it.connection->sent), "answers", mc::fmt("client %zu got ", i) + mc::quoted(it.connection->sent) + " instead of a part of " + mc::quoted(whole));
			else if (!it.closed) {
				MC_CHECK(it.connection->sent == whole, "answers", mc::fmt("client %zu got ", i) + mc::quoted(it.connection->sent) + " instead of " + mc::quoted(whole));
				MC_CHECK(it.connection->localClosed == dropped(it.sent), "dropped", mc::fmt("client %zu is ", i) + (it.connection->localClosed ? "dropped" : "not dropped"));
			} else MC_CHECK(it.connection->localClosed, "not-closed", mc::fmt("client %zu is gone but the server keeps the connection", i));
		}
		MC_CHECK(!net.sigpipe, "sigpipe", "a signal would end the server");
	};
	auto main = [&] {
		auto use = [&] (auto& server) {
			for (int operation : program) {
				if (mc::failed()) break;
				sched::point(sched::Point);
				std::chrono::nanoseconds::rep time = 0;
				if (operation == Measure) time = server.averageResponseTime().count();
				sched::Quiet quiet;
				sched::Ignored ignored;
				auto send = [&] (std::string_view data) {
					if (clients.empty() || clients.back().closed || clients.back().connection->localClosed) return;
					clients.back().sent += data;
					clients.back().connection->toLocal += data;
				};
				switch (operation) {
				case Connect: clients.push_back({net.connectClient()}); break;
				case SendWhole: send("ab"); break;
				case SendHalf: send("c"); break;
				case SendDrop: send("D!"); break;
				case Close:
					if (clients.empty()) break;
					clients.back().closed = true;
					clients.back().connection->remoteClosed = true;
					break;
				case Measure: {
					bool any = false;
					for (auto& it : clients) if (due(it.sent).size()) any = true;
					MC_CHECK(time >= 0 && time < 100000000000, "time", mc::fmt("the average response time is %lld", (long long)time));
					if (!any) MC_CHECK(time == 0, "time", mc::fmt("the average response time without responses is %lld", (long long)time));
					break;
				}
				case Settle:
					sched::waitUntil([&] { return idle && !ready(); });
					check(false);
					break;
				}
			}
		};
		usable = true;
		switch (kind) {
		case Background: {
			BackgroundTcpServer<Responder> server(responder, 80);
			use(server);
			break;
		}
		case BackgroundThreads: {
			BackgroundTcpServer<Responder> server(responder, 80, 2);
			use(server);
			break;
		}
		case OwnThread: {
			TcpServer<Responder> server(responder, 80);
			std::thread worker([&] { server.run(); });
			use(server);
			server.stopRunning();
			worker.join();
			break;
		}
		default: { // The destructor is not run at the same time as the last operations
			TcpServer<Responder> server(responder, 80);
			std::thread worker([&] { server.run(); });
			use(server);
			std::thread stopper([&] { server.stopRunning(); });
			worker.join();
			stopper.join();
		}
		}
		usable = false;
	};
	sched::run({main}, bounded, withMemory);
	if (mc::failed()) return;
	check(true);
	MC_CHECK(sessionsAlive == 0, "sessions-left", mc::fmt("%d sessions remain", sessionsAlive));
	MC_CHECK(net.files.empty(), "files-left", mc::fmt("%zu descriptors remain open", net.files.size()));
	for (auto& it : clients) if (it.connection->fd >= 0) mc::fail("connection-left", "a connection remains open");
	if (!mc::failed()) mc::validated();
}

// All that make sense, those that connect nobody only if they are short
static const std::vector<std::vector<int>>& programs(int length) {
	static std::map<int, std::vector<std::vector<int>>> made;
	auto& result = made[length];
	if (!result.empty()) return result;
	std::vector<int> program;
	std::function<void()> extend = [&] {
		result.push_back(program);
		if (int(program.size()) >= length) return;
		bool any = false, open = false;
		for (int it : program) {
			if (it == Connect) any = open = true;
			if (it == Close) open = false;
		}
		for (int next = 0; next < operations; next++) {
			if (next >= SendWhole && next <= Close && !open) continue;
			if (next == Settle && !program.empty() && program.back() == Settle) continue;
			if (next == Measure && !any && !program.empty()) continue;
			program.push_back(next);
			extend();
			program.pop_back();
		}
	};
	extend();
	return result;
}
static void anyProgram(int u, int length, bool withMemory) {
	Kind kind = Kind(u % kinds);
	auto& all = programs(length);
	if (u / kinds >= int(all.size())) return;
	auto& program = all[u / kinds];
	std::string text = mc::fmt("kind %d:", kind);
	for (int it : program) text += std::string(" ") + names[it];
	mc::describe(text);
	session(kind, program, true, withMemory);
}
constexpr int longest = 3, longestThorough = 4;
#ifdef __SANITIZE_THREAD__
constexpr int switches = 2;
#else
constexpr int switches = 3;
#endif
static mc::Register operationsInOrders("sequences of operations in all orders with the server", kinds * int(programs(longestThorough).size()), [] (int u) {
	anyProgram(u, mc::thorough() ? longestThorough : longest, false);
}, switches);
static mc::Register shortOnes("short sequences switched also at allocations", kinds * int(programs(longest).size()), [] (int u) {
	anyProgram(u, mc::thorough() ? longest : longest - 1, true);
}, 1);
