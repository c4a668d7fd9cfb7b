// C14: TCP server sessions are isolated and faults stay local
#include "fakenet.hpp"
#include "zoo.hpp"
#include "bomba_core.hpp"
#include <mutex>
#include <thread>
#include "bomba_tcp_server.hpp"
#include "bomba_object.hpp"
#include "bomba_http.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_dynamic_object.hpp"
using namespace Bomba;

// Answers messages made of a byte with size (without itself) and contents
static int sessionsAlive = 0;
static std::string answer(int index, std::string_view message) { return mc::fmt("#%d:", index) + std::string(message) + ";"; }
constexpr size_t bigSize = 5000;
static std::string bigAnswer(int index, std::string_view message) { return answer(index, message) + std::string(bigSize, char('A' + index % 20)) + "|"; }
struct Echo {
	struct Session {
		int handled = 0;
		Session() { sessionsAlive++; }
		Session(const Session& other) : handled(other.handled) { sessionsAlive++; }
		Session(Session&& other) : handled(other.handled) { sessionsAlive++; }
		~Session() { sessionsAlive--; }
		std::pair<ServerReaction, int64_t> respond(std::span<char> input, Callback<void(std::span<const char>)> writer) {
			size_t size = (unsigned char)input[0];
			if (input.size() < size + 1) return {ServerReaction::READ_ON, int64_t(input.size())};
			std::string_view message(input.data() + 1, size);
			int index = handled++;
			std::string output = answer(index, message);
			char what = message.empty() ? 'x' : message[0];
			if (what == 'D') return {ServerReaction::DISCONNECT, 0};
			if (what == 't') throw std::runtime_error("failing handler");
			if (what == 'T') throw 5;
			if (what == 'b') {
				output = bigAnswer(index, message);
				std::string_view rest = output;
				while (rest.size()) {
					size_t now = std::min<size_t>(rest.size(), 2000);
					writer(std::span<const char>(rest.data(), now));
					rest.remove_prefix(now);
				}
			} else if (what == 'e') {
				writer(std::span<const char>());
				writer(std::span<const char>(output.data(), output.size()));
			} else writer(std::span<const char>(output.data(), output.size()));
			if (what == 'd') return {ServerReaction::DISCONNECT, 0};
			if (what == 'w') { // Sends something and fails
				throw std::logic_error("failing after response");
			}
			return {ServerReaction::OK, int64_t(size + 1)};
		}
	};
	Session getSession() { return {}; }
};
static std::string message(std::string_view contents) { return std::string(1, char(contents.size())) + std::string(contents); }

// What a client should get in response to a stream, ends tells if it is dropped
static std::string expectedAnswers(std::string_view stream, bool& dropped) {
	std::string r;
	dropped = false;
	for (int i = 0; !stream.empty(); i++) {
		size_t size = (unsigned char)stream[0];
		if (stream.size() < size + 1) break;
		std::string_view contents = stream.substr(1, size);
		char what = contents.empty() ? 'x' : contents[0];
		if (what == 'D' || what == 't' || what == 'T') { dropped = true; return r; }
		r += what == 'b' ? bigAnswer(i, contents) : answer(i, contents);
		if (what == 'd' || what == 'w') { dropped = true; return r; }
		stream.remove_prefix(size + 1);
	}
	return r;
}

template <typename Responder>
struct World {
	fakenet::Use use;
	Responder& responder;
	std::unique_ptr<TcpServer<Responder>> server;
	struct Client {
		std::shared_ptr<fakenet::Connection> connection;
		std::string sent;
		bool closed = false, faulty = false; // By itself, or the network can fail
	};
	std::vector<Client> clients;
	explicit World(Responder& responder) : responder(responder) {
		server = std::make_unique<TcpServer<Responder>>(responder, 80);
	}
	int connect() {
		clients.push_back({use.made.connectClient()});
		return int(clients.size()) - 1;
	}
	void send(int which, std::string_view data) {
		auto& it = clients[which];
		if (it.connection->localClosed) return; // It would be refused
		it.sent += data;
		it.connection->toLocal += data;
	}
	void round() {
		try {
			server->runARound();
		} catch (fakenet::Blocked&) {
			mc::fail("blocked", "the server blocks waiting for one client");
		} catch (std::exception& e) {
			mc::fail("server-exception", std::string("an exception escaped from the server: ") + e.what());
		} catch (...) {
			mc::fail("server-exception", "something else escaped from the server");
		}
		uint64_t state = 0;
		for (auto& it : clients) state = mc::mix(state, mc::mix(mc::hash(it.connection->sent), it.connection->localClosed * 2 + it.connection->remoteClosed));
		mc::step(state);
		MC_CHECK(!use.made.sigpipe, "sigpipe", "a signal would end the server after writing to a closed connection");
	}
	// All have to be as expected after the server did all it could
	void check(const std::function<std::string(std::string_view, bool&)>& expected) {
		if (mc::failed()) return;
		int alive = 0;
		for (size_t i = 0; i < clients.size(); i++) {
			auto& it = clients[i];
			bool dropped = false;
			std::string answers = expected(it.sent, dropped);
			auto& sent = it.connection->sent;
			if (it.faulty || it.closed)
				MC_CHECK(answers.starts_with(sent), "wrong-answer", mc::fmt("client %zu got ", i) + mc::quoted(sent, 200) + " instead of the beginning of " + mc::quoted(answers, 200));
			else
				MC_CHECK(answers == sent, "wrong-answer", mc::fmt("client %zu got ", i) + mc::quoted(sent, 200) + " instead of " + mc::quoted(answers, 200));
			if (it.closed || dropped) MC_CHECK(it.connection->localClosed, "not-closed", mc::fmt("the socket of client %zu was not closed", i));
			else if (!it.faulty) MC_CHECK(!it.connection->localClosed, "closed", mc::fmt("the socket of client %zu was closed", i));
			if (!it.connection->localClosed) alive++;
			if (!it.connection->localClosed) MC_CHECK(it.connection->toLocal.empty(), "unread", mc::fmt("data from client %zu was not received", i));
		}
		MC_CHECK(int(use.made.files.size()) == 3 + alive, "leaked-sockets", mc::fmt("there are %zu open sockets with %d connections", use.made.files.size() - 3, alive));
		if constexpr (std::is_same_v<Responder, Echo>)
			MC_CHECK(sessionsAlive == alive, "leaked-sessions", mc::fmt("there are %d sessions with %d connections", sessionsAlive, alive));
	}
	// Everybody else can still connect
	void finish(const std::function<std::string(std::string_view, bool&)>& expected, std::string_view request) {
		for (int i = 0; i < 3 && !mc::failed(); i++) round();
		check(expected);
		if (mc::failed()) return;
		int last = connect();
		send(last, request);
		for (auto& it : clients) {
			int index = int(&it - clients.data());
			if (!it.closed && !it.faulty && index != last && !it.connection->localClosed) {
				// Only if it's not in the middle of a message
				send(index, request);
			}
		}
		round();
		round();
		check(expected);
		server.reset();
		MC_CHECK(use.made.files.empty() || mc::failed(), "leaked-sockets", mc::fmt("%zu sockets are open after the server is gone", use.made.files.size()));
		if constexpr (std::is_same_v<Responder, Echo>)
			MC_CHECK(sessionsAlive == 0 || mc::failed(), "leaked-sessions", "sessions survived the server");
		mc::validated();
	}
};

// All sequences of events at 3 clients
static const std::vector<std::string>& pieces() {
	static const std::vector<std::string> made = {
		message("aa"), // Whole message
		std::string(1, 3) + "p", // Incomplete
		"qr" + message("s"), // Its rest and another one
	};
	return made;
}
static mc::Register events("all sequences of events at three clients", 16 * 16, [] (int u) {
	sessionsAlive = 0;
	Echo echo;
	World<Echo> world(echo);
	struct State { int progress = 0; bool connected = false; int index = -1; };
	State states[3];
	int depth = mc::thorough() ? 7 : 6;
	for (int i = 0; i < depth && !mc::failed(); i++) {
		struct Event { int client, what; };
		std::vector<Event> enabled;
		bool newOffered = false;
		for (int c = 0; c < 3; c++) {
			if (!states[c].connected) {
				if (!newOffered) enabled.push_back({c, 0}); // They are interchangeable
				newOffered = true;
				continue;
			}
			auto& client = world.clients[states[c].index];
			if (client.closed || client.connection->localClosed) continue;
			enabled.push_back({c, 1});
			enabled.push_back({c, 2});
			if (states[c].progress % 3 != 2) { // Between messages
				enabled.push_back({c, 3});
				enabled.push_back({c, 4});
			}
			enabled.push_back({c, 5});
		}
		enabled.push_back({-1, 6});
		enabled.push_back({-1, 7});
		int which;
		if (i == 0) {
			if (u / 16 >= int(enabled.size())) return;
			which = u / 16;
		} else if (i == 1) {
			if (u % 16 >= int(enabled.size())) return;
			which = u % 16;
		} else which = mc::choose(int(enabled.size()));
		auto [c, what] = enabled[which];
		bool pass = true;
		mc::describeMore(mc::fmt(" %d:%d", c, what));
		switch (what) {
		case 0: states[c].connected = true; states[c].progress = 0; states[c].index = world.connect(); break;
		case 1: { std::string piece = pieces()[states[c].progress++ % 3]; for (char& it : piece) if (it >= 'a') it = char(it + c * 2 + 0); world.send(states[c].index, piece); break; }
		case 2: { auto& client = world.clients[states[c].index]; client.closed = true; client.connection->remoteClosed = true; states[c].connected = false; break; }
		case 3: world.send(states[c].index, message("Drop")); break;
		case 4: world.send(states[c].index, message("throw")); break;
		case 5: { auto& client = world.clients[states[c].index]; client.closed = true; client.connection->remoteReset = true; states[c].connected = false; break; }
		case 6: world.use.made.acceptErrors.push_back(EMFILE); break;
		case 7: pass = false; break;
		}
		if (c >= 0 && states[c].connected && (what == 3 || what == 4)) states[c].connected = false;
		if (pass && mc::chooseDev(2) == 0) { world.round(); world.check(expectedAnswers); }
	}
	if (mc::failed()) return;
	// Complete what is incomplete
	for (auto& it : states) if (it.connected && it.progress % 3 == 2) world.send(it.index, "qr");
	world.finish(expectedAnswers, message("z"));
}, 1);

// Sessions dropped in all orders in all ways
static mc::Register drops("dropping in all orders and ways", 5 * 5 * 4, [] (int u) {
	sessionsAlive = 0;
	Echo echo;
	World<Echo> world(echo);
	static const char* const ways[] = {"D", "d", "t", "T", "w"};
	int count = 2 + u / 25;
	for (int i = 0; i < count; i++) world.connect();
	bool batch = mc::choose(2);
	world.round();
	for (int i = 0; i < count; i++) world.send(i, message(mc::fmt("x%d", i)));
	world.round();
	world.check(expectedAnswers);
	std::vector<int> left;
	for (int i = 0; i < count; i++) left.push_back(i);
	int steps = 0;
	while (!left.empty() && !mc::failed()) {
		int at = mc::choose(int(left.size()));
		int which = left[at];
		left.erase(left.begin() + at);
		int way = steps == 0 ? u % 5 : steps == 1 ? u / 5 % 5 : (which + steps) % 7;
		mc::describeMore(mc::fmt(" %d by %d", which, way));
		if (way < 5) world.send(which, message(ways[way]));
		else {
			world.clients[which].closed = true;
			(way == 5 ? world.clients[which].connection->remoteClosed : world.clients[which].connection->remoteReset) = true;
		}
		if (steps == 1) left.push_back(world.connect());
		if (!batch || steps % 2) {
			world.round();
			for (int it : left) world.send(it, message(mc::fmt("y%d", it)));
			world.round();
			world.check(expectedAnswers);
		}
		steps++;
		if (steps > 6) break;
	}
	world.finish(expectedAnswers, message("z"));
});

// Network failures at every call
static mc::Register faults("failures of sending at every call", 3 * 6, [] (int u) {
	sessionsAlive = 0;
	Echo echo;
	World<Echo> world(echo);
	int faulty = u / 6;
	for (int i = 0; i < 3; i++) world.connect();
	world.round();
	int sends = 0;
	static const long results[] = {-1, -2, 1, 2000, -EPIPE, -ECONNRESET, -EINTR, -EIO, -ETIMEDOUT}; // All, half
	auto& connection = *world.clients[faulty].connection;
	bool failed = false;
	connection.onSend = [&] (size_t size) -> long {
		sends++;
		int kind = sends > 9 ? 0 : mc::chooseDev(9);
		if (kind) mc::describeMore(mc::fmt(" send %d: %ld", sends, results[kind]));
		if (kind >= 4 && kind != 6) { failed = true; world.clients[faulty].faulty = true; }
		if (kind == 0) return long(size);
		if (kind == 1) return long((size + 1) / 2);
		return results[kind];
	};
	static const char* const messages[] = {"a", "b", "e", "d", "c", "w"};
	for (int i = 0; i < 3; i++) {
		std::string contents = i == 0 ? messages[u % 6] : mc::thorough() ? mc::pick(messages) : messages[mc::choose(i == 1 ? 3 : 1)];
		mc::describeMore(" " + contents);
		for (int c = 0; c < 3; c++) if (!world.clients[c].connection->localClosed) world.send(c, message(c == faulty ? contents : std::string("b") + char('0' + c)));
		if (i == 0 && mc::choose(2)) world.send(faulty, message("a2"));
		world.round();
		world.check(expectedAnswers);
		if (mc::failed()) return;
		if (failed) MC_CHECK(connection.localClosed, "not-closed", "the connection was kept after sending failed");
	}
	world.finish(expectedAnswers, message("z"));
}, 2);
static mc::Register accepts("failures of accepting", 10, [] (int u) {
	sessionsAlive = 0;
	static const int errors[] = {0, EMFILE, ENFILE, ECONNABORTED, EINTR, ENOMEM, ENOBUFS, EPROTO, EAGAIN, EPERM};
	Echo echo;
	World<Echo> world(echo);
	int length = 1 + mc::choose(4);
	for (int i = 0; i < length; i++) {
		int error = errors[i ? mc::choose(10) : u];
		world.use.made.acceptErrors.push_back(error);
		mc::describeMore(mc::fmt(" %d", error));
	}
	int before = mc::choose(3);
	for (int i = 0; i < before; i++) {
		int c = world.connect();
		world.send(c, message("first"));
	}
	for (int i = 0; i < 6; i++) world.round();
	int after = mc::choose(2) + 1;
	for (int i = 0; i < after; i++) {
		int c = world.connect();
		world.send(c, message("second"));
	}
	for (int i = 0; i < 6; i++) world.round();
	// Aborted connections never existed
	for (auto& it : world.clients) if (it.connection->fd == -1 && it.connection->localClosed) it.closed = true;
	world.use.made.acceptErrors.clear();
	world.finish(expectedAnswers, message("z"));
});
// Received data in chunks with failing reception
static mc::Register receiving("receiving in parts and failing", 8, [] (int u) {
	sessionsAlive = 0;
	Echo echo;
	World<Echo> world(echo);
	world.connect();
	world.connect();
	world.round();
	int receives = 0;
	static const long results[] = {2048, 1, 2, 3, -ECONNRESET, -ETIMEDOUT, -EIO};
	world.clients[0].connection->onReceive = [&] (size_t) -> long {
		receives++;
		int kind = receives > 14 ? 0 : mc::chooseDev(7);
		if (kind) mc::describeMore(mc::fmt(" receive %d: %ld", receives, results[kind]));
		if (kind >= 4) { world.clients[0].closed = true; world.clients[0].connection->remoteClosed = true; }
		return results[kind];
	};
	std::string stream;
	for (int i = 0; i < 4; i++) stream += message(std::string("m") + char('0' + i) + (i == 2 ? std::string(200, 'x') : std::string()));
	size_t cut = u * 30;
	world.send(0, stream.substr(0, cut));
	world.send(1, stream.substr(0, 2));
	world.round();
	world.send(0, stream.substr(cut));
	world.send(1, stream.substr(2));
	world.round();
	world.check(expectedAnswers);
	world.finish(expectedAnswers, message("z"));
}, 2);
// Running until stopped instead of in rounds
static mc::Register running("running until stopped", 6 * 6 * 6, [] (int u) {
	sessionsAlive = 0;
	Echo echo;
	World<Echo> world(echo);
	std::vector<int> script = {u % 6, u / 6 % 6, u / 36};
	for (int i = 0; i < 3; i++) script.push_back(mc::choose(6));
	size_t done = 0;
	world.use.made.onIdle = [&] {
		world.check(expectedAnswers);
		if (done == script.size()) {
			world.server->stopRunning();
			return true;
		}
		auto& clients = world.clients;
		int what = script[done++];
		int oldest = -1, newest = -1;
		for (size_t i = 0; i < clients.size(); i++) if (!clients[i].connection->localClosed && !clients[i].closed) { if (oldest < 0) oldest = int(i); newest = int(i); }
		mc::describeMore(mc::fmt(" %d", what));
		switch (what) {
		case 0: world.connect(); break;
		case 1: if (newest >= 0) world.send(newest, message("n")); else world.connect(); break;
		case 2: if (oldest >= 0) world.send(oldest, message("b")); else world.connect(); break;
		case 3: if (oldest >= 0) world.send(oldest, message("D")); else world.connect(); break;
		case 4: if (newest >= 0) { clients[newest].closed = true; clients[newest].connection->remoteClosed = true; } else world.connect(); break;
		case 5: for (auto& it : clients) if (!it.closed && !it.connection->localClosed) world.send(int(&it - clients.data()), message("all")); world.connect(); break;
		}
		return true;
	};
	try {
		world.server->run();
	} catch (fakenet::Blocked&) {
		mc::fail("blocked", "the server blocks");
	} catch (std::exception& e) {
		mc::fail("server-exception", std::string("an exception escaped from the server: ") + e.what());
	}
	if (mc::failed()) return;
	MC_CHECK(done == script.size(), "stopped", "the server stopped running on its own");
	world.check(expectedAnswers);
	world.server.reset();
	MC_CHECK(world.use.made.files.empty() && sessionsAlive == 0, "leaked-sockets", "sockets or sessions survived the server");
	mc::validated();
});

// Real protocols
struct Methods : RpcObject<Methods> {
	RpcMember<[] (std::string text = name("text")) { if (text == "fail") throw std::runtime_error("told to fail"); return "<" + text + ">"; }> echo = child<"echo">;
	RpcMember<[] (int32_t size = name("size")) { return std::string(size_t(size), 's'); }> big = child<"big">;
};
static std::string post(const std::string& body) { return "POST / HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + "\r\nContent-Type: application/json\r\n\r\n" + body; }
static std::string jsonCall(const std::string& method, const std::string& params) { return post("{\"jsonrpc\":\"2.0\",\"id\":5,\"method\":\"" + method + "\",\"params\":" + params + "}"); }
static const std::vector<std::string>& httpRequests() {
	static const std::vector<std::string> made = {
		jsonCall("echo", "{\"text\":\"one\"}"),
		jsonCall("big", "{\"size\":10000}"),
		jsonCall("echo", "{\"text\":\"fail\"}"),
		"GET / HTTP/1.1\r\n\r\n",
		"GET / HTTP/1.1\r\nConnection: close\r\n\r\n",
		post("garbage"),
		"PUT / HTTP/1.1\r\nContent-Length: 0\r\n\r\n",
		post("{\"jsonrpc\":"),
		"garbage\r\n\r\n",
		"POST / HTTP/1.1\r\n\r\n",
		jsonCall("echo", "{\"text\":\"" + std::string(7000, 'l') + "\"}"),
		jsonCall("missing", "{}"),
	};
	return made;
}
static std::string httpExpected(std::string_view stream, bool& dropped) {
	static Methods methods;
	static SimpleGetResponder page;
	page.resource = "a page";
	JsonRpcServer<> server(methods, page);
	auto session = server.getSession();
	std::string output, unread(stream);
	dropped = false;
	while (!unread.empty()) {
		auto [reaction, consumed] = session.respond(std::span<char>(unread.data(), unread.size()), [&] (std::span<const char> written) { output.append(written.data(), written.size()); });
		if (reaction == ServerReaction::DISCONNECT) dropped = true;
		if (reaction != ServerReaction::OK) break;
		unread.erase(0, consumed);
	}
	return output;
}
static mc::Register http("three clients of a JSON-RPC server", 12 * 12, [] (int u) {
	Methods methods;
	SimpleGetResponder page;
	page.resource = "a page";
	JsonRpcServer<> server(methods, page);
	World<JsonRpcServer<>> world(server);
	std::string streams[3] = {httpRequests()[u / 12], httpRequests()[u % 12] + httpRequests()[0], httpRequests()[mc::choose(12)]};
	size_t sent[3] = {};
	for (int i = 0; i < 3; i++) world.connect();
	int parts = mc::choose(3);
	int order = mc::choose(6);
	mc::describe(mc::fmt("parts %d order %d ", parts, order) + mc::quoted(streams[0], 60) + mc::quoted(streams[1], 60) + mc::quoted(streams[2], 60));
	static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	bool lazily = mc::choose(2); // Rounds only after something from everyone
	for (int part = 0; part <= parts; part++) {
		for (int i = 0; i < 3; i++) {
			int c = orders[order][i];
			size_t end = part == parts ? streams[c].size() : streams[c].size() * (part + 1) / (parts + 1);
			if (!world.clients[c].connection->localClosed) world.send(c, streams[c].substr(sent[c], end - sent[c]));
			sent[c] = end;
			if (!lazily) world.round();
		}
		world.round();
		world.check(httpExpected);
	}
	world.finish(httpExpected, httpRequests()[0]);
});
static std::string binaryExpected(std::string_view stream, bool& dropped) {
	static Methods methods;
	BinaryProtocolServer<uint16_t> server(methods);
	auto session = server.getSession();
	std::string output, unread(stream);
	dropped = false;
	while (!unread.empty()) {
		auto [reaction, consumed] = session.respond(std::span<char>(unread.data(), unread.size()), [&] (std::span<const char> written) { output.append(written.data(), written.size()); });
		if (reaction == ServerReaction::DISCONNECT) dropped = true;
		if (reaction != ServerReaction::OK) break;
		unread.erase(0, consumed);
	}
	return output;
}
static std::string binaryMessage(uint32_t id, const std::string& rest) {
	std::string r;
	zoo::putLE(r, id);
	zoo::putSize(r, 6 + rest.size(), 2);
	return r + rest;
}
static mc::Register binary("three clients of a binary server", 7 * 7, [] (int u) {
	Methods methods;
	BinaryProtocolServer<uint16_t> server(methods);
	World<BinaryProtocolServer<uint16_t>> world(server);
	using namespace std::string_literals;
	static const std::string all[] = {binaryMessage(1, "\0\3\0abc"s), binaryMessage(2, "\1\x10\x27\0\0"s), binaryMessage(3, "\0\4\0fail"s), binaryMessage(4, "\7"s), binaryMessage(5, "\0\x09\0abc"s), "\1\2\3\4\0\0"s, binaryMessage(6, "\1\0\0\0\0"s) + binaryMessage(7, "\0\0\0"s)};
	std::string streams[3] = {all[u / 7], all[u % 7] + all[0], mc::pick(all)};
	size_t sent[3] = {};
	for (int i = 0; i < 3; i++) world.connect();
	int parts = mc::choose(4);
	bool lazily = mc::choose(2);
	mc::describe(mc::fmt("parts %d ", parts) + mc::quoted(streams[0], 60) + mc::quoted(streams[1], 60) + mc::quoted(streams[2], 60));
	for (int part = 0; part <= parts; part++) {
		for (int c = 0; c < 3; c++) {
			size_t end = part == parts ? streams[c].size() : streams[c].size() * (part + 1) / (parts + 1);
			if (!world.clients[c].connection->localClosed) world.send(c, streams[c].substr(sent[c], end - sent[c]));
			sent[c] = end;
			if (!lazily) world.round();
		}
		world.round();
		world.check(binaryExpected);
	}
	world.finish(binaryExpected, all[0]);
});
