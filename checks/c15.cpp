// C15: results of remote calls through the network client, for every way the responses may arrive and be asked for
#include "remotezoo.hpp"
using namespace remotezoo;

static Sample callOf(int which) { // Calls with results that can't be confused
	switch (which) {
	case 0: return mAdd.with(5, 20);
	case 1: return mEcho.with("HTTP/1.1 200");
	case 2: return mStop.with();
	case 3: return mNot.with(false);
	case 4: return mRepeat.with("ab", 3);
	case 5: return mScale.with(1.5, 2.0f, 1);
	case 6: return mAdd.with(-100000, 1);
	case 7: return mEcho.with("");
	case 8: return mEach.with({1, -2, 3}, true);
	case 9: return mNote.with("x", true);
	case 10: return mMaybe.with(std::nullopt);
	case 11: return mEcho.with("\r\n\r\n{}[]");
	default: return mNumber.with();
	}
}
constexpr int callKinds = 13;

struct Pending {
	Sample sample;
	std::unique_ptr<AnyFuture> future;
	bool fetched = false;
};

struct Run {
	World world;
	std::vector<Pending> pending;
	int style = 0;
	bool hold = false; // The responses are composed by the scenario
	explicit Run(Kind kind) : world(kind) {
		calls.clear();
		world.answer = [this] (int index, const Received& request) {
			if (index >= int(pending.size())) return std::string();
			return world.right(pending[index].sample, request, style);
		};
	}
	void call(Sample sample) {
		pending.push_back({std::move(sample)});
		size_t before = world.requests.size();
		try {
			pending.back().future = pending.back().sample.async(world.remote);
		} catch (std::exception& e) {
			mc::fail("call", "making a call failed: " + std::string(e.what()));
			return;
		}
		MC_CHECK(world.requests.size() == before + 1, "request-count", mc::fmt("%zu requests were sent by one call", world.requests.size() - before));
		mc::step(mc::mix(1, pending.size()));
	}
	virtual bool available(size_t index) { return world.arrived(index); }
	bool poll(size_t index) {
		auto& p = pending[index];
		if (!p.future) return false;
		bool mustBe = p.fetched || available(index);
		bool ready = false;
		try {
			int tries = 0;
			do ready = world.poll(*p.future);
			while (mustBe && !ready && ++tries < 100);
		} catch (std::exception& e) {
			mc::fail("poll-exception", "asking for the result threw " + std::string(e.what()));
			return false;
		}
		MC_CHECK(ready || !mustBe, "not-ready", mc::fmt("the result of call %zu is never reported although its response has arrived", index));
		MC_CHECK(!ready || mustBe, "ready-early", mc::fmt("the result of call %zu is reported although its response has not arrived", index));
		mc::step(mc::mix(mc::mix(2, index), mc::mix(ready, world.delivered)));
		return ready;
	}
	void fetch(size_t index) {
		auto& p = pending[index];
		if (!p.future) return;
		Node got;
		std::string problem;
		bool had = available(index);
		size_t before = world.use.made.receives, left = world.connection->toLocal.size();
		auto outcome = World::fetch([&] { return p.future->get(); }, got, problem);
		(void)before; (void)left;
		MC_CHECK(outcome == World::Value, outcome == World::Waits ? "fetch-waits" : "fetch-error", mc::fmt("fetching the result of call %zu %s", index, p.sample.text().c_str()) + (had ? " (arrived)" : " (not arrived yet)") + ": " + problem);
		if (outcome == World::Value)
			MC_CHECK(sameNode(got, p.sample.result) || (p.sample.isVoid && got.kind == Node::Null), "wrong-result", mc::fmt("the result of call %zu %s is ", index, p.sample.text().c_str()) + show(got) + " instead of " + show(p.sample.result));
		p.fetched = true;
		mc::step(mc::mix(mc::mix(3, index), world.delivered));
	}
	void finish() { // Everything arrives and is fetched, and the client still works
		world.onWaiting = nullptr;
		world.connection->onReceive = nullptr;
		for (size_t i = 0; i < pending.size() && !mc::failed(); i++) if (!pending[i].fetched) fetch(i);
		if (mc::failed()) return;
		call(mAdd.with(int32_t(1000 + pending.size()), 1));
		fetch(pending.size() - 1);
		MC_CHECK(calls.empty(), "run-locally", "a remote call ran the method of the local object");
		MC_CHECK(world.connections == 1, "connections", mc::fmt("%d connections were made", world.connections));
		MC_CHECK(world.stream.size() == world.delivered && world.connection->toLocal.empty(), "left", "something remained unread after reading the last response");
		mc::validated();
	}
	virtual ~Run() = default;
};

static std::vector<std::array<int, 3>> triples() { return {{0, 6, 0}, {1, 2, 4}, {2, 3, 11}, {7, 5, 2}}; }
static const int permutations[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};

// Three calls, then their responses cut at any two places, with questions asked in between
static mc::Register split("three pending calls, responses cut anywhere", kindCount * 4 * 6, [] (int u) {
	Kind kind = Kind(u % kindCount);
	auto triple = triples()[u / kindCount % 4];
	const int* order = permutations[u / kindCount / 4];
	Run run(kind);
	run.style = kind == JsonRpc ? triple[0] * 5 + order[0] : order[0];
	mc::describe(mc::fmt("%s, calls %d %d %d fetched in the order %d %d %d", kindName(kind), triple[0], triple[1], triple[2], order[0], order[1], order[2]));
	for (int it : triple) run.call(callOf(it));
	if (mc::failed()) return;
	size_t size = run.world.stream.size();
	size_t first = mc::choose(int(size + 1));
	std::vector<size_t> seconds;
	if (isBinary(kind) || mc::thorough()) for (size_t i = first; i <= size; i += isBinary(kind) ? 1 : 7) seconds.push_back(i);
	else {
		for (size_t it : {first, first + 1, run.world.ends[0], run.world.ends[1], run.world.ends[0] + 1, run.world.ends[1] - 1, size - 1, size}) if (it >= first && it <= size) seconds.push_back(it);
		std::sort(seconds.begin(), seconds.end());
		seconds.erase(std::unique(seconds.begin(), seconds.end()), seconds.end());
	}
	size_t second = mc::pick(seconds);
	mc::describeMore(mc::fmt(", responses of %zu bytes cut at %zu and %zu", size, first, second));
	int asked = mc::choose(8);
	mc::describeMore(mc::fmt(", questions %d", asked));
	run.world.deliverTo(first);
	switch (asked) {
	case 0: break;
	case 1: run.poll(order[0]); run.world.deliverTo(second); break;
	case 2: run.poll(order[2]); run.world.deliverTo(second); run.poll(order[1]); break;
	case 3: for (int i = 0; i < 3; i++) run.poll(i); run.world.deliverTo(second); for (int i = 2; i >= 0; i--) run.poll(i); break;
	case 4: run.fetch(order[0]); break; // Waits for the rest
	case 5: run.world.onWaiting = [&] (size_t) { return second > run.world.delivered ? second - run.world.delivered : size; }; run.fetch(order[0]); run.poll(order[2]); run.poll(order[1]); break;
	case 6: run.poll(order[1]); run.world.deliverTo(second); run.fetch(order[0]); run.poll(order[1]); break;
	case 7: run.world.onWaiting = [] (size_t) { return 1; }; run.poll(order[1]); run.fetch(order[0]); break;
	}
	if (asked < 4) {
		run.world.deliverTo(size);
		if (asked == 2) run.poll(order[0]);
	}
	for (int i = 0; i < 3 && !mc::failed(); i++) {
		int index = order[i];
		if (!run.pending[index].fetched) run.fetch(index);
	}
	run.finish();
});

// Any sequence of calls, arrivals, questions and fetching
static mc::Register sequences("sequences of operations", 3 * 12, [] (int u) {
	Kind kind = std::array{JsonRpc, PlainHttp, Binary2}[u % 3];
	int start = u / 3;
	Run run(kind);
	std::string text = kindName(kind);
	run.world.onWaiting = [&] (size_t remaining) { return (remaining + 1) / 2; };
	int length = mc::thorough() ? 8 : 7;
	int made = 0, cut = 0;
	std::array<int, 4> what = {0, 1, 6, 4};
	run.call(callOf(what[made++]));
	for (int i = 0; i < length && !mc::failed(); i++) {
		struct Op { char kind; int index; };
		std::vector<Op> ops;
		if (made < 3) ops.push_back({'c', 0});
		for (int j = 0; j < made; j++) if (!run.pending[j].fetched) {
			ops.push_back({'p', j});
			ops.push_back({'f', j});
		}
		if (run.world.delivered < run.world.stream.size()) { ops.push_back({'h', 0}); ops.push_back({'a', 0}); }
		if (ops.empty()) break;
		Op op = ops[i == 0 ? start % ops.size() : mc::choose(int(ops.size()))];
		if (i == 0 && start >= int(ops.size())) return;
		text += mc::fmt(" %c%d", op.kind, op.index);
		mc::describe(text);
		switch (op.kind) {
		case 'c': run.call(callOf(what[made++])); break;
		case 'p': run.poll(op.index); break;
		case 'f': run.fetch(op.index); break;
		case 'a': run.world.deliver(100000); break;
		case 'h': { // Half of the next response
			size_t end = 0;
			for (size_t it : run.world.ends) if (it > run.world.delivered) { end = it; break; }
			run.world.deliver((end - run.world.delivered + 1) / 2 + (cut++ % 2 ? 3 : 0));
			break;
		}
		}
	}
	run.finish();
});

// Every method and value through a trickle of data, with interrupted and partial operations
static mc::Register trickle("every method in small pieces", kindCount * methodCount, [] (int u) {
	Kind kind = Kind(u % kindCount);
	Sample sample = anyCall(u / kindCount, mc::thorough() ? 1 : 2);
	if (sample.throws || !possible(kind, sample)) return;
	Run run(kind);
	run.style = mc::choose(run.world.styles());
	static const int pieces[] = {1, 2, 5, 64, 100000};
	int piece = mc::pick(pieces);
	mc::describe(std::string(kindName(kind)) + " " + sample.text() + mc::fmt(" in pieces of %d bytes, style %d", piece, run.style));
	int mode = mc::choose(2);
	run.call(sample);
	run.call(mAdd.with(1, 2));
	if (mc::failed()) return;
	if (mode == 0) {
		run.world.onWaiting = [=] (size_t) { return piece; };
		run.fetch(0);
		run.fetch(1);
	} else {
		while (!mc::failed()) {
			bool all = run.world.delivered == run.world.stream.size();
			run.poll(0);
			run.poll(1);
			if (all) break;
			run.world.deliver(piece);
		}
		run.fetch(1);
		run.fetch(0);
	}
	run.finish();
});
static mc::Register interrupted("interrupted and partial operations", kindCount * 3, [] (int u) {
	Kind kind = Kind(u % kindCount);
	Run run(kind);
	mc::describe(kindName(kind));
	run.world.connection->onSend = [] (size_t size) -> long {
		switch (mc::chooseDev(4)) {
		case 1: return -EINTR;
		case 2: return 1;
		case 3: return long(size) - 1 > 0 ? long(size) - 1 : 1;
		}
		return long(size);
	};
	run.world.connection->onReceive = [] (size_t limit) -> long {
		switch (mc::chooseDev(4)) {
		case 1: return -EINTR;
		case 2: return 1;
		case 3: return limit > 1 ? long(limit) - 1 : 1;
		}
		return long(limit);
	};
	run.world.onWaiting = [] (size_t remaining) { return (remaining + 1) / 2; };
	int order = u / kindCount;
	run.call(callOf(0));
	run.call(callOf(1));
	if (mc::failed()) return;
	if (order == 1) { run.world.deliver(100000); run.poll(0); run.poll(1); }
	if (order == 2) { run.world.deliver(run.world.stream.size() / 3); run.poll(1); }
	run.fetch(order == 0 ? 0 : 1);
	run.fetch(order == 0 ? 1 : 0);
	run.world.connection->onSend = nullptr;
	run.finish();
}, 3);

// Long responses around the size of buffers
static mc::Register large("responses around the size of buffers", 4 * 3 * 64, [] (int u) {
	Kind kind = std::array{JsonRpc, PlainHttp, Binary2, Binary4}[u % 4];
	int order = u / 4 % 3;
	int part = u / 12;
	static const int around[] = {2048, 4096, 6144, 20480};
	int base = mc::pick(around);
	int size = base - 140 + part * 3 + mc::choose(3);
	mc::describe(std::string(kindName(kind)) + mc::fmt(" text of %d bytes, order %d", size, order));
	Run run(kind);
	std::string text;
	for (int i = 0; i < size; i++) text += char('a' + i % 25);
	run.call(mEcho.with(text));
	run.call(callOf(6));
	run.call(mEcho.with("z" + text));
	if (mc::failed()) return;
	switch (order) {
	case 0: run.fetch(0); run.fetch(1); run.fetch(2); break;
	case 1:
		run.world.deliver(mc::choose(2) ? 100000 : size);
		run.poll(1);
		run.poll(2);
		run.fetch(2);
		run.fetch(1);
		run.fetch(0);
		break;
	case 2:
		run.world.onWaiting = [] (size_t) { return 1024; };
		run.fetch(1);
		run.poll(2);
		run.fetch(0);
		break;
	}
	run.finish();
});

// The responses of the binary protocol are identified, so they may come in any order
static mc::Register shuffled("responses in any order", 3 * 24, [] (int u) {
	Kind kind = Kind(Binary1 + u % 3);
	struct Shuffled : Run {
		using Run::Run;
		std::vector<size_t> arrivesAt;
		bool available(size_t index) override { return index < arrivesAt.size() ? world.delivered >= arrivesAt[index] : Run::available(index); }
	} run(kind);
	std::vector<std::string> responses;
	run.world.answer = nullptr;
	static const int what[] = {0, 1, 2, 6};
	for (int it : what) run.call(callOf(it));
	if (mc::failed()) return;
	std::vector<int> order = {0, 1, 2, 3};
	for (int i = 0; i < u / 3; i++) std::next_permutation(order.begin(), order.end());
	run.arrivesAt.resize(4);
	for (int it : order) {
		run.world.respond(run.world.right(run.pending[it].sample, run.world.requests[it]));
		run.arrivesAt[it] = run.world.stream.size();
	}
	run.world.answer = [&] (int index, const Received& request) { return run.world.right(run.pending[index].sample, request); };
	size_t first = mc::choose(int(run.world.stream.size() + 1));
	std::vector<int> asking = {0, 1, 2, 3};
	for (int i = 0, n = mc::choose(24); i < n; i++) std::next_permutation(asking.begin(), asking.end());
	int asked = mc::choose(3);
	mc::describe(mc::fmt("%s, responses %d %d %d %d, fetched %d %d %d %d, cut at %zu, questions %d", kindName(kind), order[0], order[1], order[2], order[3], asking[0], asking[1], asking[2], asking[3], first, asked));
	run.world.deliverTo(first);
	if (asked >= 1) run.poll(asking[3]);
	if (asked >= 2) { run.poll(asking[0]); run.poll(asking[1]); }
	for (int it : asking) if (!mc::failed()) {
		if (asked == 1) { run.world.deliver(3); run.poll(it); }
		run.fetch(it);
	}
	run.finish();
});

// Calls waiting for the result mixed with pending ones
static mc::Register mixed("waiting and pending calls", kindCount * 6, [] (int u) {
	Kind kind = Kind(u % kindCount);
	Run run(kind);
	std::string text = kindName(kind);
	int length = mc::thorough() ? 6 : 5;
	run.world.onWaiting = [] (size_t remaining) { return (remaining + 2) / 3; };
	for (int i = 0; i < length && !mc::failed(); i++) {
		int op = i == 0 ? u / kindCount : mc::choose(6);
		if (op < 4) {
			Sample sample = callOf(std::array{0, 1, 2, 6}[op]);
			text += " " + sample.text();
			mc::describe(text);
			run.pending.push_back({sample});
			Node got;
			std::string problem;
			auto outcome = World::fetch([&] { return sample.call(run.world.remote); }, got, problem);
			MC_CHECK(outcome == World::Value, "call-error", "a call failed: " + problem);
			if (outcome == World::Value) MC_CHECK(sameNode(got, sample.result) || sample.isVoid, "call-result", "the call " + sample.text() + " returned " + show(got));
			run.pending.back().fetched = true;
			mc::step(mc::mix(op, i));
		} else if (op == 4) {
			Sample sample = callOf(4 + i % 2);
			text += " async " + sample.text();
			mc::describe(text);
			run.call(sample);
		} else {
			int index = -1;
			for (size_t j = 0; j < run.pending.size(); j++) if (!run.pending[j].fetched) index = int(j); // The last one
			if (index < 0) return;
			text += " fetch";
			mc::describe(text);
			run.fetch(index);
		}
	}
	run.finish();
});

// Real servers compute the responses
static mc::Register real("answers of the real servers", 4 * methodCount, [] (int u) {
	Kind kind = std::array{JsonRpc, Binary1, Binary2, Binary4}[u % 4];
	Sample sample = anyCall(u / 4, mc::thorough() ? 1 : 2);
	if (sample.throws || !possible(kind, sample)) return;
	Calc served;
	std::function<void(std::string_view)> serve;
	World* world = nullptr;
	std::shared_ptr<void> server, sessionOwner;
	auto use = [&] (auto& server) {
		auto session = std::make_shared<std::decay_t<decltype(server.getSession())>>(server.getSession());
		sessionOwner = session;
		serve = [&, session] (std::string_view request) {
			Exact exact(request);
			std::string response;
			auto [reaction, size] = session->respond(exact.span(), [&] (std::span<const char> out) { response.append(out.data(), out.size()); });
			MC_CHECK(reaction == ServerReaction::OK && size == int64_t(request.size()), "server", "the server did not accept the request " + mc::quoted(request, 300));
			world->respond(response);
		};
	};
	if (kind == JsonRpc) { auto made = std::make_shared<JsonRpcServer<>>(served); server = made; use(*made); }
	else if (kind == Binary1) { auto made = std::make_shared<BinaryProtocolServer<uint8_t>>(served); server = made; use(*made); }
	else if (kind == Binary2) { auto made = std::make_shared<BinaryProtocolServer<uint16_t>>(served); server = made; use(*made); }
	else { auto made = std::make_shared<BinaryProtocolServer<uint32_t>>(served); server = made; use(*made); }
	Run run(kind);
	world = &run.world;
	size_t served_ = 0;
	run.world.answer = nullptr;
	auto parse = run.world.connection->onSent;
	run.world.connection->onSent = [&] {
		parse();
		for (; served_ < run.world.requests.size(); served_++) serve(run.world.requests[served_].text);
	};
	mc::describe(std::string(kindName(kind)) + " " + sample.text());
	calls.clear();
	run.call(mAdd.with(1, 2));
	run.call(sample);
	run.call(mEcho.with("last"));
	if (mc::failed()) return;
	int order = mc::choose(6);
	run.world.onWaiting = [] (size_t remaining) { return (remaining + 1) / 2; };
	for (int i = 0; i < 3; i++) run.fetch(permutations[order][i]);
	std::vector<std::string> should = {mAdd.with(1, 2).log, sample.log, mEcho.with("last").log};
	MC_CHECK(calls == should, "run", mc::fmt("%zu runs of methods", calls.size()));
	calls.clear();
	served_ += 0;
	Node got;
	std::string problem;
	auto outcome = World::fetch([&] { return sample.call(run.world.remote); }, got, problem);
	MC_CHECK(outcome == World::Value && (sample.isVoid || sameNode(got, sample.result)), "again", "calling again: " + problem);
	mc::validated();
});

// The interface of the HTTP client that is used directly
static mc::Register direct("HTTP requests made directly", 6 * 4, [] (int u) {
	const int* order = permutations[u % 6];
	World world(PlainHttp);
	std::array<int, 3> kinds;
	for (int i = 0; i < 3; i++) kinds[i] = mc::choose(2);
	int statuses = u / 6;
	std::vector<RequestToken> tokens;
	std::array<std::string, 3> bodies = {"first", "", std::string(3000, 'x')};
	std::array<int, 3> status = {200, 200, 200};
	if (statuses == 1) status = {404, 200, 204};
	if (statuses == 2) status = {200, 500, 299};
	if (statuses == 3) status = {199, 300, 200};
	if (statuses == 1) bodies[2] = "";
	world.answer = [&] (int index, const Received&) { return http(status[index], "Text", index ? "text/plain" : "", bodies[index], index); };
	mc::describe(mc::fmt("statuses %d %d %d, order %d %d %d", status[0], status[1], status[2], order[0], order[1], order[2]));
	for (int i = 0; i < 3; i++) {
		if (kinds[i]) tokens.push_back(world.httpClient->get(mc::fmt("/path%d", i)));
		else tokens.push_back(world.httpClient->post("text/plain", [&] (ExpandingBuffer<>& out, RequestToken) { out += std::string_view("body"); }));
		MC_CHECK(world.requests.size() == size_t(i + 1) && world.requests[i].method == (kinds[i] ? mc::fmt("path%d", i) : ""), "direct-request", "the request sent is " + mc::quoted(world.connection->sent, 400));
	}
	if (mc::failed()) return;
	size_t first = mc::choose(int(std::min<size_t>(world.stream.size(), 400)));
	mc::describeMore(mc::fmt(", cut at %zu", first));
	world.deliverTo(first);
	for (int i = 0; i < 3; i++) {
		int index = order[i];
		int times = 0;
		std::string got;
		bool success = false;
		try {
			world.httpClient->getResponse(tokens[index], [&] (std::span<char> message, bool okay) {
				times++;
				got.assign(message.data(), message.size());
				success = okay;
				return true;
			});
		} catch (fakenet::Blocked&) {
			mc::fail("direct-waits", "getting the response would wait forever");
			return;
		}
		MC_CHECK(times == 1, "direct-times", mc::fmt("the response was read %d times", times));
		MC_CHECK(got == bodies[index], "direct-body", "the body is " + mc::quoted(got, 100));
		MC_CHECK(success == (status[index] >= 200 && status[index] < 300), "direct-status", mc::fmt("status %d was understood as %s", status[index], success ? "success" : "failure"));
		mc::step(mc::mix(index, first));
	}
	mc::validated();
});
