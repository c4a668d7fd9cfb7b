// C16: calls that fail in every way give errors, and the others are not affected
#include "remotezoo.hpp"
using namespace remotezoo;

struct Pending {
	Sample sample;
	std::unique_ptr<AnyFuture> future;
};
struct Run {
	World world;
	std::vector<Pending> pending;
	std::map<int, std::string> wrong; // Responses different from the correct ones
	explicit Run(Kind kind) : world(kind) {
		world.closeAfterAll = true;
		world.answer = [this] (int index, const Received& request) {
			if (auto found = wrong.find(index); found != wrong.end()) return found->second;
			return index < int(pending.size()) ? world.right(pending[index].sample, request) : std::string();
		};
	}
	void call(Sample sample) {
		pending.push_back({std::move(sample)});
		try {
			pending.back().future = pending.back().sample.async(world.remote);
		} catch (fakenet::Blocked&) {
			mc::fail("send-waits", "sending a request would wait forever");
		} catch (std::exception& e) {} // No result
	}
	void okay(size_t index, const char* signature) {
		auto& p = pending[index];
		Node got;
		std::string problem = "the request could not be sent";
		auto outcome = p.future ? World::fetch([&] { return p.future->get(); }, got, problem) : World::Error;
		MC_CHECK(outcome == World::Value && (p.sample.isVoid || sameNode(got, p.sample.result)), signature,
				mc::fmt("call %zu ", index) + p.sample.text() + (outcome == World::Value ? " returned " + show(got) + " instead of " + show(p.sample.result) : " failed: " + problem));
		mc::step(mc::mix(index, 1));
	}
	void bad(size_t index, const char* signature, const std::string& what) {
		auto& p = pending[index];
		if (!p.future) return;
		for (int i = 0; i < 2; i++) { // Even if asked again
			Node got;
			std::string problem;
			auto outcome = World::fetch([&] { return p.future->get(); }, got, problem);
			MC_CHECK(outcome == World::Error, signature, mc::fmt("call %zu ", index) + p.sample.text() + " with " + what + (outcome == World::Value ? " returned " + show(got) : ": " + problem));
			mc::step(mc::mix(index, 2));
			if (mc::failed()) return;
		}
	}
	// Asking does not block or throw anything but errors, and comes to an end
	bool poll(size_t index) {
		auto& p = pending[index];
		if (!p.future) return true;
		try {
			return world.poll(*p.future);
		} catch (fakenet::Blocked&) {
			return true;
		} catch (std::exception&) {
			return true; // Can't be received any more
		}
	}
	// Answers of the index-th call will be different
	Received expected(int index) const { // The identifiers it will use
		Received r;
		r.id = isBinary(world.kind) ? index : index + 1;
		return r;
	}
};

struct Fault {
	std::string what, text;
	bool complete; // The following responses can be still located
};
static std::string valueOf(const Sample& s, Kind kind) { return kind == PlainHttp ? urlText(s.result) : jsonText(s.isVoid ? Node::null() : s.result); }
// All the ways a response may be wrong
static std::vector<Fault> faults(Kind kind, const Sample& sample, int64_t id) {
	std::vector<Fault> r;
	auto add = [&] (std::string what, std::string text, bool complete = true) { r.push_back({what, text, complete}); };
	std::string value = valueOf(sample, kind), resultText = "\"result\":" + value;
	if (!isBinary(kind)) {
		std::string okay = kind == JsonRpc ? jsonRpcBody(id, resultText) : value;
		for (int status : {100, 199, 300, 301, 304, 400, 401, 403, 404, 418, 500, 501, 503, 599}) for (bool withResult : {false, true})
			add(mc::fmt("status %d", status) + (withResult ? " with a result" : ""), http(status, "Some text", "application/json", withResult ? okay : "<!doctype html><title>Error</title>", status % 4));
		add("no status", "HTTP/1.1\r\nContent-Length: " + std::to_string(okay.size()) + "\r\n\r\n" + okay, false);
		add("empty status", "HTTP/1.1  OK\r\nContent-Length: " + std::to_string(okay.size()) + "\r\n\r\n" + okay, false);
		add("odd status", "HTTP/1.1 2xx OK\r\nContent-Length: " + std::to_string(okay.size()) + "\r\n\r\n" + okay, false);
		add("negative status", "HTTP/1.1 -200 OK\r\nContent-Length: " + std::to_string(okay.size()) + "\r\n\r\n" + okay);
		add("large status", "HTTP/1.1 99999999999999999999 OK\r\nContent-Length: " + std::to_string(okay.size()) + "\r\n\r\n" + okay, false);
		add("odd length", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n" + okay, false);
		add("negative length", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n" + okay, false);
		add("huge length", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999\r\n\r\n" + okay, false);
		add("garbage", "garbage\r\n\r\n", false);
		add("empty line", "\r\n\r\n", false);
		add("zeroes", std::string(30, '\0') + "\r\n\r\n", false);
	}
	if (kind == JsonRpc) {
		auto body = [&] (std::string what, std::string text) { add(what, http(200, "OK", "application/json", text)); };
		static const char* const errors[] = {
			"\"error\":{\"code\":-32601,\"message\":\"Method not known\"}", "\"error\":{\"message\":\"x\",\"code\":1}", "\"error\":{\"code\":-32603}", "\"error\":{}",
			"\"error\":{\"code\":1,\"message\":\"\"}", "\"error\":{\"code\":1,\"message\":\"m\",\"data\":{\"result\":5,\"message\":[1,{}]}}", "\"error\":{\"data\":[[]],\"message\":\"m\",\"code\":1}",
			"\"error\":null", "\"error\":\"text\"", "\"error\":5", "\"error\":[]", "\"error\":{\"code\":1,\"message\":5}"};
		for (auto error : errors) {
			for (int style = 0; style < bodyStyles; style++) body("the error " + std::string(error), jsonRpcBody(id, error, style));
			body("an error after a result", jsonRpcBody(id, resultText + "," + error));
			body("a result after an error", jsonRpcBody(id, std::string(error) + "," + resultText));
		}
		body("null as identifier of an error", "{\"jsonrpc\":\"2.0\",\"id\":null,\"error\":{\"code\":-32700,\"message\":\"m\"}}");
		body("null as identifier", "{\"jsonrpc\":\"2.0\",\"id\":null," + resultText + "}");
		body("an identifier that is text", "{\"jsonrpc\":\"2.0\",\"id\":\"" + std::to_string(id) + "\"," + resultText + "}");
		for (int64_t other : {id - 1, id + 1, -id, id + (int64_t(1) << 32)}) for (int style = 0; style < bodyStyles; style++) body(mc::fmt("the identifier %lld", (long long)other), jsonRpcBody(other, resultText, style));
		body("no result", "{\"jsonrpc\":\"2.0\",\"id\":" + std::to_string(id) + "}");
		body("nothing but the version", "{\"jsonrpc\":\"2.0\"}");
		body("an empty object", "{}");
		body("an empty array", "[]");
		body("an array", "[" + jsonRpcBody(id, resultText) + "]");
		body("an empty body", "");
		body("a space", " ");
		body("null", "null");
		body("a value", value);
		body("version 1.0", "{\"jsonrpc\":\"1.0\",\"id\":" + std::to_string(id) + "," + resultText + "}");
		body("late version 1.0", "{\"id\":" + std::to_string(id) + "," + resultText + ",\"jsonrpc\":\"1.0\"}");
		body("version that is a number", "{\"jsonrpc\":2.0,\"id\":" + std::to_string(id) + "," + resultText + "}");
		add("no content", "HTTP/1.1 204 No Content\r\n\r\n");
		// Results of other types
		static const char* const others[] = {"5", "-1.5", "\"text\"", "true", "null", "[]", "[5]", "[\"a\"]", "{}", "{\"a\":5}", "{\"a\":\"b\"}", "nonsense", "", "tru", "\"\\ud8", "-", "1 2"};
		for (auto other : others) {
			std::string o = other;
			Node parsed;
			StrictJson parser(o);
			bool valid = parser.document(parsed);
			auto kindOf = sample.isVoid ? Node::Null : sample.result.kind;
			bool may = valid && (parsed.kind == kindOf || sample.name == "maybe" // May be null or text
					|| (kindOf == Node::Float && parsed.kind == Node::Int) || (kindOf == Node::Int && parsed.kind == Node::Float));
			if (valid && sample.name == "maybe" && parsed.kind != Node::Str && parsed.kind != Node::Null) may = false;
			if (valid && kindOf == parsed.kind && parsed.kind == Node::Arr) may = parsed.a.empty() || parsed.a[0].kind == Node::Int;
			if (valid && kindOf == parsed.kind && parsed.kind == Node::Obj) may = parsed.o.empty() || sample.name == "names" ? (parsed.o.empty() || parsed.o[0].second.kind == Node::Str) : parsed.o[0].second.kind == Node::Int;
			if (!may) for (int style : {0, 1}) body("the result " + o, jsonRpcBody(id, "\"result\":" + o, style));
		}
		// Truncated bodies
		for (int style : {0, 1, 2}) {
			std::string whole = jsonRpcBody(id, resultText, style);
			while (isspace((unsigned char)whole.back())) whole.pop_back();
			for (size_t i = 0; i < whole.size(); i++) body(mc::fmt("the body cut to %zu bytes", i), whole.substr(0, i));
		}
	}
	if (kind == PlainHttp) {
		auto body = [&] (std::string what, std::string text) { add(what, http(200, "OK", "application/x-www-form-urlencoded", text)); };
		if (sample.result.kind == Node::Int || sample.result.kind == Node::Float) for (auto it : {"", "x", "true", "null", "-", "+", "%2", "%zz", "&", "=5", "[]"}) body("the result " + std::string(it), it);
		if (sample.result.kind == Node::Int || sample.result.kind == Node::Float) add("no content", "HTTP/1.1 204 No Content\r\n\r\n");
	}
	if (isBinary(kind)) {
		int width = sizeWidth(kind);
		World* none = nullptr; (void)none;
		auto message = [&] (uint64_t size, std::string_view rest) {
			std::string made;
			putLE(made, uint32_t(id));
			putSize(made, size, width);
			return made + std::string(rest);
		};
		const std::string& result = sample.binaryResult[width];
		for (size_t i = 0; i < result.size(); i++) add(mc::fmt("the result cut to %zu bytes", i), message(4 + width + i, result.substr(0, i)));
		for (int i = 0; i < 4 + width; i++) add(mc::fmt("the claimed size %d", i), message(i, result), false);
		if (sample.name == "echo") for (uint64_t size : {uint64_t(100), uint64_t(255), (uint64_t(1) << (8 * width - 1)), (uint64_t(1) << (8 * width)) - 1}) if (size > result.size() - width) {
			std::string odd;
			putSize(odd, size, width);
			odd += result.substr(width);
			add(mc::fmt("text of %llu bytes", (unsigned long long)size), message(4 + width + odd.size(), odd));
		}
		if (sample.name == "each") for (uint64_t size : {uint64_t(100), (uint64_t(1) << (8 * width - 1)), (uint64_t(1) << (8 * width)) - 1}) {
			std::string odd;
			putSize(odd, size, width);
			odd += result.substr(width);
			add(mc::fmt("array of %llu elements", (unsigned long long)size), message(4 + width + odd.size(), odd));
		}
	}
	return r;
}
static Sample sampleOf(int which) {
	switch (which) {
	case 0: return mAdd.with(5, 20);
	case 1: return mEcho.with("ab");
	case 2: return mStop.with();
	case 3: return mNot.with(false);
	case 4: return mEach.with({1, -2, 300}, false);
	case 5: return mSwap.with([] { Pair p; p.a = 7; p.b = "xy"; return p; }());
	case 6: return mScale.with(1.5, 2.0f, 1);
	case 7: return mMaybe.with([] { Optional<std::string> made; made = std::string("there"); return made; }());
	case 8: return mNames.with({{"k", "v"}});
	case 9: return mNumber.with();
	default: return mNote.with("n", true);
	}
}
constexpr int samples = 11;

// One of three calls has a wrong answer, delivered in different ways
static mc::Register faulty("wrong responses", kindCount * samples * 3, [] (int u) {
	Kind kind = Kind(u % kindCount);
	Sample sample = sampleOf(u / kindCount % samples);
	int place = u / kindCount / samples;
	if (!possible(kind, sample)) return;
	Run run(kind);
	auto id = run.expected(place).id;
	auto all = faults(kind, sample, id);
	if (all.empty()) return;
	const Fault& fault = mc::pick(all);
	mc::describe(std::string(kindName(kind)) + " " + sample.text() + mc::fmt(" as call %d with ", place) + fault.what);
	run.wrong[place] = fault.text;
	static const int orders[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
	auto& order = mc::pick(orders);
	int delivery = mc::choose(5);
	if (delivery >= 2 && delivery <= 3 && order[0] != 0 && !mc::thorough()) return; // Takes long and the order matters little
	mc::describeMore(mc::fmt(", fetched %d %d %d, delivery %d", order[0], order[1], order[2], delivery));
	for (int i = 0; i < 3; i++) run.call(i == place ? sample : i == 0 ? mAdd.with(1, 1) : i == 1 ? mEcho.with("right") : mNot.with(true));
	if (mc::failed()) return;
	mc::step(mc::mix(mc::hash(fault.text), mc::mix(u, delivery)));
	switch (delivery) {
	case 0: break;
	case 1: run.world.deliver(1000000); break;
	case 2: // By bytes, the correct ones as a whole
		run.world.onWaiting = [&] (size_t) {
			for (int i = 0; i < 3; i++) if (i != place && run.world.delivered == run.world.begin(i)) return run.world.ends[i] - run.world.begin(i);
			return size_t(1);
		};
		break;
	case 3: // Asked until it's known
		for (int i = 0; i < 1000 && !mc::failed(); i++) {
			bool all = true;
			for (int j = 0; j < 3; j++) if (!run.poll(j)) all = false;
			if (all) break;
			if (run.world.delivered == run.world.stream.size()) break;
			run.world.deliver(29);
		}
		break;
	case 4: run.world.deliverTo(run.world.ends[place] - (run.world.ends[place] - run.world.begin(place)) / 2); run.poll(place); run.poll(2); break;
	}
	for (int i : order) {
		if (mc::failed()) return;
		if (i == place) run.bad(i, "value", fault.what);
		else if (fault.complete) run.okay(i, "neighbour");
		else if (i < place) {
			// Responses before the unreadable one are intact unless the client gave up when looking for later ones
			Node got;
			std::string problem;
			auto outcome = World::fetch([&] { return run.pending[i].future->get(); }, got, problem);
			MC_CHECK(outcome == World::Error || (outcome == World::Value && sameNode(got, run.pending[i].sample.result)), "neighbour-before", "an earlier call gave " + show(got) + problem);
			if (order[0] == 0 && i == 0 && delivery != 3 && delivery != 4) MC_CHECK(outcome == World::Value, "neighbour-first", "an earlier call failed: " + problem);
		} else if (fault.text.size() && !fault.complete) run.bad(i, "value-after", "an unreadable response before it");
	}
	if (fault.complete && !mc::failed()) { // The client can be still used
		run.world.onWaiting = nullptr;
		run.call(mAdd.with(40, 2));
		run.okay(3, "afterwards");
		Node got;
		std::string problem;
		Sample next = mEcho.with("still works");
		run.pending.push_back({next});
		auto outcome = World::fetch([&] { return next.call(run.world.remote); }, got, problem);
		MC_CHECK(outcome == World::Value && sameNode(got, next.result), "afterwards", "calling afterwards: " + problem);
	} else if (!mc::failed()) {
		run.call(mAdd.with(40, 2));
		run.bad(3, "value-later", "an unreadable response long before it");
	}
	mc::validated();
});

// The connection ends at every place
static mc::Register ends("connections ending anywhere", kindCount * 6 * 3, [] (int u) {
	Kind kind = Kind(u % kindCount);
	static const int orders[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	auto& order = orders[u / kindCount % 6];
	int how = u / kindCount / 6;
	Run run(kind);
	run.world.closeAfterAll = false;
	run.call(mAdd.with(1, 1));
	run.call(kind == PlainHttp || mc::choose(2) ? mEcho.with("") : mEach.with({1, 2, 3}, false));
	run.call(mEcho.with("last"));
	if (mc::failed()) return;
	int asked = mc::choose(4);
	size_t place = mc::choose(int(run.world.stream.size()));
	mc::describe(mc::fmt("%s, order %d %d %d, %s after %zu bytes, questions %d", kindName(kind), order[0], order[1], order[2], how == 0 ? "closed" : how == 1 ? "reset" : "failing", place, asked));
	run.world.stream.resize(place);
	mc::step(mc::mix(place, mc::mix(u, asked)));
	auto end = [&] {
		if (how == 1) run.world.connection->remoteReset = true;
		else run.world.connection->remoteClosed = true;
	};
	int received = 0; // Known to be received before the end
	switch (asked) {
	case 0: run.world.deliver(place); if (how != 1) end(); break; // All at once
	case 1: run.world.deliver(place); run.poll(order[0]); end(); run.poll(order[1]); break;
	case 2: run.world.deliver(place / 2); run.poll(order[2]); run.world.deliver(place); run.poll(order[2]); end(); run.poll(order[2]); break;
	case 3: run.world.onWaiting = [] (size_t) { return 7; }; break;
	}
	(void)received;
	run.world.connection->onWaiting = [&] {
		if (run.world.polling) { mc::fail("poll-blocks", "asking if the result is available would wait for data"); return false; }
		if (run.world.delivered < run.world.stream.size()) run.world.deliver(asked == 3 ? 7 : 100000);
		else if (run.world.connection->remoteClosed || run.world.connection->remoteReset) return false;
		else end();
		return true;
	};
	if (how == 2) run.world.connection->onReceive = [&] (size_t limit) -> long { return run.world.delivered == run.world.stream.size() && limit == run.world.connection->toLocal.size() && mc::chooseDev(2) ? -ETIMEDOUT : long(limit); };
	bool anyBad = false;
	for (int i : order) {
		if (mc::failed()) return;
		bool complete = run.world.ends[i] <= place;
		if (!complete) { run.bad(i, "value", "the connection closed before its end"); anyBad = true; }
		else if (how == 0 && asked == 0 && !anyBad) run.okay(i, "complete"); // Nothing prevents it
		else {
			Node got;
			std::string problem;
			auto outcome = World::fetch([&] { return run.pending[i].future->get(); }, got, problem);
			MC_CHECK(outcome == World::Error || (outcome == World::Value && sameNode(got, run.pending[i].sample.result)), "wrong", mc::fmt("call %d returned ", i) + show(got) + problem);
			if (how == 0 && !anyBad) MC_CHECK(outcome == World::Value, "complete", mc::fmt("call %d failed although its response arrived: ", i) + problem);
			if (outcome == World::Error) anyBad = true;
		}
	}
	// No later call can get anything
	run.call(mAdd.with(1, 2));
	run.bad(3, "value-later", "the connection closed");
	mc::validated();
}, 1);

// The connection ends but the server accepts another one, whose responses must not be taken for those that were lost
static mc::Register again("connections lost and accepted again", kindCount * 6, [] (int u) {
	Kind kind = Kind(u % kindCount);
	static const int orders[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	auto& order = orders[u / kindCount];
	Run run(kind);
	World& world = run.world;
	world.closeAfterAll = false;
	world.answer = [&] (int, const Received& request) { return world.right(run.pending.back().sample, request); };
	for (int i = 0; i < 3; i++) run.call(mAdd.with(100 * (i + 1), i)); // Values of one type, so that they could be confused
	if (mc::failed()) return;
	auto ends = world.ends;
	int how = mc::choose(3);
	size_t place = mc::choose(int(world.stream.size()));
	if (!mc::thorough() && place > 3) { // Only around the boundaries of responses and in their middles
		bool near = false;
		for (size_t i = 0, from = 0; i < ends.size(); from = ends[i++]) {
			size_t middle = (from + ends[i]) / 2;
			if ((place + 1 >= ends[i] && place <= ends[i] + 1) || place == middle) near = true;
		}
		if (!near) return;
	}
	int noticed = mc::choose(3), fresh = mc::choose(3) + 1, asked = mc::choose(2);
	mc::describe(mc::fmt("%s, order %d %d %d, %s after %zu bytes, noticed by %s, then %d calls, %s", kindName(kind), order[0], order[1], order[2],
			how == 0 ? "closed" : how == 1 ? "reset" : "failing to send", place, noticed == 0 ? "nothing" : noticed == 1 ? "asking" : "fetching", fresh, asked ? "asked" : "not asked"));
	mc::step(mc::mix(mc::mix(place, u), mc::mix(how * 3 + noticed, fresh * 2 + asked)));
	world.stream.resize(place);
	world.deliver(place);
	if (how == 1) world.connection->remoteReset = true;
	else world.connection->remoteClosed = true;
	auto lost = world.connection;
	lost->onSent = nullptr; // Nobody reads it
	lost->onWaiting = [] { return false; };
	if (how == 2) lost->onSend = [] (size_t) -> long { return -EPIPE; };
	int connected = 0;
	world.use.made.onConnect = [&] (int&) -> std::shared_ptr<fakenet::Connection> {
		connected++;
		auto made = std::make_shared<fakenet::Connection>();
		world.connection = made;
		world.stream.clear();
		world.ends.clear();
		world.delivered = world.parsed = 0;
		made->onSent = [&] { world.receive(); };
		made->onWaiting = [&] {
			if (world.polling) { mc::fail("poll-blocks", "asking if the result is available would wait for data"); return false; }
			if (world.delivered < world.stream.size()) world.deliver(world.stream.size());
			else if (!world.connection->remoteClosed) world.connection->remoteClosed = true; // An error at worst
			else return false;
			return true;
		};
		return made;
	};
	auto own = [&] (int i, bool mayWork, const char* signature) {
		auto& p = run.pending[i];
		if (!p.future) return;
		Node got;
		std::string problem;
		auto outcome = World::fetch([&] { return p.future->get(); }, got, problem);
		MC_CHECK(outcome == World::Error || (outcome == World::Value && mayWork && sameNode(got, p.sample.result)), signature, mc::fmt("call %d ", i) + p.sample.text() + (outcome == World::Value ? " returned " + show(got) : ": " + problem));
		mc::step(mc::mix(i, outcome));
	};
	bool fetched[3] = {};
	auto old = [&] (int i) {
		if (fetched[i]) return;
		fetched[i] = true;
		own(i, ends[i] <= place, "lost");
	};
	if (noticed == 1) for (int i = 0; i < 3 && !mc::failed(); i++) run.poll(order[0]);
	if (noticed == 2) old(order[0]);
	for (int i = 0; i < fresh && !mc::failed(); i++) run.call(mAdd.with(1000 * (i + 1), i));
	if (mc::failed()) return;
	if (asked) { // The new responses are there
		world.deliver(world.stream.size());
		run.poll(3);
		run.poll(order[1]);
		run.poll(order[0]);
	}
	for (int i : order) {
		if (mc::failed()) return;
		old(i);
		if (i == order[1]) for (int j = fresh - 1; j >= 0 && !mc::failed(); j--) own(3 + j, true, "value-new");
	}
	if (mc::failed()) return;
	run.call(mAdd.with(5000, 5));
	own(3 + fresh, true, "value-later");
	mc::validated();
});

// Failing to send
static mc::Register sending("failures of sending", kindCount * 4, [] (int u) {
	Kind kind = Kind(u % kindCount);
	int failing = u / kindCount; // Which call
	Run run(kind);
	static const int errors[] = {EPIPE, ECONNRESET, ETIMEDOUT, ENETDOWN, ENOBUFS};
	int code = mc::pick(errors);
	int partly = mc::choose(3);
	int sent = 0, current = 0;
	run.world.connection->onSend = [&] (size_t size) -> long {
		if (current != failing) return long(size);
		if (sent == 0 && partly == 1) { sent++; return 1; }
		if (sent == 0 && partly == 2) { sent++; return long(size) / 2; }
		return -code;
	};
	mc::describe(mc::fmt("%s, call %d fails to be sent with error %d, partly %d", kindName(kind), failing, code, partly));
	static const int asks[] = {0, 1, 2};
	int asked = mc::pick(asks);
	for (; current < 4; current++) {
		Sample sample = current % 2 ? mEcho.with("x" + std::to_string(current)) : mAdd.with(current, 10);
		run.call(sample);
		if (asked == 1 && current < failing) run.okay(current, "before");
		if (asked == 2 && current < failing) { run.world.deliver(100000); run.poll(current); }
		if (mc::failed()) return;
	}
	MC_CHECK(!run.world.use.made.sigpipe, "sigpipe", "the program would be ended by SIGPIPE");
	for (int i = 0; i < 4; i++) {
		if (mc::failed()) return;
		if (i < failing) {
			if (asked == 1) continue;
			Node got;
			std::string problem;
			auto outcome = World::fetch([&] { return run.pending[i].future->get(); }, got, problem);
			MC_CHECK(outcome == World::Error || (outcome == World::Value && sameNode(got, run.pending[i].sample.result)), "wrong", mc::fmt("call %d returned ", i) + show(got) + problem);
			if (asked == 2) MC_CHECK(outcome == World::Value, "before", "a result received before could not be obtained: " + problem);
		} else run.bad(i, "value", "a request that failed to be sent");
	}
	mc::validated();
});
// A server that can't be reached at first
static mc::Register unreachable("failures to connect", kindCount * 3, [] (int u) {
	Kind kind = Kind(u % kindCount);
	int failures = u / kindCount + 1;
	World world(kind);
	Calc& remote = world.remote;
	static const int errors[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH};
	int code = mc::pick(errors);
	int left = failures;
	world.use.made.onConnect = [&] (int& error) -> std::shared_ptr<fakenet::Connection> {
		if (left-- > 0) { error = code; return nullptr; }
		return world.connection;
	};
	mc::describe(mc::fmt("%s, %d failures to connect with error %d", kindName(kind), failures, code));
	Sample sample = mAdd.with(4, 5);
	world.answer = [&] (int, const Received& request) { return world.right(sample, request); };
	for (int i = 0; i < failures + 2; i++) {
		Node got;
		std::string problem;
		auto outcome = World::fetch([&] { return sample.call(remote); }, got, problem);
		if (i < failures) MC_CHECK(outcome == World::Error, "value", "a call without a connection: " + show(got) + problem);
		else MC_CHECK(outcome == World::Value && sameNode(got, sample.result), "reconnect", "a call after the server became available: " + problem);
		mc::step(mc::mix(i, failures));
	}
	mc::validated();
});

// Real servers that refuse to answer
static mc::Register real("failures in the real servers", 3 * 5, [] (int u) {
	Kind kind = std::array{JsonRpc, PlainHttp, Binary2}[u % 3];
	int place = u / 3;
	Calc served;
	DynamicRpcObject other;
	World* world = nullptr;
	int what = mc::choose(4);
	if (what == 1 && kind == PlainHttp) return; // Without arguments, there's nothing to damage
	auto& callable = what == 2 ? static_cast<IRemoteCallable&>(other) : what == 3 ? static_cast<IRemoteCallable&>(served.fail) : served;
	// 0: a method throws, 1: arguments can't be understood, 2: no such method, 3: not an object
	DummyGetResponder noFiles;
	JsonRpcServer<> json(callable);
	RpcGetResponder<> get(noFiles, callable);
	HtmlPostResponder<> post(callable);
	HttpServer<> plain(get, post);
	BinaryProtocolServer<uint16_t> binary(callable);
	auto jsonSession = json.getSession();
	auto plainSession = plain.getSession();
	auto binarySession = binary.getSession();
	bool closed = false;
	auto serve = [&] (std::string request) {
		if (closed) return;
		Exact exact(request);
		std::string response;
		auto write = [&] (std::span<const char> out) { response.append(out.data(), out.size()); };
		auto [reaction, size] = kind == JsonRpc ? jsonSession.respond(exact.span(), write) : kind == PlainHttp ? plainSession.respond(exact.span(), write) : binarySession.respond(exact.span(), write);
		world->respond(response);
		if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) closed = true;
	};
	World made(kind);
	world = &made;
	made.closeAfterAll = true;
	size_t done = 0;
	auto parse = made.connection->onSent;
	made.connection->onSent = [&] {
		parse();
		for (; done < made.requests.size(); done++) {
			std::string request = made.requests[done].text;
			if (what == 1 && int(done) == place) { // Damaged
				size_t where = kind == JsonRpc ? request.rfind("}") : request.size() - 1;
				request[where] = kind == JsonRpc ? '{' : '\xff';
				if (kind == Binary2 && request.size() > 7) request[6] = '\x7e'; // No such method
			}
			serve(request);
		}
	};
	mc::describe(mc::fmt("%s, call %d, fault %d", kindName(kind), place, what));
	for (int i = 0; i < 5; i++) {
		Sample sample = i == place && what != 1 ? mFail.with(-1) : kind == PlainHttp ? mStop.with() : mFail.with(i);
		bool bad = what == 2 || what == 3 || (what == 0 && i == place) || (what == 1 && i == place) || (kind == Binary2 && closed);
		if (what == 3 && kind == Binary2) return; // The index of the method is its first argument there
		Node got;
		std::string problem;
		auto outcome = World::fetch([&] { return sample.call(made.remote); }, got, problem);
		if (what == 3 && kind != Binary2) bad = true; // The path is not empty
		if (bad) MC_CHECK(outcome == World::Error, "real-value", mc::fmt("call %d gave ", i) + show(got) + " " + problem);
		else MC_CHECK(outcome == World::Value && (sample.isVoid || sameNode(got, sample.result)), "real-neighbour", mc::fmt("call %d gave ", i) + show(got) + " " + problem);
		mc::step(mc::mix(i, u));
	}
	mc::validated();
});
