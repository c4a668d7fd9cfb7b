// C26: all sequences of operations on futures, compared with a model of what each of them holds
#include "remotezoo.hpp"
#include "bomba_json.hpp"
using namespace remotezoo;
using Ints = std::vector<int32_t>;

// Responses kept in memory, counts how they are used
struct Mock : IRpcResponder {
	struct Call { std::string result; bool fails = false, arrived = true, got = false, lost = false; };
	std::vector<Call> made;
	std::string next;
	bool nextFails = false, nextArrived = true;
	int failKind = 0;
	RequestToken send(UserId, const IRemoteCallable*, Callback<void(IStructuredOutput&, RequestToken)> request) override {
		made.push_back({next, nextFails, nextArrived});
		return {uint32_t(made.size() - 1) + 100};
	}
	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
		size_t index = token.id - 100;
		if (index >= made.size()) { mc::fail("token", "a result of no call is obtained"); throw std::runtime_error("no call"); }
		Call& call = made[index];
		MC_CHECK(!call.got, "obtained-twice", mc::fmt("the response of call %zu is obtained again", index));
		call.got = true;
		if (call.fails) {
			if (failKind == 0) throw RemoteError("it failed");
			if (failKind == 1) return false;
			if (failKind == 2) throw 5;
			typename BasicJson<>::Input wrong("}");
			reader(wrong);
			return true;
		}
		typename BasicJson<>::Input in(call.result);
		reader(in);
		return true;
	}
	bool hasResponse(RequestToken token) override {
		size_t index = token.id - 100;
		if (index >= made.size()) { mc::fail("token", "a result of no call is asked about"); return false; }
		MC_CHECK(!made[index].got, "asked-later", mc::fmt("the client is asked about the response of call %zu that was obtained", index));
		return made[index].arrived;
	}
};

template <typename T>
struct Case;
template <> struct Case<int32_t> {
	static Sample sample(int n) { return mAdd.with(n * 1000, 7); }
	static Future<int32_t> start(Calc& on, int n) { return on.add.async(n * 1000, 7); }
	static Future<int32_t> startFailing(Calc& on) { return on.fail.async(-5); }
};
template <> struct Case<std::string> {
	static std::string text(int n) { return n % 2 ? mc::fmt("text %d", n) : mc::fmt("a longer text that has to be allocated %d", n); }
	static Sample sample(int n) { return mEcho.with(text(n)); }
	static Future<std::string> start(Calc& on, int n) { return on.echo.async(text(n)); }
};
template <> struct Case<Ints> {
	static Ints list(int n) { return Ints(n % 4, n); }
	static Sample sample(int n) { return mEach.with(list(n), false); }
	static Future<Ints> start(Calc& on, int n) { return on.each.async(list(n), false); }
};
template <> struct Case<void> {
	static Sample sample(int) { return mStop.with(); }
	static Future<void> start(Calc& on, int) { return on.stop.async(); }
};

// What a future should do
struct Held {
	enum What { Nothing, Pending, Done, Failed } what = Nothing;
	int call = -1;
};
template <typename T, int slotCount>
struct Play {
	Calc& on;
	std::array<std::optional<Future<T>>, slotCount> slots;
	std::array<Held, slotCount> model;
	std::vector<Sample> samples;
	std::vector<bool> failing;
	std::function<void(bool fails)> prepare; // Before a call
	std::function<bool(int call)> arrived;
	std::function<void()> before = [] {}, after = [] {}; // Around operations that may not wait
	std::string text;
	bool local = false;

	explicit Play(Calc& on) : on(on) {}

	struct Op { char kind; int a, b; };
	std::vector<Op> options() const {
		std::vector<Op> r;
		for (int i = 0; i < slotCount; i++) {
			if (samples.size() < 4) { r.push_back({'c', i, 0}); r.push_back({'f', i, 0}); }
			if (!slots[i]) continue;
			r.push_back({'p', i, 0});
			r.push_back({'g', i, 0});
			r.push_back({'d', i, 0});
			for (int j = 0; j < slotCount; j++) {
				if (slots[j] || i == j) r.push_back({'m', i, j}); // Assigned from i to j
				if (i != j && (slots[i])) r.push_back({'n', i, j}); // Constructed in j from i
			}
		}
		return r;
	}
	Node node(int slot) {
		if constexpr(std::is_void_v<T>) { slots[slot]->get(); return Node::null(); }
		else return Kit<T>::node(slots[slot]->get());
	}
	void get(int i) {
		Held& held = model[i];
		Node got;
		std::string problem;
		auto outcome = World::Odd;
		try { got = node(i); outcome = World::Value; } catch (fakenet::Blocked&) { outcome = World::Waits; } catch (...) { outcome = World::Error; }
		bool good = held.what == Held::Done || (held.what == Held::Pending && !failing[held.call]);
		if (good) {
			MC_CHECK(outcome == World::Value, "get-error", "getting a result failed: " + problem);
			if (outcome == World::Value && !std::is_void_v<T>) MC_CHECK(sameNode(got, samples[held.call].result), "get-wrong", mc::fmt("the result of call %d is ", held.call) + show(got) + " instead of " + show(samples[held.call].result));
			held.what = Held::Done;
		} else {
			MC_CHECK(outcome == World::Error, "get-value", held.what == Held::Nothing ? "getting the result of a future that holds nothing did not throw: " + show(got) : "getting the result of a failed call did not throw: " + show(got));
			if (held.what == Held::Pending) held.what = Held::Failed;
		}
	}
	void poll(int i) {
		Held& held = model[i];
		bool ready = false;
		before();
		try {
			ready = slots[i]->is_ready();
			if (held.what == Held::Pending && arrived(held.call)) for (int j = 0; j < 50 && !ready; j++) ready = slots[i]->is_ready();
		} catch (std::exception& e) {
			mc::fail("poll-exception", std::string("is_ready() threw ") + e.what());
		}
		after();
		if (held.what == Held::Done) MC_CHECK(ready, "done-not-ready", "a future with its result obtained is not ready");
		if (held.what == Held::Nothing) MC_CHECK(!ready, "nothing-ready", "a future that holds nothing is ready");
		if (held.what == Held::Pending) MC_CHECK(ready == arrived(held.call), "ready", mc::fmt("the future of call %d is %s ready", held.call, ready ? "already" : "not"));
	}
	bool start(int i, bool fails) {
		int n = int(samples.size());
		prepare(fails);
		samples.push_back(Case<T>::sample(n));
		failing.push_back(fails);
		auto put = [&] (Future<T>&& made) {
			if (slots[i]) *slots[i] = std::move(made);
			else slots[i].emplace(std::move(made));
			model[i] = {Held::Pending, n};
			if (local) model[i].what = Held::Done;
		};
		if (local && fails) {
			if constexpr(requires { Case<T>::startFailing(on); }) {
				bool threw = false;
				try { put(Case<T>::startFailing(on)); } catch (std::exception&) { threw = true; }
				MC_CHECK(threw, "local-failure", "a failing local method did not throw");
			}
		} else put(Case<T>::start(on, n));
		return true;
	}
	void run(Op op) {
		text += mc::fmt(" %c%d", op.kind, op.a) + (op.kind == 'm' || op.kind == 'n' ? mc::fmt(">%d", op.b) : "");
		mc::describe(text);
		switch (op.kind) {
		case 'c': start(op.a, false); break;
		case 'f': start(op.a, true); break;
		case 'p': poll(op.a); break;
		case 'g': get(op.a); break;
		case 'd': slots[op.a].reset(); model[op.a] = {}; break;
		case 'm':
			*slots[op.b] = std::move(*slots[op.a]);
			if (op.a != op.b) { model[op.b] = model[op.a]; model[op.a] = {}; }
			break;
		case 'n':
			slots[op.b].reset();
			slots[op.b].emplace(std::move(*slots[op.a]));
			model[op.b] = model[op.a];
			model[op.a] = {};
			break;
		}
		uint64_t state = 0;
		for (int i = 0; i < slotCount; i++) state = mc::mix(state, slots[i] ? model[i].what * 100 + model[i].call : 99999);
		mc::step(mc::mix(state, samples.size()));
	}
	void everything(int depth, int first, int firstCount) {
		for (int i = 0; i < depth && !mc::failed(); i++) {
			auto ops = options();
			if (ops.empty()) return;
			if (i == 0) {
				if (first >= int(ops.size())) return;
				run(ops[first]);
			} else run(ops[mc::choose(int(ops.size()))]);
		}
		for (int i = 0; i < slotCount && !mc::failed(); i++) if (slots[i] && model[i].what != Held::Failed) {
			get(i); // The rest has to remain available, and again
			if (model[i].what == Held::Done) { get(i); poll(i); }
		}
	}
};

// A client in memory, deeper
template <typename T, int slotCount>
void inMemory(int first, int depth, int failKind) {
	Mock mock;
	mock.failKind = failKind;
	Calc remote;
	remote.setResponder(mock);
	{
		Play<T, slotCount> play(remote);
		play.prepare = [&] (bool fails) {
			mock.next = jsonText(Case<T>::sample(int(play.samples.size())).result);
			mock.nextFails = fails;
			mock.nextArrived = true;
		};
		play.arrived = [&] (int call) { return mock.made[call].arrived; };
		play.everything(depth, first, 2 * slotCount);
	}
	if (!mc::failed()) mc::validated();
}
static mc::Register twoInts("two futures of numbers", 4, [] (int u) { inMemory<int32_t, 2>(u, mc::thorough() ? 7 : 6, 0); });
static mc::Register twoTexts("two futures of text", 4, [] (int u) { inMemory<std::string, 2>(u, mc::thorough() ? 6 : 5, 0); });
static mc::Register twoVoids("two futures of nothing", 4, [] (int u) { inMemory<void, 2>(u, mc::thorough() ? 7 : 6, 0); });
static mc::Register threeTexts("three futures of text", 6, [] (int u) { inMemory<std::string, 3>(u, mc::thorough() ? 5 : 4, 0); });
static mc::Register threeVoids("three futures of nothing", 6, [] (int u) { inMemory<void, 3>(u, mc::thorough() ? 5 : 4, 0); });
static mc::Register failures("other failures", 4 * 3, [] (int u) { inMemory<Ints, 2>(u % 4, 5, 1 + u / 4); });
static mc::Register failuresVoid("other failures of nothing", 4 * 3, [] (int u) { inMemory<void, 2>(u % 4, 5, 1 + u / 4); });

// Local calls
template <typename T>
void locally(int first) {
	Calc object;
	Play<T, 2> play(object);
	play.local = true;
	play.prepare = [] (bool) { calls.clear(); };
	play.arrived = [] (int) { return true; };
	play.everything(5, first, 4);
	if (!mc::failed()) mc::validated();
}
static mc::Register local("futures of local calls", 4 * 4, [] (int u) {
	switch (u / 4) {
	case 0: locally<int32_t>(u % 4); break;
	case 1: locally<std::string>(u % 4); break;
	case 2: locally<Ints>(u % 4); break;
	case 3: locally<void>(u % 4); break;
	}
});

// Through clients and the network
template <typename T>
void networked(Kind kind, int first, int mode, int depth) {
	World world(kind);
	std::vector<bool> fails;
	std::vector<Sample> samples;
	world.answer = [&] (int index, const Received& request) -> std::string {
		if (!fails[index]) return world.right(samples[index], request, index);
		switch (kind) {
		case JsonRpc: return index % 2 ? http(500, "Failed", "", "oops") : http(200, "OK", "application/json", jsonRpcBody(request.id, "\"error\":{\"code\":1,\"message\":\"m\"}"));
		case PlainHttp: return http(404, "Not Found", "", "x");
		default: return world.binary(request.id, samples[index].binaryResult[sizeWidth(kind)].substr(0, 1));
		}
	};
	world.closeAfterAll = true;
	std::unique_ptr<AnyFuture> bystander;
	Sample aside = mNot.with(false);
	auto prepare = [&] (Sample sample, bool fail) {
		if (mode == 1) world.deliver(1000000); // Mode 0 waits, 1 gets the previous ones, 2 all of them, 3 by parts
		fails.push_back(fail);
		samples.push_back(std::move(sample));
	};
	if (mode == 3) world.onWaiting = [] (size_t) { return 11; };
	int bystanderAt = mc::choose(2);
	auto addBystander = [&] {
		prepare(aside, false);
		bystander = aside.async(world.remote);
	};
	if (bystanderAt == 0) addBystander();
	int offset = bystanderAt == 0 ? 1 : 0;
	{
		Play<T, 2> play(world.remote);
		play.text = mc::fmt("%s, mode %d, ", kindName(kind), mode) + (bystanderAt == 0 ? "with another call before" : "");
		play.prepare = [&] (bool fail) { prepare(Case<T>::sample(int(play.samples.size())), fail); };
		play.arrived = [&] (int call) { return world.arrived(call + offset); };
		play.before = [&] { if (mode == 2) world.deliver(1000000); world.polling = true; };
		play.after = [&] { world.polling = false; };
		play.everything(depth, first, 4);
	}
	if (mc::failed()) return;
	if (bystanderAt == 1) addBystander();
	Node got;
	std::string problem;
	auto outcome = World::fetch([&] { return bystander->get(); }, got, problem);
	MC_CHECK(outcome == World::Value && sameNode(got, aside.result), "bystander", "the result of another call is " + show(got) + problem);
	mc::validated();
}
static mc::Register network("futures of clients", 3 * 4 * 4 * 3, [] (int u) {
	Kind kind = std::array{JsonRpc, PlainHttp, Binary2}[u % 3];
	int first = u / 3 % 4, mode = u / 12 % 4;
	int depth = mc::thorough() ? 5 : 4;
	switch (u / 48) {
	case 0: networked<int32_t>(kind, first, mode, depth); break;
	case 1: networked<std::string>(kind, first, mode, depth); break;
	case 2:
		if (isBinary(kind)) networked<Ints>(kind, first, mode, depth); // An empty response can't fail
		else networked<void>(kind, first, mode, depth);
		break;
	}
});

// Destroying futures whose calls can't be finished any more
static mc::Register lost("destroying futures after losing the connection", kindCount * 8, [] (int u) {
	Kind kind = Kind(u % kindCount);
	int mask = u / kindCount;
	World world(kind);
	std::vector<Sample> samples;
	world.answer = [&] (int index, const Received& request) { return world.right(samples[index], request); };
	auto call = [&] (Sample sample) { samples.push_back(sample); return sample.async(world.remote); };
	std::vector<std::unique_ptr<AnyFuture>> futures;
	futures.push_back(call(mAdd.with(1, 2)));
	futures.push_back(call(mEcho.with("x")));
	futures.push_back(call(mStop.with()));
	size_t place = mc::choose(int(world.stream.size() + 1));
	mc::describe(mc::fmt("%s, lost after %zu bytes, polling %d", kindName(kind), place, mask));
	world.stream.resize(place);
	int how = mc::choose(3);
	if (how == 0) { world.deliver(place); world.connection->remoteClosed = true; }
	else if (how == 1) { world.deliver(place); for (int i = 0; i < 3; i++) if (mask & (1 << i)) world.poll(*futures[i]); world.connection->remoteReset = true; }
	else world.closeAfterAll = true;
	static const int orders[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}};
	auto& order = mc::pick(orders);
	for (int i : order) {
		if (how == 0 && (mask & (1 << i))) try { world.poll(*futures[i]); } catch (std::exception&) {}
		futures[i].reset(); // Must not terminate
		mc::step(mc::mix(i, place));
	}
	mc::validated();
});
