// C20: sequences of operations on dynamically assembled objects, holders and copies of objects
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
#include "rpczoo.hpp"
using namespace httpzoo;

// Something that has to be destroyed exactly once
struct Tracked {
	static inline std::map<int, int> alive;
	static inline std::string problem;
	int id;
	uint32_t magic;
	std::unique_ptr<int> memory; // Use after destruction is detected also as access to freed memory
	explicit Tracked(int id) : id(id), magic(0x600df00d), memory(new int(id)) { alive[id]++; }
	Tracked(const Tracked& other) : id(other.get()), magic(0x600df00d), memory(new int(id)) { alive[id]++; }
	Tracked& operator=(const Tracked& other) {
		int newId = other.get();
		alive[get()]--;
		alive[newId]++;
		id = newId;
		*memory = newId;
		return *this;
	}
	int get() const {
		if (magic != 0x600df00d || *memory != id) problem = "used after destruction";
		return id;
	}
	~Tracked() {
		if (magic != 0x600df00d) problem = "destroyed repeatedly";
		alive[id]--;
		magic = 0xdeadbeef;
	}
	static int total() {
		int sum = 0;
		for (auto& it : alive) sum += it.second;
		return sum;
	}
};
static const void* lastParent; // Given to a method
static int runs;
static int32_t result(int id, int32_t a) { runs++; return id * 100 + a; }

struct Helper : RpcObject<Helper> { // An object inside of another one, but not its child
	Tracked state{0};
	RpcMember<[] (Helper* parent, int32_t a = name("a")) { lastParent = parent; return result(parent->state.get(), a); }> help = child<"help">;
};
struct Obj : RpcObject<Obj> {
	Tracked before{0};
	RpcMember<[] (Obj* parent, int32_t a = name("a")) { lastParent = parent; return result(parent->before.get(), a); }> get = child<"get">;
	Helper helper;
	Tracked after{0};
	RpcMember<[] (Obj* parent, int32_t a = name("a")) { lastParent = parent; return result(parent->after.get() + 1, a); }> next = child<"next">;
	void set(int id) {
		before = Tracked(id);
		helper.state = Tracked(id);
		after = Tracked(id);
	}
};
struct alignas(64) Aligned {
	int id;
	int get() const { return reinterpret_cast<uintptr_t>(this) % 64 ? -1 : id; }
};

struct Recorder : ITcpClient {
	std::string request;
	void writeRequest(std::span<char> written) override { request.assign(written.data(), written.size()); }
	void getResponse(RequestToken, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)>) override { throw std::runtime_error("not answered"); }
};

enum Kind { Local, LocalParent, Heap, HeapParent, Big, OverAligned, Object, lambdaKinds, // Owned
		Dynamic, RefObject, RefDynamic, RefTyped };
static const char* const kindNames[] = {"local", "local with parent", "heap", "heap with parent", "big", "aligned", "object", "", "dynamic", "reference to object", "reference to dynamic", "reference to typed"};
struct Content { // What something should contain
	Kind kind;
	int id = 0; // Or index of what is referred
	bool responder = false;
	std::vector<std::pair<std::string, std::shared_ptr<Content>>> children;
};
using ContentPtr = std::shared_ptr<Content>;
static ContentPtr content(Kind kind, int id = 0) {
	auto r = std::make_shared<Content>();
	r->kind = kind;
	r->id = id;
	return r;
}
static RpcLambdaHolder made(Kind kind, int id) {
	switch (kind) {
	case Local: return RpcLambdaHolder([id] (int32_t a = name("a")) { return result(id, a); });
	case LocalParent: return RpcLambdaHolder([id] (IRemoteCallable* parent, int32_t a = name("a")) { lastParent = parent; return result(id, a); });
	case Heap: return RpcLambdaHolder([t = Tracked(id)] (int32_t a = name("a")) { return result(t.get(), a); });
	case HeapParent: return RpcLambdaHolder([t = Tracked(id)] (IRemoteCallable* parent, int32_t a = name("a")) { lastParent = parent; return result(t.get(), a); });
	case Big: return RpcLambdaHolder([big = std::array<int64_t, 20>{1, 2, 3, id, 5}] (int32_t a = name("a")) { return result(big[4] == 5 ? int(big[3]) : -1, a); });
	case OverAligned: return RpcLambdaHolder([aligned = Aligned{id}] (int32_t a = name("a")) { return result(aligned.get(), a); });
	default: {
		Obj object;
		object.set(id);
		return RpcLambdaHolder(std::move(object));
	}
	}
}
using Typed = TypedRpcLambdaHolder<int32_t(int32_t)>;
static std::unique_ptr<Typed> madeTyped(int kind, int id) {
	switch (kind) {
	case 0: return std::make_unique<Typed>([id] (int32_t a = name("a")) { return result(id, a); });
	case 1: return std::make_unique<Typed>([t = Tracked(id)] (int32_t a = name("a")) { return result(t.get(), a); });
	default: return std::make_unique<Typed>([aligned = Aligned{id}] (int32_t a = name("a")) { return result(aligned.get(), a); });
	}
}

constexpr int slots = 2;
struct State {
	Recorder network;
	HttpClient<> client{network, "host"};
	std::unique_ptr<RpcLambdaHolder> holders[slots];
	std::unique_ptr<DynamicRpcObject> dynamics[slots];
	std::unique_ptr<Typed> typed[slots];
	std::unique_ptr<Obj> objects[slots];
	ContentPtr inHolder[slots], inDynamic[slots], inTyped[slots];
	int inObject[slots] = {};
	int lastId = 0;
	int nextId() { return ++lastId; }

	// The places everything can be found at
	template <typename F> void eachRoot(F&& f) {
		for (int i = 0; i < slots; i++) if (inHolder[i]) f(**holders[i], inHolder[i], false);
		for (int i = 0; i < slots; i++) if (dynamics[i]) f(*dynamics[i], inDynamic[i], true);
		for (int i = 0; i < slots; i++) if (inTyped[i]) f(**typed[i], inTyped[i], false);
	}
	bool refers(const ContentPtr& in, Kind kind, int index) {
		if (!in) return false;
		if (in->kind == kind && in->id == index) return true;
		for (auto& it : in->children) if (refers(it.second, kind, index)) return true;
		return false;
	}
	bool referred(Kind kind, int index) {
		for (int i = 0; i < slots; i++) if (refers(inHolder[i], kind, index) || refers(inDynamic[i], kind, index)) return true;
		return false;
	}
	bool hasReferences(const ContentPtr& in) {
		if (!in) return false;
		if (in->kind >= RefObject) return true;
		for (auto& it : in->children) if (hasReferences(it.second)) return true;
		return false;
	}
	// Those that are only in a holder don't know of it
	bool addedReferences(const ContentPtr& in) { return in && in->kind == Dynamic && hasReferences(in); }
	ContentPtr followed(const ContentPtr& it) { return it->kind == RefDynamic ? inDynamic[it->id] : it; }

	// Calls everything that should be callable
	void verifyAt(JsonRpcServer<>::Session& session, IRemoteCallable& at, IRemoteCallable* parent, const ContentPtr& what, const std::string& path, const std::string& text) {
		if (mc::failed()) return;
		auto it = followed(what);
		auto call = [&] (const std::string& path, int id, const void* dueParent) {
			if (mc::failed()) return;
			std::string body = "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"" + path + "\",\"params\":{\"a\":7}}";
			std::string request = mc::fmt("POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: %zu\r\n\r\n", body.size()) + body;
			std::string out;
			lastParent = nullptr;
			runs = 0;
			session.respond(std::span<char>(request), [&] (std::span<const char> written) { out.append(written.data(), written.size()); });
			mc::step(mc::mix(mc::hash(path), mc::mix(id, what->kind)));
			MC_CHECK(runs == 1 && out.find(mc::fmt("\"result\" : %d\n", id * 100 + 7)) != std::string::npos, std::string("call-") + kindNames[what->kind], "the method " + mc::quoted(path, 100) + " of " + text + mc::fmt(" should return %d and run once, it ran %d times, responded ", id * 100 + 7, runs) + mc::quoted(out, 300));
			MC_CHECK(lastParent == dueParent, std::string("parent-") + kindNames[what->kind], "the method " + mc::quoted(path, 100) + " of " + text + mc::fmt(" got parent %p instead of %p", lastParent, dueParent));
		};
		auto joined = [&] (const std::string& name) { return path.empty() ? name : path + "." + name; };
		switch (it->kind) {
		case Dynamic:
			for (int i = 0; i < int(it->children.size()) && !mc::failed(); i++) {
				auto& name = it->children[i].first;
				auto named = const_cast<IRemoteCallable*>(at.getChild(name));
				MC_CHECK(named && named == at.getChild(i), "child", "child " + joined(name) + " of " + text + " can't be accessed or has a wrong index");
				if (mc::failed()) return;
				MC_CHECK(at.childName(named).first == name && at.childName(named).second == i, "child-name", "child " + joined(name) + " of " + text + " has a wrong name");
				MC_CHECK(named->parent() == &at, "child-parent", "child " + joined(name) + " of " + text + " has a wrong parent");
				verifyAt(session, *named, &at, it->children[i].second, joined(name), text);
			}
			MC_CHECK(!at.getChild(int(it->children.size())), "more-children", text + " has more children");
			for (auto name : {"a", "b", "c", "d"}) {
				bool held = false;
				for (auto& child : it->children) if (child.first == name) held = true;
				if (!held) MC_CHECK(!at.getChild(name), "other-child", text + " has a child called " + name);
			}
			break;
		case Object:
			call(joined("get"), it->id, &at);
			call(joined("next"), it->id + 1, &at);
			break;
		case RefObject:
			call(joined("get"), inObject[it->id], objects[it->id].get());
			call(joined("next"), inObject[it->id] + 1, objects[it->id].get());
			break;
		case RefTyped: call(path, inTyped[it->id]->id, nullptr); break;
		case LocalParent: case HeapParent: call(path, it->id, parent); break;
		default: call(path, it->id, nullptr);
		}
	}
	static std::string textOf(const ContentPtr& it) {
		if (!it) return "nothing";
		std::string r = kindNames[it->kind] + mc::fmt(" %d", it->id);
		if (it->kind != Dynamic) return r;
		r = "dynamic{";
		for (auto& child : it->children) r += child.first + ": " + textOf(child.second) + "; ";
		return r + "}";
	}
	// The path to something from a client and if it has any
	bool clientPath(const ContentPtr& in, Kind kind, int index, std::string& path, bool& responder) {
		if (in->kind == kind && in->id == index) return true;
		if (in->kind == RefDynamic) return clientPath(inDynamic[in->id], kind, index, path, responder);
		for (auto& it : in->children) {
			std::string rest;
			if (!clientPath(it.second, kind, index, rest, responder)) continue;
			if (in->responder) responder = true;
			path = it.first + (rest.empty() ? "" : "/") + rest;
			return true;
		}
		return false;
	}
	template <typename F> void verifyClient(Kind kind, int index, int id, const std::string& method, F&& call) {
		if (mc::failed()) return;
		std::string path;
		bool responder = false, found = false;
		for (int i = 0; i < slots; i++) { // Those in others first
			for (auto* from : {&inDynamic[i], &inHolder[i]}) if (*from && !found && (*from)->kind == Dynamic && (from == &inHolder[i] || !referred(RefDynamic, i))) found = clientPath(*from, kind, index, path, responder);
		}
		for (int i = 0; i < slots; i++) if (inHolder[i] && inHolder[i]->kind == RefDynamic && !found) found = clientPath(inDynamic[inHolder[i]->id], kind, index, path, responder);
		runs = 0;
		network.request.clear();
		std::string problem;
		int32_t got = 0;
		try { got = call(); } catch (std::exception& e) { problem = e.what(); }
		if (path.size() && method.size()) path += "/" + method;
		else path += method;
		mc::step(mc::mix(mc::hash(path), mc::mix(responder, kind)));
		if (responder) MC_CHECK(runs == 0 && network.request.find(" /" + path + " HTTP/1.1\r\n") != std::string::npos, std::string("client-") + kindNames[kind], "a call by client should ask for " + path + mc::fmt(" but it ran %d times and asked for ", runs) + mc::quoted(network.request, 200) + " " + problem);
		else MC_CHECK(runs == 1 && network.request.empty() && got == id * 100 + 7, std::string("local-") + kindNames[kind], mc::fmt("a local call should return %d, it ran %d times and returned %d ", id * 100 + 7, runs, got) + problem);
	}
	int due(const ContentPtr& in) { // How many tracked ones should be there
		if (!in) return 0;
		int r = in->kind == Heap || in->kind == HeapParent ? 1 : in->kind == Object ? 3 : 0;
		for (auto& it : in->children) r += due(it.second);
		return r;
	}
	void verifyLives() {
		int expected = 0;
		for (int i = 0; i < slots; i++) {
			expected += due(inHolder[i]) + (dynamics[i] ? due(inDynamic[i]) : 0) + due(inTyped[i]);
			if (objects[i]) expected += 3;
		}
		MC_CHECK(Tracked::total() == expected, Tracked::total() < expected ? "destroyed-early" : "not-destroyed", mc::fmt("%d objects are alive instead of %d", Tracked::total(), expected));
		for (auto& it : Tracked::alive) if (!mc::failed()) MC_CHECK(it.second >= 0, "destroyed-twice", mc::fmt("object %d was destroyed repeatedly", it.first));
		MC_CHECK(Tracked::problem.empty(), "use", "something was " + Tracked::problem);
	}
	void verify() {
		verifyLives();
		eachRoot([&] (IRemoteCallable& root, const ContentPtr& what, bool isDynamic) {
			DummyGetResponder none;
			JsonRpcServer<> server(root, none);
			auto session = server.getSession();
			verifyAt(session, root, root.parent(), what, "", textOf(what));
		});
		for (int i = 0; i < slots; i++) {
			if (objects[i]) {
				verifyClient(RefObject, i, inObject[i], "get", [&] { return objects[i]->get(7); });
				verifyClient(RefObject, i, inObject[i] + 1, "next", [&] { return objects[i]->next(7); });
				if (mc::failed()) return;
				lastParent = nullptr;
				MC_CHECK(objects[i]->helper.help(7) == inObject[i] * 100 + 7 && lastParent == &objects[i]->helper, "inner-object", "the method of an inner object ran with another one");
			}
			if (inTyped[i]) verifyClient(RefTyped, i, inTyped[i]->id, "", [&] { return (*typed[i])(7); });
		}
		if (!mc::failed()) verifyLives();
		if (!mc::failed()) mc::validated();
	}

	// What can be done
	struct Operation {
		std::string name;
		std::function<void()> run;
	};
	void dropHolder(int i) { holders[i].reset(); inHolder[i] = nullptr; }
	bool add(int d, ContentPtr what) {
		inDynamic[d]->children.emplace_back(std::string(1, char('a' + inDynamic[d]->children.size())), what);
		if (what->kind == RefDynamic) inDynamic[what->id]->responder = false;
		what->responder = false;
		return true;
	}
	std::string nextName(int d) { return std::string(1, char('a' + inDynamic[d]->children.size())); }
	std::vector<Operation> operations() {
		std::vector<Operation> r;
		auto op = [&] (std::string name, std::function<void()> run) { r.push_back({name, run}); };
		for (int h = 0; h < slots; h++) {
			int other = 1 - h;
			bool stays = addedReferences(inHolder[h]); // Destroying it would leave what it refers to without a parent
			if (!stays) for (int k = 0; k < lambdaKinds; k++) {
				if (h == 1 && !holders[0]) continue; // It would be the same
				op(mc::fmt("h%d=%s", h, kindNames[k]), [=, this] {
					int id = nextId();
					if (holders[h]) *holders[h] = made(Kind(k), id);
					else holders[h] = std::make_unique<RpcLambdaHolder>(made(Kind(k), id));
					inHolder[h] = content(Kind(k), id);
				});
			}
			if (holders[h]) {
				if (!holders[other]) op(mc::fmt("h%d(move(h%d))", other, h), [=, this] {
					holders[other] = std::make_unique<RpcLambdaHolder>(std::move(*holders[h]));
					inHolder[other] = inHolder[h];
					inHolder[h] = nullptr;
				});
				else if (!addedReferences(inHolder[other])) op(mc::fmt("h%d=move(h%d)", other, h), [=, this] {
					*holders[other] = std::move(*holders[h]);
					inHolder[other] = inHolder[h];
					inHolder[h] = nullptr;
				});
				if (inHolder[h]) op(mc::fmt("h%d=move(h%d)", h, h), [=, this] {
					auto& same = *holders[h];
					*holders[h] = std::move(same);
				});
				if (!stays) op(mc::fmt("~h%d", h), [=, this] { dropHolder(h); });
				for (int d = 0; d < slots; d++) if (inHolder[h] && dynamics[d] && inDynamic[d]->children.size() < 4 && !refers(inHolder[h], RefDynamic, d))
					op(mc::fmt("d%d.add(h%d)", d, h), [=, this] {
						dynamics[d]->add(nextName(d), std::move(*holders[h]));
						add(d, inHolder[h]);
						inHolder[h] = nullptr;
					});
			}
			if (!holders[h] && (h == 0 || holders[0])) {
				for (int d = 0; d < slots; d++) if (dynamics[d]) {
					if (!referred(RefDynamic, d)) op(mc::fmt("h%d(move(d%d))", h, d), [=, this] {
						holders[h] = std::make_unique<RpcLambdaHolder>(std::move(*dynamics[d]));
						inHolder[h] = inDynamic[d];
						inDynamic[d] = content(Dynamic);
						inDynamic[d]->responder = inHolder[h]->responder; // It still has it
					});
					if (!referred(RefDynamic, d) && !hasReferenceToDynamic(inDynamic[d])) op(mc::fmt("h%d(&d%d)", h, d), [=, this] {
						holders[h] = std::make_unique<RpcLambdaHolder>(RpcLambdaHolder::nonOwning(*dynamics[d]));
						inHolder[h] = content(RefDynamic, d);
					});
				}
				for (int o = 0; o < slots; o++) if (objects[o] && !referred(RefObject, o)) op(mc::fmt("h%d(&o%d)", h, o), [=, this] {
					holders[h] = std::make_unique<RpcLambdaHolder>(RpcLambdaHolder::nonOwning(*objects[o]));
					inHolder[h] = content(RefObject, o);
				});
				for (int t = 0; t < slots; t++) if (inTyped[t] && !referred(RefTyped, t)) op(mc::fmt("h%d(&t%d)", h, t), [=, this] {
					holders[h] = std::make_unique<RpcLambdaHolder>(RpcLambdaHolder::nonOwning(**typed[t]));
					inHolder[h] = content(RefTyped, t);
				});
			}
		}
		for (int d = 0; d < slots; d++) {
			int other = 1 - d;
			if (!dynamics[d]) {
				if (d == 0 || dynamics[0]) op(mc::fmt("d%d()", d), [=, this] { dynamics[d] = std::make_unique<DynamicRpcObject>(); inDynamic[d] = content(Dynamic); });
				continue;
			}
			if (!dynamics[other] && !referred(RefDynamic, d)) op(mc::fmt("d%d(move(d%d))", other, d), [=, this] {
				dynamics[other] = std::make_unique<DynamicRpcObject>(std::move(*dynamics[d]));
				inDynamic[other] = inDynamic[d];
				inDynamic[d] = content(Dynamic);
				inDynamic[d]->responder = inDynamic[other]->responder;
			});
			if (!referred(RefDynamic, d) && !addedReferences(inDynamic[d])) op(mc::fmt("~d%d", d), [=, this] { dynamics[d].reset(); inDynamic[d] = nullptr; });
			if (!inDynamic[d]->responder && !addedTo(d)) op(mc::fmt("client of d%d", d), [=, this] { dynamics[d]->setResponder(client); inDynamic[d]->responder = true; });
			for (int t = 0; t < slots; t++) if (inTyped[t] && !referred(RefTyped, t) && inDynamic[d]->children.size() < 4) op(mc::fmt("d%d.add(t%d)", d, t), [=, this] {
				dynamics[d]->add(nextName(d), std::move(*typed[t]));
				add(d, inTyped[t]);
				inTyped[t] = nullptr;
			});
			if (inDynamic[d]->children.size() < 4) op(mc::fmt("d%d.add(lambda)", d), [=, this] {
				int id = nextId();
				dynamics[d]->add(nextName(d), [t = Tracked(id)] (IRemoteCallable* parent, int32_t a = name("a")) { lastParent = parent; return result(t.get(), a); });
				add(d, content(HeapParent, id));
			});
		}
		for (int t = 0; t < slots; t++) {
			int other = 1 - t;
			if (referred(RefTyped, t)) continue;
			if (t == 0 || typed[0]) for (int k = 0; k < 3; k++) op(mc::fmt("t%d=%d", t, k), [=, this] {
				int id = nextId();
				if (typed[t]) *typed[t] = std::move(*madeTyped(k, id));
				else typed[t] = madeTyped(k, id);
				inTyped[t] = content(k == 0 ? Local : k == 1 ? Heap : OverAligned, id);
			});
			if (!typed[t]) continue;
			op(mc::fmt("~t%d", t), [=, this] { typed[t].reset(); inTyped[t] = nullptr; });
			if (inTyped[t] && !referred(RefTyped, other)) op(mc::fmt("t%d=move(t%d)", other, t), [=, this] {
				if (typed[other]) *typed[other] = std::move(*typed[t]);
				else typed[other] = std::make_unique<Typed>(std::move(*typed[t]));
				inTyped[other] = inTyped[t];
				inTyped[t] = nullptr;
			});
		}
		for (int o = 0; o < slots; o++) {
			int other = 1 - o;
			if (!objects[o]) {
				if (o == 0 || objects[0]) op(mc::fmt("o%d()", o), [=, this] {
					objects[o] = std::make_unique<Obj>();
					inObject[o] = nextId();
					nextId();
					objects[o]->set(inObject[o]);
				});
				continue;
			}
			if (!referred(RefObject, o)) op(mc::fmt("~o%d", o), [=, this] { objects[o].reset(); });
			if (objects[other]) op(mc::fmt("o%d=o%d", other, o), [=, this] { *objects[other] = *objects[o]; inObject[other] = inObject[o]; });
			else {
				op(mc::fmt("o%d(o%d)", other, o), [=, this] { objects[other] = std::make_unique<Obj>(*objects[o]); inObject[other] = inObject[o]; });
				op(mc::fmt("o%d(move(o%d))", other, o), [=, this] { objects[other] = std::make_unique<Obj>(std::move(*objects[o])); inObject[other] = inObject[o]; });
			}
			op(mc::fmt("o%d=o%d", o, o), [=, this] { auto& same = *objects[o]; *objects[o] = same; });
			for (int h = 0; h < slots; h++) if (!holders[h] && (h == 0 || holders[0])) op(mc::fmt("h%d(copy of o%d)", h, o), [=, this] {
				holders[h] = std::make_unique<RpcLambdaHolder>(Obj(*objects[o]));
				inHolder[h] = content(Object, inObject[o]);
			});
		}
		return r;
	}
	bool hasReferenceToDynamic(const ContentPtr& in) { return refers(in, RefDynamic, 0) || refers(in, RefDynamic, 1); }
	bool addedTo(int d) {
		for (int i = 0; i < slots; i++) if ((inDynamic[i] && refers(inDynamic[i], RefDynamic, d)) || (inHolder[i] && inHolder[i]->kind == Dynamic && refers(inHolder[i], RefDynamic, d))) return true;
		return false;
	}
	void finish(bool backwards) {
		// What refers goes first, or last if the referred objects aren't used any more
		auto one = [&] (int i) {
			if (!backwards) { dropHolder(i); dynamics[i].reset(); typed[i].reset(); objects[i].reset(); }
			else { objects[i].reset(); typed[i].reset(); dynamics[i].reset(); dropHolder(i); }
		};
		for (int i = 0; i < slots; i++) one(backwards ? slots - 1 - i : i);
		MC_CHECK(Tracked::total() == 0, Tracked::total() < 0 ? "destroyed-twice" : "not-destroyed", mc::fmt("%d objects are alive in the end", Tracked::total()));
		MC_CHECK(Tracked::problem.empty(), "use", "something was " + Tracked::problem);
	}
};
static void sequence(int length, int first, const std::vector<const char*>& beginning = {}) {
	Tracked::alive.clear();
	Tracked::problem.clear();
	State state;
	std::string text;
	for (auto it : beginning) {
		bool found = false;
		for (auto& op : state.operations()) if (!found && op.name == it) { op.run(); found = true; }
		if (!found) throw std::logic_error(std::string("no operation ") + it);
		text += std::string(it) + " ";
	}
	for (int i = 0; i < length; i++) {
		auto operations = state.operations();
		if (i == 0 && first >= int(operations.size())) return;
		auto& chosen = operations[i == 0 && first >= 0 ? first : mc::choose(int(operations.size()))];
		text += chosen.name + " ";
		mc::describe(text);
		chosen.run();
		state.verifyLives();
		if (mc::failed()) return;
	}
	state.verify(); // Shorter ones are tried too
	if (mc::failed()) return;
	state.finish(mc::choose(2));
}
constexpr int mostFirst = 24;
static mc::Register fromNothing("sequences from nothing", 7 * mostFirst, [] (int u) {
	int length = 1 + u / mostFirst;
	if (length > (mc::thorough() ? 5 : 4)) return;
	sequence(length, u % mostFirst);
});
// Having something already
static const std::vector<std::vector<const char*>> beginnings = {
	{"d0()", "d1()", "h0=heap", "d0.add(h0)"},
	{"d0()", "d1()", "h0=local with parent", "d0.add(h0)", "h0=heap with parent", "d0.add(h0)", "h0=local", "d0.add(h0)"},
	{"d0()", "client of d0", "o0()", "h0(&o0)", "d0.add(h0)", "t0=0", "~h0", "h0(&t0)", "d0.add(h0)"},
	{"d0()", "d1()", "h0=object", "d0.add(h0)", "~h0", "h0(move(d0))", "d1.add(h0)", "client of d1"},
	{"h0=heap", "h1=local", "t0=1", "t1=0"},
	{"d0()", "d1()", "o0()", "h0(&o0)", "d0.add(h0)", "~h0", "h0(&d0)", "d1.add(h0)"},
	{"o0()", "o1()", "d0()", "h0(&o1)", "d0.add(h0)", "client of d0"},
};
constexpr int mostSecond = 40;
static mc::Register fromSome("sequences from assembled objects", 7 * 4 * mostSecond, [] (int u) {
	int length = 1 + u / mostSecond % 4;
	if (length > (mc::thorough() ? 4 : 3)) return;
	sequence(length, u % mostSecond, beginnings[u / mostSecond / 4]);
});

// Adding many, so that what was added before has to be moved
static mc::Register growth("adding many", 64, [] (int u) {
	Tracked::alive.clear();
	Tracked::problem.clear();
	{
		State state;
		state.dynamics[0] = std::make_unique<DynamicRpcObject>();
		state.inDynamic[0] = content(Dynamic);
		std::string text;
		int period[2] = {u % 8, u / 8}, third = mc::choose(8), count = mc::thorough() ? 70 : 20, nested = mc::choose(3);
		for (int i = 0; i < count && !mc::failed(); i++) {
			int kind = i % 3 < 2 ? period[i % 3] : third;
			int id = state.nextId();
			auto name = mc::fmt("n%d", i);
			if (kind < lambdaKinds) {
				state.dynamics[0]->add(name, made(Kind(kind), id));
				state.inDynamic[0]->children.emplace_back(name, content(Kind(kind), id));
			} else { // What was made until now is put into it
				DynamicRpcObject outer;
				auto outerContent = content(Dynamic);
				outer.add("first", made(HeapParent, id));
				outerContent->children.emplace_back("first", content(HeapParent, id));
				if (i % 4 < nested) {
					outer.add(name, std::move(*state.dynamics[0]));
					outerContent->children.emplace_back(name, state.inDynamic[0]);
					state.dynamics[0] = std::make_unique<DynamicRpcObject>(std::move(outer));
					state.inDynamic[0] = outerContent;
				} else {
					state.dynamics[0]->add(name, std::move(outer));
					state.inDynamic[0]->children.emplace_back(name, outerContent);
				}
			}
			mc::describe(mc::fmt("kinds %d %d %d nested %d added %d", period[0], period[1], third, nested, i + 1));
			if (mc::thorough() || i < 9 || i % 4 == 0) state.verify();
		}
		if (!mc::failed()) state.finish(mc::choose(2));
	}
});

// Copies of static objects, some of them fail
static int untilThrow = 0;
struct Thrower {
	Thrower() = default;
	Thrower(const Thrower&) { if (untilThrow > 0 && --untilThrow == 0) throw std::runtime_error("cannot copy"); }
	Thrower& operator=(const Thrower&) = default;
};
#define MEMBERS(CLASS) \
	Tracked state{0}; Thrower thrower1; \
	RpcMember<[] (CLASS* parent, int32_t a = name("a")) { lastParent = parent; return result(parent->state.get(), a); }> one = child<"one">; \
	Helper helper; Thrower thrower2; std::vector<Helper> helpers{2}; \
	RpcMember<[] (int32_t a = name("a")) { return result(0, a); }> two = child<"two">; \
	std::array<int, 30> padding{}; Thrower thrower3; \
	RpcMember<[] (CLASS* parent, int32_t a = name("a")) { lastParent = parent; return result(parent->state.get() + 2, a); }> three = child<"three">; \
	Thrower thrower4;
struct Plain : RpcObject<Plain> { MEMBERS(Plain) };
struct OwnCopy : RpcObject<OwnCopy> { // Copies its base but initialises its methods
	MEMBERS(OwnCopy)
	OwnCopy() = default;
	OwnCopy(const OwnCopy& other) : RpcObject<OwnCopy>(other), state(other.state), thrower1(other.thrower1), thrower4(other.thrower4) {}
	OwnCopy& operator=(const OwnCopy& other) { state = other.state; return *this; }
};
struct OwnDefault : RpcObject<OwnDefault> { // Copies its state only
	MEMBERS(OwnDefault)
	OwnDefault() = default;
	OwnDefault(const OwnDefault& other) : state(other.state), thrower2(other.thrower2) {}
	OwnDefault& operator=(const OwnDefault& other) { state = other.state; return *this; }
};
struct Deriving : Plain { Helper another; Thrower last; };
template <typename T>
static void copies(int first) {
	Tracked::alive.clear();
	Tracked::problem.clear();
	untilThrow = 0;
	{
		std::unique_ptr<T> kept[3];
		int ids[3] = {}, lastId = 0;
		std::vector<T> many;
		std::vector<int> manyIds;
		auto fresh = [&] (int i) { kept[i] = std::make_unique<T>(); kept[i]->state = Tracked(ids[i] = lastId += 10); };
		fresh(0);
		std::string text;
		auto verify = [&] (T& at, int id, const std::string& where) {
			if (mc::failed()) return;
			IRemoteCallable& callable = at;
			auto one = [&] (auto& method, const char* name, int index, int id, bool hasParent) {
				if (mc::failed()) return;
				mc::step(mc::mix(mc::hash(where), mc::mix(index, id)));
				const IRemoteCallable* child = &method;
				MC_CHECK(callable.getChild(name) == child && callable.getChild(index) == child && callable.childName(child).first == name, "copied-child", std::string("the method ") + name + " of " + where + " can't be accessed");
				MC_CHECK(child->parent() == &callable, "copied-parent", std::string("the method ") + name + " of " + where + " has another parent");
				if (mc::failed()) return;
				lastParent = nullptr;
				MC_CHECK(method(7) == id * 100 + 7 && lastParent == (hasParent ? &at : nullptr), "copied-call", std::string("the method ") + name + " of " + where + " ran in another object");
			};
			one(at.one, "one", 0, id, true);
			one(at.two, "two", 1, 0, false);
			one(at.three, "three", 2, id + 2, true);
			lastParent = nullptr;
			MC_CHECK(at.helper.help(7) % 100 == 7 && lastParent == &at.helper, "copied-inner", "the object in " + where + " has another parent");
			for (auto& it : at.helpers) {
				lastParent = nullptr;
				MC_CHECK(it.help(7) % 100 == 7 && lastParent == &it, "copied-inner", "the object in the vector in " + where + " has another parent");
			}
		};
		int length = mc::thorough() ? 4 : 3;
		for (int i = 0; i < length && !mc::failed(); i++) {
			struct Operation { std::string name; std::function<void()> run; };
			std::vector<Operation> operations;
			auto op = [&] (std::string name, std::function<void()> run) { operations.push_back({name, run}); };
			for (int a = 0; a < 3; a++) {
				if (!kept[a]) {
					if (a > 0 && !kept[a - 1]) continue;
					op(mc::fmt("%d()", a), [&, a] { fresh(a); });
					for (int b = 0; b < 3; b++) if (kept[b]) for (int failing = 0; failing < 6; failing++) op(mc::fmt("%d(%d) failing at %d", a, b, failing), [&, a, b, failing] {
						untilThrow = failing;
						try { kept[a] = std::make_unique<T>(*kept[b]); ids[a] = ids[b]; } catch (std::runtime_error&) {}
						untilThrow = 0;
					});
					continue;
				}
				op(mc::fmt("~%d", a), [&, a] { kept[a].reset(); });
				for (int b = 0; b < 3; b++) if (kept[b]) op(mc::fmt("%d=%d", a, b), [&, a, b] { *kept[a] = *kept[b]; ids[a] = ids[b]; });
				for (int b = 0; b < a; b++) if (kept[b]) op(mc::fmt("swap(%d,%d)", a, b), [&, a, b] { std::swap(*kept[a], *kept[b]); std::swap(ids[a], ids[b]); });
				for (int failing = 0; failing < 2; failing++) op(mc::fmt("vector.push_back(%d) failing at %d", a, failing * 3), [&, a, failing] {
					untilThrow = failing * 3;
					try { many.push_back(*kept[a]); manyIds.push_back(ids[a]); } catch (std::runtime_error&) {}
					untilThrow = 0;
				});
			}
			if (many.size()) op("vector.insert", [&] { many.insert(many.begin(), many.back()); manyIds.insert(manyIds.begin(), manyIds.back()); });
			if (many.size()) op("vector.erase", [&] { many.erase(many.begin()); manyIds.erase(manyIds.begin()); });
			if (kept[0]) op("method copied", [&] { // A copy of a method alone belongs to the same object
				auto method = kept[0]->one;
				lastParent = nullptr;
				MC_CHECK(method(7) == ids[0] * 100 + 7 && lastParent == kept[0].get(), "copied-method", "a copied method of " + text + " ran in another object");
			});
			int which = i == 0 ? first : mc::choose(int(operations.size()));
			if (which >= int(operations.size())) return;
			text += operations[which].name + " ";
			mc::describe(text);
			operations[which].run();
			for (int a = 0; a < 3; a++) if (kept[a]) verify(*kept[a], ids[a], mc::fmt("object %d after ", a) + text);
			for (size_t a = 0; a < many.size(); a++) verify(many[a], manyIds[a], mc::fmt("object %zu in vector after ", a) + text);
			MC_CHECK(Tracked::problem.empty(), "use", "something was " + Tracked::problem);
		}
	}
	MC_CHECK(Tracked::total() == 0, Tracked::total() < 0 ? "destroyed-twice" : "not-destroyed", mc::fmt("%d objects are alive in the end", Tracked::total()));
	if (!mc::failed()) mc::validated();
}
static mc::Register copying("copies of objects", 4 * 24, [] (int u) {
	switch (u / 24) {
	case 0: return copies<Plain>(u % 24);
	case 1: return copies<OwnCopy>(u % 24);
	case 2: return copies<OwnDefault>(u % 24);
	default: return copies<Deriving>(u % 24);
	}
});
