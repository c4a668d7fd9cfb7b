// C19: paths in trees of remote objects
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "rpczoo.hpp"
using namespace httpzoo;

static std::vector<int> ran; // Identifiers of methods that were run
static int ran1(int id) { ran.push_back(id); return id; }

// Static objects with similar names, the methods know their object by its identifier
struct Similar : RpcObject<Similar> {
	int id = 0;
	RpcMember<[] (Similar* parent) { return ran1(parent->id); }> a = child<"a">;
	RpcMember<[] (Similar* parent) { return ran1(parent->id + 1); }> aa = child<"aa">;
	RpcMember<[] (Similar* parent, int32_t by = name("by")) { return ran1(parent->id + 2); }> ab = child<"ab">;
	RpcMember<[] (Similar* parent) { return ran1(parent->id + 3); }> b = child<"b">;
	static constexpr std::array<const char*, 4> names = {"a", "aa", "ab", "b"};
	int call(int which) { return which == 0 ? a() : which == 1 ? aa() : which == 2 ? ab(0) : b(); }
};
struct Single : RpcObject<Single> {
	int id = 0;
	std::string notReflected = "something";
	RpcMember<[] (Single* parent) { return ran1(parent->id); }> renamed = child<"ba">;
	static constexpr std::array<const char*, 1> names = {"ba"};
	int call(int) { return renamed(); }
};
struct Many : RpcObject<Many> {
	int id = 0;
#define METHOD(N, NAME) RpcMember<[] (Many* parent) { return ran1(parent->id + N); }> m##N = child<NAME>; int filler##N = N;
	METHOD(0, "m") METHOD(1, "mm") METHOD(2, "mmm") METHOD(3, "m0") METHOD(4, "m00") METHOD(5, "M") METHOD(6, "aVeryLongNameOfAMethodThatIsNotStoredInPlace") METHOD(7, "aVeryLongNameOfAMethodThatIsNotStoredInPlace2")
	METHOD(8, "_") METHOD(9, "__") METHOD(10, "$") METHOD(11, "m-m") METHOD(12, "0")
	static constexpr std::array<const char*, 13> names = {"m", "mm", "mmm", "m0", "m00", "M", "aVeryLongNameOfAMethodThatIsNotStoredInPlace", "aVeryLongNameOfAMethodThatIsNotStoredInPlace2", "_", "__", "$", "m-m", "0"};
	int call(int which) {
		switch (which) {
#define CASE(N) case N: return m##N();
		CASE(0) CASE(1) CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7) CASE(8) CASE(9) CASE(10) CASE(11) default: return m12();
		}
	}
};

// The tree as it should be
struct Spec {
	enum Kind { Lambda, HeapLambda, Dynamic, OfSimilar, OfSingle, OfMany } kind = Lambda;
	std::string name;
	std::vector<Spec> children; // Of the dynamic ones
	int id = 0; // Of the first method in it
	std::string text() const {
		std::string r = name;
		if (kind == HeapLambda) r += "'";
		if (kind == Dynamic) {
			r += "{";
			for (auto& it : children) r += (r.back() == '{' ? "" : " ") + it.text();
			r += "}";
		} else if (kind > Dynamic) r += kind == OfSimilar ? "{Similar}" : kind == OfSingle ? "{Single}" : "{Many}";
		return r;
	}
	int number(int from) { // Returns how many are used
		id = from;
		switch (kind) {
		case OfSimilar: return from + 4;
		case OfSingle: return from + 1;
		case OfMany: return from + 13;
		case Dynamic:
			for (auto& it : children) from = it.number(from);
			return from;
		default: return from + 1;
		}
	}
	std::vector<std::pair<std::string, int>> members() const {
		std::vector<std::pair<std::string, int>> r;
		auto from = [&] (const auto& names) { for (size_t i = 0; i < names.size(); i++) r.emplace_back(names[i], id + int(i)); };
		if (kind == OfSimilar) from(Similar::names);
		if (kind == OfSingle) from(Single::names);
		if (kind == OfMany) from(Many::names);
		return r;
	}
};
struct Method {
	std::vector<std::string> names;
	std::vector<int> indexes;
	int id;
	bool argument;
	std::string path(std::string_view separator) const {
		std::string r;
		for (auto& it : names) r += (r.empty() ? std::string() : std::string(separator)) + it;
		return r;
	}
};
static void collect(const Spec& spec, Method& at, std::vector<Method>& out) {
	auto inside = [&] (const std::string& name, int index, auto&& then) {
		at.names.push_back(name);
		at.indexes.push_back(index);
		then();
		at.names.pop_back();
		at.indexes.pop_back();
	};
	int index = 0;
	if (spec.kind == Spec::Dynamic) {
		for (auto& it : spec.children) inside(it.name, index++, [&] { collect(it, at, out); });
	} else if (spec.kind > Spec::Dynamic) {
		for (auto& it : spec.members()) {
			inside(it.first, index, [&] { out.push_back({at.names, at.indexes, it.second, spec.kind == Spec::OfSimilar && index == 2}); });
			index++;
		}
	} else out.push_back({at.names, at.indexes, spec.id, false});
}

// The tree as it's built
struct Tree {
	enum Way { OwnedUpwards, ReferredUpwards, ReferredDownwards, wayCount };
	std::vector<std::shared_ptr<void>> kept;
	std::shared_ptr<IRemoteCallable> root;
	std::map<int, std::function<int()>> callers; // Only of those that remain accessible
	Tree(const Spec& spec, Way way) { root = make(spec, way); }
	template <typename T>
	std::shared_ptr<IRemoteCallable> object(int id) {
		auto made = std::make_shared<T>();
		made->id = id;
		kept.push_back(made);
		for (int i = 0; i < int(T::names.size()); i++) callers[id + i] = [object = made.get(), i] { return object->call(i); };
		return made;
	}
	std::shared_ptr<IRemoteCallable> make(const Spec& spec, Way way) {
		switch (spec.kind) {
		case Spec::OfSimilar: return object<Similar>(spec.id);
		case Spec::OfSingle: return object<Single>(spec.id);
		case Spec::OfMany: return object<Many>(spec.id);
		case Spec::Dynamic: {
			auto made = std::make_shared<DynamicRpcObject>();
			fill(*made, spec, way);
			return made;
		}
		default: return nullptr; // Not the root
		}
	}
	static RpcLambdaHolder lambda(const Spec& it) {
		if (it.kind == Spec::Lambda) return RpcLambdaHolder([id = it.id] () { return ran1(id); });
		return RpcLambdaHolder([id = std::vector<int>{1, 2, it.id}] () { return ran1(id[2]); });
	}
	template <typename T> static T withId(int id) {
		T made;
		made.id = id;
		return made;
	}
	void fill(DynamicRpcObject& into, const Spec& spec, Way way) {
		for (auto& it : spec.children) {
			if (it.kind < Spec::Dynamic) into.add(it.name, lambda(it));
			else if (way == OwnedUpwards) {
				switch (it.kind) {
				case Spec::OfSimilar: into.add(it.name, withId<Similar>(it.id)); break;
				case Spec::OfSingle: into.add(it.name, withId<Single>(it.id)); break;
				case Spec::OfMany: into.add(it.name, withId<Many>(it.id)); break;
				default: {
					DynamicRpcObject inner;
					fill(inner, it, way);
					into.add(it.name, std::move(inner));
				}
				}
			} else if (way == ReferredUpwards || it.kind != Spec::Dynamic) {
				kept.push_back(make(it, way));
				into.add(it.name, RpcLambdaHolder::nonOwning(*static_cast<IRemoteCallable*>(lastOf(it))));
			} else {
				auto inner = std::make_shared<DynamicRpcObject>();
				kept.push_back(inner);
				into.add(it.name, RpcLambdaHolder::nonOwning(*inner));
				fill(*inner, it, way);
			}
		}
	}
	IRemoteCallable* lastOf(const Spec& it) {
		void* object = kept.back().get();
		switch (it.kind) {
		case Spec::OfSimilar: return static_cast<Similar*>(object);
		case Spec::OfSingle: return static_cast<Single*>(object);
		case Spec::OfMany: return static_cast<Many*>(object);
		default: return static_cast<DynamicRpcObject*>(object);
		}
	}
};

struct Served {
	DummyGetResponder none;
	RpcGetResponder<> get;
	HtmlPostResponder<> post;
	HttpServer<> http;
	JsonRpcServer<> json;
	BinaryProtocolServer<uint16_t> binary;
	HttpServer<>::Session httpSession;
	JsonRpcServer<>::Session jsonSession;
	BinaryProtocolServer<uint16_t>::Session binarySession;
	Served(IRemoteCallable& root) : get(none, root), post(root), http(get, post), json(root), binary(root),
			httpSession(http.getSession()), jsonSession(json.getSession()), binarySession(binary.getSession()) {}
	template <typename Session>
	std::string ask(Session& session, std::string_view request, ServerReaction* reaction = nullptr) {
		ran.clear();
		Exact exact(request);
		std::string out;
		auto [got, size] = session.respond(exact.span(), [&] (std::span<const char> written) { out.append(written.data(), written.size()); });
		if (reaction) *reaction = got;
		return out;
	}
};
static std::string idText(int id) { return id < 0 ? "nothing" : mc::fmt("method %d", id); }
static std::string ranText() {
	std::string r;
	for (int it : ran) r += (r.empty() ? "" : " ") + std::to_string(it);
	return r.empty() ? "nothing" : r;
}
static bool ranOnly(int id) { return id < 0 ? ran.empty() : ran.size() == 1 && ran[0] == id; }

static void tryJson(Served& served, const std::string& path, int id) {
	std::string body = "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":" + rpczoo::jsonText(Node::string(path)) + "}";
	std::string out = served.ask(served.jsonSession, mc::fmt("POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: %zu\r\n\r\n", body.size()) + body);
	mc::step(mc::mix(1, mc::hash(path)));
	MC_CHECK(ranOnly(id), "json-runs", "the path " + mc::quoted(path, 200) + " by JSON-RPC ran " + ranText() + " instead of " + idText(id));
	std::string_view expected = id < 0 ? "\"code\" : -32601" : "\"result\" :";
	MC_CHECK(out.find(expected) != std::string::npos, "json-response", "the response for the path " + mc::quoted(path, 200) + " is " + mc::quoted(out, 400));
}
static void tryUrl(Served& served, const std::string& target, int id, bool form) {
	std::string out = served.ask(served.httpSession, form ? "POST " + target + " HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 0\r\n\r\n" : "GET " + target + "? HTTP/1.1\r\n\r\n");
	mc::step(mc::mix(form ? 2 : 3, mc::hash(target)));
	MC_CHECK(ranOnly(id), form ? "form-runs" : "query-runs", "the path " + mc::quoted(target, 200) + " by " + (form ? "form" : "query") + " ran " + ranText() + " instead of " + idText(id));
	std::string status = out.size() > 12 ? out.substr(9, 3) : out;
	MC_CHECK(id < 0 ? status[0] == '4' || status[0] == '5' : form ? status == "204" : status == "200", form ? "form-response" : "query-response", "the response for the path " + mc::quoted(target, 200) + " is " + mc::quoted(out, 300));
}
static std::string binaryMessage(const std::vector<int>& indexes, bool argument) {
	std::string r("\1\0\0\0", 4);
	size_t size = 6 + indexes.size() + (argument ? 4 : 0);
	r += char(size);
	r += char(size >> 8);
	for (int it : indexes) r += char(it);
	if (argument) r.append(4, '\0');
	return r;
}
static void tryBinary(Served& served, const std::vector<int>& indexes, int id, bool argument = false) {
	ServerReaction reaction;
	std::string message = binaryMessage(indexes, argument);
	std::string out = served.ask(served.binarySession, message, &reaction);
	mc::step(mc::mix(4, mc::hash(message)));
	auto text = [&] {
		std::string r;
		for (int it : indexes) r += (r.empty() ? "" : " ") + std::to_string(it);
		return r;
	};
	MC_CHECK(ranOnly(id), "binary-runs", "the indexes " + text() + " ran " + ranText() + " instead of " + idText(id));
	MC_CHECK(id < 0 ? reaction == ServerReaction::DISCONNECT && out.empty() : reaction == ServerReaction::OK && out.size() == 10 && uint8_t(out[6]) == (id & 0xff), "binary-response", "the response for indexes " + text() + " is " + mc::quoted(out, 100));
}

struct Known {
	std::vector<Method> methods;
	std::map<std::string, int> byDots, bySlashes;
	explicit Known(const Spec& spec) {
		Method at = {};
		collect(spec, at, methods);
		for (auto& it : methods) {
			byDots[it.path(".")] = it.id;
			bySlashes["/" + it.path("/")] = it.id;
		}
	}
	static int find(const std::map<std::string, int>& in, const std::string& path) {
		auto found = in.find(path);
		return found == in.end() ? -1 : found->second;
	}
};
static bool goesInUrl(std::string_view text) {
	for (char c : text) if (!(isalnum((unsigned char)c) || strchr("_-./$~!*:@,;+&='()%", c)) || !c) return false;
	return true;
}
static void tryPath(Served& served, const Known& known, const std::string& path) { // Separated by dots
	tryJson(served, path, Known::find(known.byDots, path));
	if (!goesInUrl(path)) return;
	std::string slashed = "/" + path;
	for (auto& it : slashed) it = it == '.' ? '/' : it == '/' ? '.' : it;
	int id = Known::find(known.bySlashes, slashed);
	tryUrl(served, slashed, id, false);
	tryUrl(served, slashed, id, true);
	if (slashed.size() > 1) { // Has no slash at the beginning
		if (slashed[1] != '/') {
			tryUrl(served, slashed.substr(1), -1, false);
			tryUrl(served, slashed.substr(1), -1, true);
		}
		tryUrl(served, "x" + slashed.substr(1), -1, false);
		tryUrl(served, "x" + slashed.substr(1), -1, true);
	}
}
static void tryIndexes(Served& served, const Spec& spec) {
	// All indexes leading somewhere, and one that does not at each place
	std::vector<int> at;
	auto go = [&] (auto& again, const Spec& it) -> void {
		if (mc::failed()) return;
		int count = it.kind == Spec::Dynamic ? int(it.children.size()) : int(it.members().size());
		if (it.kind < Spec::Dynamic) return tryBinary(served, at, it.id);
		tryBinary(served, at, -1);
		for (int index : {count, count + 1, 127, 128, 255}) {
			if (index < count || index > 255) continue;
			at.push_back(index);
			tryBinary(served, at, -1);
			at.push_back(0);
			tryBinary(served, at, -1);
			at.pop_back();
			at.pop_back();
		}
		for (int index = 0; index < count; index++) {
			at.push_back(index);
			if (it.kind == Spec::Dynamic) again(again, it.children[index]);
			else tryBinary(served, at, it.id + index, it.kind == Spec::OfSimilar && index == 2);
			at.pop_back();
		}
	};
	go(go, spec);
}

// Calls from a client tell their paths
struct Recorder : ITcpClient {
	std::string request;
	void writeRequest(std::span<char> written) override { request.assign(written.data(), written.size()); }
	void getResponse(RequestToken, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)>) override { throw std::runtime_error("not answered"); }
};
template <StringLiteral Separator>
static void tryConstructed(const Tree& tree, const Known& known) {
	for (auto& it : known.methods) {
		const IRemoteCallable* at = tree.root.get();
		const IRemoteCallable* byIndex = at;
		for (size_t i = 0; i < it.names.size() && at && byIndex; i++) {
			at = at->getChild(it.names[i]);
			byIndex = byIndex->getChild(it.indexes[i]);
		}
		MC_CHECK(at && at == byIndex, "constructed-child", "names and indexes of " + it.path(".") + " lead to different objects");
		if (mc::failed()) return;
		using Paths = PathWithSeparator<Separator>;
		std::string separator = Separator.c_str();
		auto made = Paths::constructPath(at);
		mc::step(made);
		MC_CHECK(made == it.path(separator), "constructed-path", "the path of " + it.path(separator) + " is constructed as " + mc::quoted(made, 200));
		MC_CHECK(Paths::findCallable(it.path(separator), tree.root.get()) == at, "constructed-found", "the path " + it.path(separator) + " does not lead to the same object");
		MC_CHECK(!Paths::findCallable(it.path(separator) + separator, tree.root.get()), "constructed-trailing", "the path " + it.path(separator) + separator + " leads somewhere");
		MC_CHECK(!Paths::findCallable(separator + it.path(separator), tree.root.get()), "constructed-leading", "the path " + separator + it.path(separator) + " leads somewhere");
		if (mc::failed()) return;
	}
}
static void tryClient(const Spec& spec, const Known& known, Tree::Way way) {
	Tree tree(spec, way);
	tryConstructed<".">(tree, known);
	tryConstructed<"::">(tree, known);
	tryConstructed<"->">(tree, known);
	if (tree.callers.empty() || mc::failed()) return;
	Recorder network;
	auto check = [&] (const char* protocol, auto&& isRight) {
		for (auto& it : known.methods) {
			auto found = tree.callers.find(it.id);
			if (found == tree.callers.end() || mc::failed()) continue;
			network.request.clear();
			ran.clear();
			std::string problem;
			try {
				found->second();
			} catch (std::exception& e) {
				problem = e.what();
			}
			mc::step(mc::mix(mc::hash(protocol), mc::hash(network.request)));
			MC_CHECK(ran.empty(), std::string("client-local-") + protocol, "a call by a client was run locally");
			MC_CHECK(isRight(it), std::string("client-path-") + protocol, "the client of " + std::string(protocol) + " calls " + it.path(".") + " as " + mc::quoted(network.request, 300) + " " + problem);
			if (!mc::failed()) mc::validated();
		}
	};
	{
		JsonRpcClient<> client(*tree.root, network, "host");
		check("JSON-RPC", [&] (const Method& it) {
			size_t at = network.request.find("\r\n\r\n");
			if (at == std::string::npos) return false;
			Node body;
			StrictJson json(std::string_view(network.request).substr(at + 4));
			return json.document(body) && body.find("method") && body.find("method")->s == it.path(".");
		});
	}
	{
		HttpClient<> client(network, "host");
		tree.root->setResponder(client);
		check("HTTP", [&] (const Method& it) { return network.request.find(" /" + it.path("/") + " HTTP/1.1\r\n") != std::string::npos || network.request.find(" /" + it.path("/") + "?") != std::string::npos; });
	}
	{
		BinaryProtocolClient<uint16_t, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, 9> client(*tree.root, network);
		check("binary", [&] (const Method& it) { return network.request.size() >= 6 && network.request.substr(4) == binaryMessage(it.indexes, it.argument).substr(4); });
	}
}

// Trees of few methods
static const std::vector<std::string> fewNames = {"a", "aa", "ab", "b"};
static void anyChildren(Spec& spec, int& left, int depth, int first = -1, int firstName = -1, int firstKind = -1) {
	spec.kind = Spec::Dynamic;
	int count = first >= 0 ? first : mc::choose(std::min(left, 3) + 1);
	left -= count;
	std::vector<std::string> unused = fewNames;
	for (int i = 0; i < count; i++) {
		Spec& it = spec.children.emplace_back();
		int which = i == 0 && firstName >= 0 ? firstName : count < 3 ? mc::choose(int(unused.size())) : i == 0 ? mc::choose(4) : 0;
		it.name = unused[which];
		unused.erase(unused.begin() + which);
	}
	for (auto& it : spec.children) {
		int kind = &it == &spec.children[0] && firstKind >= 0 ? firstKind : mc::choose(depth > 0 ? 4 : 2);
		it.kind = kind == 0 ? Spec::Lambda : kind == 1 ? Spec::HeapLambda : kind == 2 ? Spec::OfSingle : Spec::Dynamic;
		if (kind == 1) it.kind = Spec::OfSimilar;
		if (kind == 3) anyChildren(it, left, depth - 1);
	}
}
static void allStrings(std::string& text, int left, std::string_view alphabet, auto&& f) {
	f(text);
	if (left == 0) return;
	for (char c : alphabet) {
		text += c;
		allStrings(text, left - 1, alphabet, f);
		text.pop_back();
	}
}
static mc::Register small("all paths in small trees", 4 * Tree::wayCount * 16, [] (int u) {
	Spec root;
	int firstName = u / 4 % 4, firstKind = u / 16 % 4;
	auto way = Tree::Way(u / 64);
	if (u % 4 == 0 && (firstName || firstKind)) return;
	int left = mc::thorough() ? 5 : way == Tree::OwnedUpwards ? 4 : 3;
	if (u % 4 > left) return;
	anyChildren(root, left, 2, u % 4, firstName, firstKind);
	root.number(1);
	mc::describe(mc::fmt("way %d ", way) + root.text());
	Known known(root);
	Tree tree(root, way);
	Served served(*tree.root);
	std::string text;
	allStrings(text, 4, mc::thorough() ? "ab./" : "ab.", [&] (const std::string& path) { if (!mc::failed()) tryPath(served, known, path); });
	if (!mc::thorough()) allStrings(text, 3, "a./", [&] (const std::string& path) { if (!mc::failed()) tryPath(served, known, path); });
	if (!mc::failed()) tryIndexes(served, root);
	if (!mc::failed()) tryClient(root, known, way);
	for (auto& it : known.methods) if (!mc::failed()) tryPath(served, known, it.path("."));
	if (!mc::failed()) mc::validated();
});

// Bigger trees
static Spec lambdaSpec(std::string name, bool heap = false) {
	Spec r;
	r.name = name;
	r.kind = heap ? Spec::HeapLambda : Spec::Lambda;
	return r;
}
static Spec objectSpec(Spec::Kind kind, std::string name) {
	Spec r;
	r.name = name;
	r.kind = kind;
	return r;
}
static Spec dynamicSpec(std::string name, std::vector<Spec> children) {
	Spec r;
	r.name = name;
	r.kind = Spec::Dynamic;
	r.children = children;
	return r;
}
static std::vector<Spec> bigTrees() {
	std::vector<Spec> r;
	r.push_back(objectSpec(Spec::OfSimilar, ""));
	r.push_back(objectSpec(Spec::OfSingle, ""));
	r.push_back(objectSpec(Spec::OfMany, ""));
	r.push_back(dynamicSpec("", {objectSpec(Spec::OfMany, "m"), objectSpec(Spec::OfSimilar, "mm"), lambdaSpec("mmm", true), dynamicSpec("0", {objectSpec(Spec::OfMany, "0"), objectSpec(Spec::OfSingle, "m")})}));
	r.push_back(dynamicSpec("", {dynamicSpec("a", {dynamicSpec("a", {dynamicSpec("a", {lambdaSpec("a"), lambdaSpec("aa")}), objectSpec(Spec::OfSimilar, "aa")}), objectSpec(Spec::OfSimilar, "ab")}), dynamicSpec("aa", {lambdaSpec("a", true), dynamicSpec("a.", {}) }), lambdaSpec("b")}));
	r.back().children[1].children.pop_back(); // Names don't contain the separators
	Spec deep = objectSpec(Spec::OfSimilar, "h");
	for (char c : std::string("gfedcba")) deep = dynamicSpec(std::string(1, c), {lambdaSpec("before"), deep, lambdaSpec("behind", true)});
	r.push_back(deep);
	for (auto names : {std::vector<std::string>{"plain", "with space", " with space", "with space ", "quote\"d", "back\\slash", "\\u0041", "A"},
			{"\xc4\x8d", "c", "\xf0\x9f\x98\x80", "e\xcc\x81", "\xc3\xa9"}, {"tab\there", "line\nhere", std::string("nul\0here", 8), "nul", std::string("nul\0", 4), "\x7f"},
			{"a%61", "aa", "a+a", "a a", "a&b", "a=b", "a;b", "%2f", "a#b"}}) {
		std::vector<Spec> methods;
		for (auto& it : names) methods.push_back(lambdaSpec(it, methods.size() % 2));
		auto objects = methods;
		for (auto& it : names) {
			objects[&it - &names[0]] = dynamicSpec(it, methods);
			objects[&it - &names[0]].children.push_back(objectSpec(Spec::OfSingle, "single"));
		}
		r.push_back(dynamicSpec("", methods));
		r.push_back(dynamicSpec("", objects));
	}
	std::vector<Spec> wide;
	for (int i = 0; i < 200; i++) wide.push_back(i % 50 == 7 ? objectSpec(Spec::OfSimilar, mc::fmt("n%d", i)) : lambdaSpec(mc::fmt("n%d", i), i % 3 == 0));
	r.push_back(dynamicSpec("", wide));
	for (auto& it : r) it.number(1);
	return r;
}
constexpr int bigCount = 15, slices = 6;
static const std::vector<Spec>& big() {
	static std::vector<Spec> made = bigTrees();
	return made;
}
static mc::Register bigger("changes of paths in bigger trees", bigCount * Tree::wayCount * slices, [] (int u) {
	int slice = u % slices;
	u /= slices;
	auto& root = big().at(u % bigCount);
	auto way = Tree::Way(u / bigCount);
	Known known(root);
	Tree tree(root, way);
	Served served(*tree.root);
	int mine = (int(known.methods.size()) - slice + slices - 1) / slices;
	if (mine <= 0) return;
	auto& method = known.methods[mc::choose(mine) * slices + slice];
	bool many = known.methods.size() > 100;
	mc::describe(mc::fmt("way %d tree %d ", way, u % bigCount) + method.path("."));
	auto names = method.names;
	std::string path = method.path(".");
	auto attempt = [&] (const std::string& changed) { if (!mc::failed()) tryPath(served, known, changed); };
	attempt(path);
	// Each change of a character
	std::vector<std::string> inserted = {".", "/", "a", "m", "A", " ", "\"", "\\", "..", "::", "\t", "\n", "%2e", "?", "0", "\xc3\xa9", std::string(1, '\0'), "*"};
	auto changes = [&] (const std::string& of, auto&& then) {
		for (size_t i = 0; i <= of.size(); i++) {
			if (i < of.size()) {
				then(of.substr(0, i) + of.substr(i + 1));
				then(of.substr(0, i) + of[i] + of.substr(i));
				std::string other = of;
				other[i] = isupper((unsigned char)of[i]) ? char(tolower(of[i])) : char(toupper((unsigned char)of[i]));
				if (uint8_t(of[i]) < 0x80) then(other);
			}
			then(of.substr(0, i));
			then(of.substr(i));
			for (auto& it : inserted) {
				then(of.substr(0, i) + it + of.substr(i));
				if (i < of.size()) then(of.substr(0, i) + it + of.substr(i + 1));
			}
		}
	};
	bool valid = true;
	auto checked = [&] (const std::string& changed) { if (validUtf8(changed)) attempt(changed); };
	(void)valid;
	if (mc::thorough() && !many && path.size() < 20) changes(path, [&] (const std::string& changed) { checked(changed); changes(changed, checked); });
	else changes(path, checked);
	// Each change of a name
	for (size_t i = 0; i < names.size(); i++) {
		auto joined = [&] (std::vector<std::string> parts) { Method m = method; m.names = parts; std::string r; for (size_t j = 0; j < parts.size(); j++) r += (j ? "." : "") + parts[j]; attempt(r); };
		auto without = names;
		without.erase(without.begin() + i);
		joined(without);
		auto twice = names;
		twice.insert(twice.begin() + i, names[i]);
		joined(twice);
		auto empty = names;
		empty.insert(empty.begin() + i, "");
		joined(empty);
		empty[i + 1] = "";
		joined(empty);
		for (size_t j = 0; j < i; j++) {
			auto swapped = names;
			std::swap(swapped[i], swapped[j]);
			joined(swapped);
		}
		for (auto& other : known.methods) for (auto& name : other.names) {
			if (mc::failed() || (many && &other != &known.methods[0])) break;
			auto replaced = names;
			replaced[i] = name;
			joined(replaced);
			replaced.push_back(name);
			joined(replaced);
		}
	}
	for (auto& other : known.methods) attempt(path + "." + other.path(".")), attempt(other.path(".") + "." + path);
	if (!mc::failed()) mc::validated();
});
static mc::Register indexes("indexes and paths of clients in bigger trees", bigCount * Tree::wayCount, [] (int u) {
	auto& root = big().at(u % bigCount);
	auto way = Tree::Way(u / bigCount);
	mc::describe(mc::fmt("way %d tree %d", way, u % bigCount));
	Known known(root);
	Tree tree(root, way);
	Served served(*tree.root);
	tryIndexes(served, root);
	bool named = true;
	for (auto& it : known.methods) for (auto& name : it.names) if (!goesInUrl(name)) named = false;
	if (named && !mc::failed()) tryClient(root, known, way);
});
// More methods than can have an index
static mc::Register many("objects of many methods", 5, [] (int u) {
	int size = std::array<int, 5>{255, 256, 257, 300, 700}[u];
	std::vector<Spec> wide;
	for (int i = 0; i < size; i++) wide.push_back(i % 16 == 15 || i + 1 == size ? objectSpec(Spec::OfSingle, mc::fmt("n%d", i)) : lambdaSpec(mc::fmt("n%d", i)));
	Spec root = dynamicSpec("", wide);
	root.number(1);
	mc::describe(mc::fmt("%d methods", size));
	Known known(root);
	Tree tree(root, Tree::ReferredUpwards);
	Served served(*tree.root);
	for (auto& it : known.methods) if (!mc::failed()) tryPath(served, known, it.path("."));
	Recorder network;
	BinaryProtocolClient<uint16_t, ExpandingBuffer<>> client(*tree.root, network);
	for (auto& it : known.methods) {
		auto found = tree.callers.find(it.id);
		if (found == tree.callers.end() || mc::failed()) continue;
		network.request.clear();
		try { found->second(); } catch (std::exception&) {}
		mc::step(mc::mix(size, it.id));
		// It's enough if the call fails, another method must not be called
		bool indexable = it.indexes[0] < 256;
		MC_CHECK(indexable ? network.request.substr(4) == binaryMessage(it.indexes, false).substr(4) : network.request.empty(), "many-binary", mc::fmt("method %d of %d is called as ", it.indexes[0], size) + mc::quoted(network.request, 100));
	}
});
